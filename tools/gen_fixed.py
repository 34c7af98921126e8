#!/usr/bin/env python3
"""Prints the 'fixed:' lines of KNOWN_FINDINGS.txt from /repo's fix commits."""
import subprocess
P = {"393e543": "C03", "2e3f744": "C03", "49aed65": "C03", "4a0b9a9": "C03", "52a76fc": "C06", "632debe": "C03", "3499c0a": "C03", "8470657": "C05",
     "7fb9da4": "C05", "4088c4b": "C03", "13ffec7": "C05", "59d5725": "C05", "4c368cb": "C02", "096c90a": "C05", "53269d7": "C04", "6e142d9": "C05",
     "15c353b": "C08", "fac80ac": "C07", "86960eb": "C07", "2b7b666": "C01", "76f8c0d": "C11", "55e40ee": "C15", "1c131fd": "C15", "8f4a74c": "C15",
     "6fc93a4": "C15", "2d7d3fe": "C15", "a58883d": "C15", "9bd8689": "C15", "560d134": "C15", "14dd4bb": "C13", "b8da0c8": "C14", "c1f036f": "C13",
     "8dba5e7": "C13", "ae76e13": "C13", "08ef429": "C11", "1adc6ed": "C11", "63e1563": "C05", "ad979f5": "C05", "d0400dd": "C04", "dc53b0b": "C05", "6c365db": "C07", "c5764fc": "C07", "192aab0": "C12", "2fc7455": "C15", "044d2dc": "C15", "13e1616": "C15", "ff330c1": "C15", "ad053a6": "C12", "d2b0d1d": "C02", "95ca15a": "C05", "ccb723a": "C02", "1e4fb63": "C02", "902cd87": "C16"}
F = [("C05", "exit:z0", "compute_corrfunc(z=0, r=10, mu=1), (0, 100, 0) and compute_multipole(z=0, r=10 or 100, l=2) end the whole process (exit(1) in functions.c for a value which is not finite) instead of raising an error"),
     ("C05", "exit:near", "compute_corrfunc(z=0.01, r=1500, mu=1) and compute_multipole(z=0.01, r=1500, l=2), pairs reaching beyond the observer, end the whole process the same way"),
     ("C05", "exit:r0", "compute_corrfunc(z=0.9, r=0, mu=0.5) and compute_multipole(z=0.9, r=0, l=2) end the whole process the same way"),
     ("C05", "exit:far", "compute_corrfunc(z=14.99, r=1500, mu=1), (15, 10, 0.4) and the same multipoles, pairs reaching beyond the last tabulated redshift, end the whole process the same way"),
     ("C05", "exit:bias-range", "compute_corrfunc(z=12, r=30, mu=0.1) and compute_multipole(z=12, r=30, l=2) with bias tables which end at z=10 end the whole process the same way"),
     ("C05", "exit:table", "with a potential term on, compute_corrfunc(z=5, r=1500, mu=0.3) and compute_multipole(z=1.5, r=60, l=0), points beyond the redshifts in the settings, end the whole process the same way")]
for ln in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "eea96f9..HEAD"], text=True).splitlines():
    h, s = ln.split(" ", 1)
    if s.startswith("fix: "):
        print(f"fixed: property={P.get(h, 'C03')} {h} {s[5:]}")
for p, k, w in F:
    print(f"finding: property={p} key={k} {w}")
