#!/usr/bin/env python3
"""Builds everything the checks need from /repo, once."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import build  # noqa: E402

print(build.Builder().build({"hist", "pat", "sched", "cli"}))
