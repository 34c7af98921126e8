"""Histories of Coffe objects: running them, and what a fresh object would have said."""
import threading

import model as M
from simlib import *  # noqa: F401,F403
import simlib as S


class Hist:
    def __init__(self, name, n=S.NCPU, flavour="hist"):
        self.paths = B.Builder().build({flavour})
        self.pool = S.Pool(self.paths, flavour, n, name)
        self.memo = {}
        self.memo_l = threading.Lock()
        r = self.pool.call({"mode": "settings"})
        self.settings, self.readable = r["out"][0][1]
        d = self.pool.call({"ops": [["new", "a"], ["all", "a"]]})
        M.DEFAULTS.clear()
        M.DEFAULTS.update(d["out"][1][1])

    def close(self):
        self.pool.close()

    def fresh(self, m, pk, qs, isolated=False, sim=None, timeout=90):
        """Results of the queries on a fresh object in state m."""
        key = S.digest([m.key(pk), qs, isolated, sim], 24)
        with self.memo_l:
            ent = self.memo.get(key)
            if ent is None:
                ent = self.memo[key] = [threading.Lock(), None]
        with ent[0]:
            if ent[1] is None:
                pre = m.fresh("a", pk)
                if isolated:
                    res = []
                    for q in qs:
                        r = self.pool.call({"ops": pre + [q], "timeout": timeout, "stats": False})
                        res.append(r["out"][-1] if len(r["out"]) == len(pre) + 1 else ["unbuilt", r["out"][-1]])
                else:
                    res = []
                    todo = list(qs)
                    while todo:
                        # a death ends the process: the rest is asked of another fresh one
                        r = self.pool.call({"ops": pre + todo, "timeout": timeout, "stats": False})
                        bad = [x for x in r["out"][:len(pre)] if x[0] != "ok"]
                        if bad:
                            res += [["unbuilt", bad[0]]] * len(todo)
                            break
                        got = r["out"][len(pre):]
                        if not got:
                            raise S.HarnessError(f"oracle gave nothing: {r['out'][-1:]} {r.get('end')}")
                        res += got
                        todo = todo[len(got):]
                ent[1] = res
            return ent[1]
