"""C09: objects are independent of each other."""
import sys

import gen as G
import hist
import model as M
import simlib as S

NEEDS = "hist"
CFGS = ["local", "local", "flat", "twobins", "userpk", "binned", "fftlog", "doppler", "halofit", "crossonly", "neutrino", "userpk_flat", "lensing"]


def rename(op, obj):
    if op[0] in ("prov", "sim", "fs"):
        return op
    return [op[0], obj] + list(op[2:])


def client(r, H, obj, length):
    """One client's operations on its own object (creation to, maybe, destruction)."""
    base, pre, ops = G.history(r, H.settings, length, base=r.choice(CFGS), obj=obj, pq=0.45, divergent=0.0)
    out = list(pre)
    w = M.from_cfg(base)
    for op in ops:
        out.append(op)
        x = r.random()
        if x < 0.10:
            n = r.choice(G.HOT)
            out.append(["set", obj, n, r.choice(G.bad_values(n, w.s.get(n, M.DEFAULTS.get(n)), r))])
        elif x < 0.16:
            out.append(rename(r.choice(G.bad_calls()), obj))
        elif x < 0.20:
            out += [["save", obj, f"{obj}.cfg"], ["load", obj, f"{obj}.cfg"]]
        elif x < 0.24:
            # a failing provider, armed for exactly one operation of this client
            out.append(["group", ["prov", 1, r.choice([0, 1])], rename(r.choice(G.Q), obj), ["prov", 0, 0]])
        elif x < 0.30:
            out.append(["all", obj])
        elif x < 0.33:
            out.append(["params", obj])
        G.note(w, op)
    if r.random() < 0.3:
        out.append(["del", obj])
        if r.random() < 0.6:
            out += [["new", obj], ["all", obj], ["allb", obj]]
    else:
        out += [["all", obj], ["allb", obj]] + [rename(q, obj) for q in r.sample(G.Q, 3)]
    return out


def flatten(seq):
    """[(client, op)] with groups expanded."""
    out = []
    for c, op in seq:
        if op[0] == "group":
            out += [(c, o) for o in op[1:]]
        else:
            out.append((c, op))
    return out


def merge(r, clients, nest):
    """A seeded interleaving; [(client, op)]. Some list values are turned into iterators during which another client acts."""
    pos = [0] * len(clients)
    seq = []
    burst = None
    while any(p < len(c) for p, c in zip(pos, clients)):
        live = [i for i in range(len(clients)) if pos[i] < len(clients[i])]
        if burst not in live or r.random() < 0.45:
            burst = r.choice(live)
        i = burst
        op = clients[i][pos[i]]
        pos[i] += 1
        others = [j for j in live if j != i and pos[j] < len(clients[j])]
        if nest and others and op[0] == "set" and isinstance(op[3], list) and len(op[3]) > 1 and r.random() < 0.5:
            j = r.choice(others)
            inner = clients[j][pos[j]]
            if inner[0] in ("set", "q", "bias", "del", "all", "setm") and not (isinstance(inner[-1], dict)):
                pos[j] += 1
                # only a plain list is replaced by an iterator: same values, so same effect on its own object
                seq.append((i, ["set", op[1], op[2], {"$": "reenter", "v": op[3], "at": r.randrange(len(op[3])), "ops": [inner], "j": j}]))
                continue
        seq.append((i, op))
    return seq


def run(H, ops, timeout=60):
    return H.pool.call({"ops": ops, "timeout": timeout, "stats": False})["out"]


def solo_ops(seq, c):
    """What client c does in this interleaving, alone (iterators included, but with nobody acting inside)."""
    out = []
    for i, op in flatten(seq):
        re = op[0] == "set" and isinstance(op[3], dict) and op[3].get("$") == "reenter"
        if i == c:
            out.append(["set", op[1], op[2], {"$": "reenter", "v": op[3]["v"], "at": 0, "ops": []}] if re else op)
        elif re and op[3].get("j") == c:
            out += op[3]["ops"]
    return out


def judge(H, seq, n, ck=None):
    """(client, position, text) of the first result that differs from the client's own run."""
    fl = flatten(seq)
    outs = run(H, [op for _, op in fl])
    mine = [[] for _ in range(n)]
    dead = None
    timed = False
    for (i, op), r in zip(fl, outs):
        if r[0] == "timeout":
            timed = True
            break
        if r[0] == "died":
            dead = i
            mine[i].append((op, r))
            break
        re = op[0] == "set" and isinstance(op[3], dict) and op[3].get("$") == "reenter"
        if re:
            nested = [x for x in r[2:] + r[3:] if isinstance(x, dict) and "nested" in x]
            got = nested[0]["nested"] if nested else []
            j = op[3].get("j")
            for o2, r2 in zip(op[3]["ops"], got):
                mine[j].append((o2, r2))
            if not got:
                # the iterator was never advanced that far; the inner operation did not happen
                return ("skip",)
            r = [x for x in r if not isinstance(x, dict) or "nested" not in x]
        mine[i].append((op, r))
    for c in range(n):
        if dead is not None and c != dead:
            continue
        alone = run(H, solo_ops(seq, c))
        for k, (op, r) in enumerate(mine[c]):
            if k >= len(alone):
                if alone[-1][0] == "timeout":
                    break
                return c, k, f"{op[0]} gives {S.short(r)}; alone, the client never gets there: {alone[-1]}"
            if "timeout" in (r[0], alone[k][0]):
                break
            if ck:
                ck.count()
            if not S.same(r, alone[k]):
                what = op[2] if op[0] in ("q", "set", "bias") else op[0]
                return c, k, f"client {c}: {what} gives {S.short(r, 110)} but {S.short(alone[k], 110)} when its object is the only one"
            if r[0] == "died":
                break
    if timed:
        return None
    return None


def main():
    ck = S.Check("C09", "exploration", "each evaluation is one result of one client in an interleaving of several clients' operations, compared with the result of "
                 "the same client running alone; distinct by interleaving")
    H = hist.Hist("c09")
    try:
        budget = 50 if S.TIER == "quick" else 2400
        start = S.elapsed()

        def one(i):
            r = S.rng("c09", i)
            n = r.choice([2, 2, 3])
            cl = [client(r, H, f"o{c}", r.randint(2, 6)) for c in range(n)]
            seq = merge(r, cl, r.random() < 0.6)
            ck.add("nested_operations", sum(1 for _, o in seq if o[0] == "set" and isinstance(o[3], dict) and o[3].get("$") == "reenter"))
            ck.add("switches_between_clients", sum(1 for a, b in zip(seq, seq[1:]) if a[0] != b[0]))
            b = judge(H, seq, n, ck)
            ck.seen([seq], n=0)
            ck.sample([o for _, o in seq][-4:], 2)
            if b and b != ("skip",):
                with ck.lock:
                    if len(ck.viol) >= 4:
                        return
                b2 = judge(H, seq, n)
                if not b2 or b2 == ("skip",):
                    ck.add("unconfirmed")
                    print("unconfirmed", i, b[2], b2, file=sys.stderr)
                    return

                def test(s):
                    x = s and judge(H, s, n)
                    return bool(x) and x != ("skip",)
                small = S.ddmin(seq, test, budget=40, secs=60) if len(ck.viol) < 2 else seq
                bb = judge(H, small, n) or b
                op = bb[2].split(":")[1].split(" gives")[0].strip() if ":" in bb[2] else "x"
                ck.violation(op, bb[2], {"seq": small, "n": n})
        S.pmap(one, range(100000), stop=lambda: S.elapsed() - start > budget)
        ck.assumptions = ["clients are scheduled cooperatively: at call boundaries, and inside a call whenever it advances an iterator of its caller"]
    finally:
        H.close()
    return ck.finish()


def replay(H, case):
    b = judge(H, [tuple(x) for x in case["seq"]], case["n"])
    if b:
        print("  " + b[2])
    return bool(b)
