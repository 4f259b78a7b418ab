#!/usr/bin/env python3
"""How tightly do the trace specifications bind the records?   selftest.py [P05 ...] [-n N] [--seed S]

Records traces of the real code, changes one observed value in a copy of each (a number, a flag, the length of a
list), and lets TLC decide.  Every changed record that is still accepted is counted under the place that was changed.
Not a check of its own (a change may well be allowed: a tie, a tolerance, a value nobody asked for).
"""
import sys, os, json, random, shutil, tempfile, argparse, collections, copy
import run
from props import PROPS


def leaves(v, path):
    if isinstance(v, list):
        yield path, "len"
        for k, x in enumerate(v):
            yield from leaves(x, path + [k])
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from leaves(x, path + [k])
    else:
        yield path, type(v).__name__


def change(rnd, rec, path, kind):
    o = rec
    for k in path[:-1]:
        o = o[k]
    k = path[-1]
    v = o[k]
    if kind == "bool":
        o[k] = not v
    elif kind == "int":
        o[k] = v + rnd.choice([1, -1, 40, -40])
        return "%+d" % (o[k] - v)
    elif kind == "len":
        if v and rnd.random() < 0.6:
            del v[rnd.randrange(len(v))]
            return "drop"
        if not v:
            return None
        x = rnd.randrange(len(v))
        v.insert(x, copy.deepcopy(v[x]))
        return "repeat"
    elif kind == "str":
        if not v:
            return None
        x = rnd.randrange(len(v))
        o[k] = v[:x] + chr(ord(v[x]) ^ 1) + v[x + 1:]
    else:
        return None
    return kind


def one(pid, n, seed):
    p = PROPS[pid]
    rnd = random.Random(seed)
    os.makedirs(os.path.join(run.HERE, "scratch"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="self-", dir=os.path.join(run.HERE, "scratch"))
    try:
        binary = run.build(scratch)
        fs = run.run_harness(binary, pid, ["--seed", str(seed), "--tier", "quick", "--mark"], scratch, 1)
        recs = [json.loads(l) for l in open(fs[0])]
        recs = [r for r in recs if r.get("st") == "ok" and r.get("_o") and len(json.dumps(r)) < 3000]
        by = collections.defaultdict(list)
        for r in recs:
            by[r.get("k")].append(r)
        out, what = [], []
        while len(out) < n:
            r = copy.deepcopy(rnd.choice(by[rnd.choice(list(by))]))
            keys = r.pop("_o")
            ls = [l for k in keys for l in leaves(r[k], [k])]
            # each kind of place equally often
            groups = collections.defaultdict(list)
            for path, kind in ls:
                groups[".".join("*" if isinstance(x, int) else x for x in path) + " " + kind].append((path, kind))
            name = rnd.choice(list(groups))
            path, kind = rnd.choice(groups[name])
            how = change(rnd, r, path, kind)
            if how:
                out.append(r)
                what.append("%s %s" % (name, how))
        f = os.path.join(scratch, "changed.ndjson")
        gone = set()
        while True:
            live = [k for k in range(n) if k not in gone]
            with open(f, "w") as h:
                for k in live:
                    h.write(json.dumps(out[k]) + "\n")
            try:
                g, d, o = run.tlc(p["trace"], "Trace.cfg", scratch, 1, "3g", 840, "self", trace=f)
            except run.EvalError as e:
                gone.add(live[e.n - 1])
                continue
            break
        import re
        rej = {live[int(x) - 1] for x in re.findall(r'^"(?:REJECT|KNOWN) (\d+)"', o, re.M)} | gone
        tot, acc = collections.Counter(what), collections.Counter(what[k] for k in range(n) if k not in rej)
        print("%s: %d of %d changed records rejected" % (pid, len(rej), n))
        for w in sorted(tot):
            if acc[w]:
                k = next(k for k in range(n) if k not in rej and what[k] == w)
                print("   accepted %d of %d: %s" % (acc[w], tot[w], w))
                if VERBOSE:
                    print("      " + json.dumps(out[k])[:400])
        sys.stdout.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pids", nargs="*")
    ap.add_argument("-n", type=int, default=400)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    VERBOSE = a.v
    for pid in a.pids or sorted(PROPS):
        one(pid, a.n, a.seed)
