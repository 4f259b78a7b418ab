#!/usr/bin/env python3
"""Decides one property:  run.py P05 [--tier quick|thorough] [--seed N] [--replay FILE]

1. model checks the algorithm models of the property with TLC (small constants, exhaustive),
2. builds the harness against /repo's working tree,
3. lets it run the real code on the behaviours TLC enumerated and on generated ones, recording traces,
4. lets TLC decide for every recorded trace whether the specification allows it.
Exit 0: everything conforms; 1 + a VIOLATION line: it does not; 2: the check itself failed.
"""
import sys, os, json, subprocess, time, re, fcntl, shutil, tempfile, argparse, random
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = "/repo"


class ToolError(Exception):
    pass


class EvalError(ToolError):
    """TLC could not evaluate the specification on recorded trace number n: the record does not
    have the shape or the magnitude the specification gives to every value it allows"""

    def __init__(self, n, msg):
        ToolError.__init__(self, msg)
        self.n = n


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    # the library denies warnings that newer compilers have more of
    e["RUSTFLAGS"] = "--force-warn unused-attributes --cap-lints warn"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("CARGO_TARGET_DIR", None)
    return e


def sh(cmd, cwd=None, timeout=600, extra=None):
    e = env()
    if extra:
        e.update(extra)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError("timeout: " + " ".join(cmd) + "\n" + (x.stdout or b"").decode(errors="replace")[-2000:])
    return p.returncode, p.stdout.decode(errors="replace")


def build(scratch, variant=""):
    """build the harness against /repo as it is now; returns a private copy of the binary, or None"""
    hdir = os.path.join(HERE, "harness" + variant)
    tdir = os.path.join(HERE, "harness", "target" + variant)
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".verif-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["cargo", "clean", "--offline", "--release", "-p", "linestring", "--target-dir", tdir], cwd=hdir)
        rc, out = sh(["cargo", "build", "--offline", "--release", "--locked", "--target-dir", tdir], cwd=hdir)
        if rc != 0:
            if variant:
                return None
            raise ToolError("harness build failed\n" + out[-6000:])
        dst = os.path.join(scratch, "vharness" + variant)
        shutil.copy2(os.path.join(tdir, "release", "vharness"), dst)
    return dst


def tlc(module, cfg, scratch, workers, xmx, timeout, tag, trace=None):
    meta = os.path.join(scratch, "meta-" + tag)
    tmp = meta + "-tmp"
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + tmp]
    cmd += ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]
    cmd += ["-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
            "-config", cfg, module + ".tla"]
    rc, out = sh(cmd, cwd=os.path.join(HERE, "spec"), timeout=timeout,
                 extra={"VTRACE": trace} if trace else {"VTRACE": "/dev/null"})
    shutil.rmtree(meta, ignore_errors=True)
    if "Model checking completed. No error has been found." not in out:
        bad = [l for l in out.splitlines() if not l.startswith('"CASE ')]
        m = re.search(r"The behavior up to this point is:.*?^(?:/\\ )?i = (\d+)$", out, re.S | re.M)
        if not m:
            m = re.search(r"initial state.*?^(?:/\\ )?i = (\d+)$", out, re.S | re.M)
        if trace and m and not re.search("StackOverflow|OutOfMemory|heap space", out):
            raise EvalError(int(m.group(1)), "\n".join(bad)[-3000:])
        raise ToolError("TLC %s %s (exit %d)\n%s" % (module, cfg, rc, "\n".join(bad)[-6000:]))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
    if not m:
        raise ToolError("TLC %s %s: no state count\n%s" % (module, cfg, out[-3000:]))
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", "")), out


def unquote(l):
    # TLC prints strings in quotes, with backslash escapes
    return json.loads(l)


def model_check(p, tier, scratch):
    res = []
    cases = []
    jobs = [j for j in p["mc"] if j[2] in ("both", tier)]

    def one(j):
        module, cfg, _ = j
        t0 = time.time()
        w = 4 if len(jobs) > 1 else 6
        g, d, out = tlc(module, cfg + ".cfg", scratch, w, "6g", 780, module + cfg)
        cs = [unquote(l)[5:] for l in out.splitlines() if l.startswith('"CASE ')]
        return dict(model=module, cfg=cfg, generated=g, distinct=d, cases=len(cs), wall_s=round(time.time() - t0, 1)), cs

    with ThreadPoolExecutor(2) as ex:
        for r, cs in ex.map(one, jobs):
            res.append(r)
            cases += cs
    return res, cases


def run_harness(binary, pid, args, scratch, shards):
    out = os.path.join(scratch, "traces")
    os.makedirs(out, exist_ok=True)
    rc, o = sh([binary, pid, "--out", out, "--shards", str(shards)] + args, cwd=scratch, timeout=800)
    if rc != 0 or not re.search(r"^(CASES|HANG)", o, re.M):
        raise ToolError("harness failed (exit %d)\n%s" % (rc, o[-4000:]))
    files = []
    for k in range(shards):
        f = os.path.join(out, "trace-%d.ndjson" % k)
        if os.path.getsize(f) > 0:
            files.append(f)
    return files


def check_traces(module, files, scratch):
    def one(f):
        tag = module + os.path.basename(os.path.dirname(os.path.dirname(f))) + os.path.basename(f)
        try:
            g, d, out = tlc(module, "Trace.cfg", scratch, 1, "3g", 840, tag, trace=f)
        except EvalError as e:
            print("TLC stopped at trace %d of %s:\n%s" % (e.n, os.path.basename(f), str(e)[:1500]))
            return f, 0, 0, [e.n], [], len(open(f).read().splitlines())
        rej = [int(x) for x in re.findall(r'^"REJECT (\d+)"', out, re.M)]
        known = [int(x) for x in re.findall(r'^"KNOWN (\d+)"', out, re.M)]
        m = re.search(r'^"TRACES (\d+)"', out, re.M)
        if not m:
            raise ToolError("no TRACES line\n" + out[-3000:])
        return f, g, d, rej, known, int(m.group(1))

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, files))


def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid = a.pid
    p = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "scratch"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, "scratch"))
    try:
        return decide(pid, p, tier, a, scratch, t0)
    except ToolError as e:
        print("ERROR property=%s the check itself failed\n%s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, p, tier, a, scratch, t0):
    shards = 8 if not a.replay else 1
    mc, cases = [], []
    model = None
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(build, scratch)
        fm = ex.submit(build, scratch, "-model") if p.get("model_build") else None
        fc = ex.submit(model_check, p, tier, scratch) if not a.replay else None
        binary = fb.result()
        if fm:
            model = fm.result()
        if fc:
            mc, cases = fc.result()
    for r in mc:
        print("model %(model)s/%(cfg)s: %(generated)d states, %(distinct)d distinct, %(cases)d behaviours emitted, %(wall_s)ss" % r)

    rnd = random.Random(a.seed)
    cap = p.get("max_cases", {}).get(tier, 40000)
    rejected, known, total, gen, dist = [], [], 0, 0, 0
    samples, srcs = [], {}
    rounds, spent = 0, 0
    if p.get("model_build") and not model:
        print("the schedule replay does not build against this tree, schedules are left to the real thread pool")
    while True:
        # one seed after the other: three, or, if thorough, as many as there is time for
        t1 = time.time()
        sc = os.path.join(scratch, "round")
        os.makedirs(sc)
        args = ["--seed", str(a.seed + 1000 * rounds), "--tier", tier]
        if a.replay:
            args = ["--replay", a.replay]
        elif cases:
            # the behaviours of the models: all of them, or as many as can be replayed at once
            now = rnd.sample(cases, min(cap, len(cases))) if len(cases) > cap else cases
            cf = os.path.join(sc, "cases.ndjson")
            with open(cf, "w") as f:
                f.write("\n".join(now) + "\n")
            args += ["--cases", cf]
            if len(cases) > cap:
                done = set(now)
                cases = [c for c in cases if c not in done]
            else:
                cases = []
        files = run_harness(binary, pid, args, sc, shards)
        if model:
            msc = os.path.join(sc, "m")
            os.makedirs(msc, exist_ok=True)
            files += run_harness(model, pid, args, msc, shards)
        res = check_traces(p["trace"], files, sc)
        for f, g, d, rej, kn, n in res:
            gen += g
            dist += d
            total += n
            lines = open(f).read().splitlines()
            if len(lines) != n:
                raise ToolError("trace file has %d lines, TLC saw %d" % (len(lines), n))
            for x in rej:
                rejected.append(json.loads(lines[x - 1]))
            for x in kn:
                if len(known) < 1000 or rounds == 0:
                    known.append(json.loads(lines[x - 1]))
            for l in lines:
                m = re.search(r'"k":"([^"]*)"', l)
                k = m.group(1) if m else "call"
                srcs[k] = srcs.get(k, 0) + 1
            if len(samples) < 6:
                samples += sorted(lines, key=len)[len(lines) // 3:len(lines) // 3 + 1]
        shutil.rmtree(sc, ignore_errors=True)
        rounds += 1
        spent = max(spent, time.time() - t1)
        budget = float(os.environ.get("VERIF_BUDGET", "480" if tier == "thorough" else "90"))
        if a.replay or rejected or tier == "quick" and rounds == 3 or time.time() - t0 + 1.5 * spent > budget:
            break
    finds = known_findings(pid)
    if known and not finds:
        rejected += known
        known = []
    violations = len(rejected)
    if not a.replay:
        ev = dict(property=pid, tier=tier, seed=a.seed, level="model_checking",
                  coverage=dict(states=sum(r["distinct"] for r in mc) + dist,
                                transitions=sum(r["generated"] for r in mc) + gen,
                                traces_validated_against_impl=total,
                                samples=[json.loads(s) for s in samples],
                                models=mc, rounds=rounds, trace_kinds=srcs, known_deviation_traces=len(known),
                                what=p["what"]),
                  assumptions=p["assumptions"], wall_s=round(time.time() - t0, 2), violations=violations)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("property %s: %d traces of the real code checked against %s, %d rejected, %d known (%s) %.1fs" % (
        pid, total, p["trace"], violations, len(known), " ".join("%s=%d" % x for x in sorted(srcs.items())), time.time() - t0))
    if known:
        for x in finds:
            print("KNOWN-FINDING: property=%s %s" % (pid, x))
    if violations:
        rejected.sort(key=lambda r: len(json.dumps(r)))
        for r in rejected[:3]:
            print("rejected: " + json.dumps(r)[:1500])
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", "%s-%s-%d.ndjson" % (pid, tier, a.seed))
        if not a.replay:
            with open(rp, "w") as f:
                for r in rejected[:20]:
                    f.write(json.dumps(r) + "\n")
        else:
            rp = a.replay
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
