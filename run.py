#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  run.py <ID> [--tier quick|thorough] [--seed N]
  run.py replay <file>       re-runs a recorded failure (exit 1 if it still fails)

Builds the property's harness (props/<ID>/*.cpp, plus generated sources) from /repo's
headers, runs it in 8 shards, writes evidence/<ID>.json. Exit 0: held on everything explored;
exit 1 with a line `VIOLATION property=<ID> replay=<path>` otherwise.
"""
import concurrent.futures as cf
import glob, hashlib, importlib.util, json, os, shutil, struct, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WAVE_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
JOBS = os.cpu_count() or 8
SHARDS = 8
INC = ["-I" + os.path.join(ROOT, "lib"), "-I" + REPO + "/include",
       "-I" + REPO + "/3rd-party/Tick", "-isystem", "/usr/include/eigen3"]
BASE = ["-std=c++17", "-w", "-ftemplate-depth=2000"]


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\n(timed out)"


def load_config(pid):
    """props/<ID>/check.py may define CONFIG (dict) and generate(seed, tier, outdir), run(ctx)"""
    d = os.path.join(ROOT, "props", pid)
    cfg = {"compiler": "g++", "flags": ["-O1"], "cases": 400000, "seconds": 8,
           "rule": "", "env": {}, "link": []}
    mod = None
    f = os.path.join(d, "check.py")
    if os.path.exists(f):
        sys.path.insert(0, os.path.join(ROOT, "lib"))
        spec = importlib.util.spec_from_file_location("check_" + pid, f)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        cfg.update(getattr(mod, "CONFIG", {}))
    return d, cfg, mod


class Violation(Exception):
    def __init__(self, replay, text):
        self.replay, self.text = replay, text


def save_replay(pid, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(REPLAYS, "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


COMPILERS = threading.Semaphore(JOBS)


def compile_one(cmd):
    with COMPILERS:
        rc, out = sh(cmd, timeout=800)
    return rc, out


def first_errors(out, n=12):
    ls = [l for l in out.splitlines() if "error" in l or "static assert" in l]
    return "\n".join(ls[:n]) or out[-2000:]


def build(pid, cfg, sources, bdir, extra=(), name="harness"):
    """returns path of the binary; raises Violation if a harness no longer compiles"""
    os.makedirs(bdir, exist_ok=True)
    cc = [cfg["compiler"]] + BASE + list(cfg["flags"]) + list(extra) + INC + ["-I" + os.path.join(ROOT, "props", pid)]
    main = os.path.join(ROOT, "lib", "main.cpp")
    jobs = []
    for s in [main] + list(sources):
        o = os.path.join(bdir, name + "_" + os.path.basename(s) + ".o")
        jobs.append((s, o, cc + ["-c", s, "-o", o]))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    objs, bad = [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (s, o, cmd), (rc, out) in zip(jobs, ex.map(lambda j: compile_one(j[2]), jobs)):
            objs.append(o)
            if rc != 0:
                bad.append((s, o, cmd))
    if os.environ.get("SHOW_BAD"): log("not compiling:", [b[0] for b in bad])
    for s, o, cmd in bad:      # once more, alone: a compiler ended for lack of memory is not a verdict
        rc, out = compile_one(cmd)
        if rc == 0:
            continue
        if s == main:
            log("cannot compile the driver:", out[-3000:])
            sys.exit(2)
        src = open(s).read()
        raise Violation(save_replay(pid, {"property": pid, "kind": "compile", "source": os.path.basename(s),
                                          "text": src, "flags": list(cfg["flags"]) + list(extra),
                                          "compiler": cfg["compiler"], "errors": first_errors(out, 40)}),
                        "the harness %s, which uses the library's public interface, does not compile:\n%s"
                        % (os.path.basename(s), first_errors(out)))
    exe = os.path.join(bdir, name)
    rc, out = sh(cc + objs + ["-o", exe] + list(cfg["link"]))
    if rc != 0:
        raise Violation(save_replay(pid, {"property": pid, "kind": "link", "errors": out[-4000:]}),
                        "the harness does not link:\n" + out[-2000:])
    return exe


def env_for(cfg):
    e = dict(os.environ)
    e.setdefault("ASAN_OPTIONS", "detect_stack_use_after_return=1:abort_on_error=1:detect_leaks=0:allocator_may_return_null=1")
    e.setdefault("UBSAN_OPTIONS", "halt_on_error=1:print_stacktrace=1")
    e.update(cfg["env"])
    return e


def write_choices(path, facet, choices):
    with open(path, "w") as f:
        f.write(facet + "\n" + " ".join(map(str, choices)) + "\n")


def read_progress(path):
    try:
        b = open(path, "rb").read()
        facet, index, n = struct.unpack_from("<QQQ", b, 0)
        if facet == 2 ** 64 - 1:
            return None
        return facet, list(struct.unpack_from("<%dQ" % min(n, 1 << 14), b, 24))
    except Exception:
        return None


def replay_once(exe, facet, choices, bdir, cfg):
    f = os.path.join(bdir, "replay.txt")
    write_choices(f, facet, choices)
    rc, out = sh([exe, "replay", "--replay", f], timeout=120, env=env_for(cfg))
    return rc, out


def confirm(pid, exe, facet, choices, bdir, cfg, msg, case):
    """replays a failure; raises Violation if it reproduces, else reports it as not reproducible"""
    outs = [replay_once(exe, facet, choices, bdir, cfg) for _ in range(3)]
    rec = {"property": pid, "kind": "case", "seed": cfg.get("_seed", 1), "tier": cfg.get("_tier", "quick"), "facet": facet, "choices": choices, "message": msg, "case": case,
           "output": outs[0][1][-4000:]}
    if cfg.get("_variant"): rec["variant"] = cfg["_variant"]
    n = sum(1 for rc, _ in outs if rc not in (0, 3))
    rec["reproduced"] = "%d of 3" % n
    if n == 0:
        # the outcome depends on more than the recorded choices (e.g. state carried between cases,
        # or uninitialised memory); what was observed is still a violation
        rec["note"] = "observed in a run, but not on an isolated replay"
    raise Violation(save_replay(pid, rec), "facet %s: %s\n  case: %s\n  replayed: %s"
                    % (facet, msg, case, rec["reproduced"]))


def run_shards(pid, exe, bdir, cfg, seed, seconds, cases):
    env = env_for(cfg)
    procs = []
    for i in range(SHARDS):
        out = os.path.join(bdir, "out%d.json" % i)
        if os.path.exists(out):
            os.remove(out)
        err = open(os.path.join(bdir, "err%d.txt" % i), "wb")
        procs.append((i, out, err, subprocess.Popen(
            [exe, "run", "--seed", str(seed), "--cases", str(cases), "--shard", str(i), "--shards", str(SHARDS),
             "--out", out, "--max-seconds", str(seconds)], stdout=err, stderr=err, env=env)))
    deadline = time.time() + seconds * 4 + 90
    res = []
    for i, out, err, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            rc = "hang"
        res.append(rc)
    for i, out, err, p in procs:
        if p.poll() is None:
            p.kill(); p.wait()
    names = [l.rsplit(" ", 1)[0] for l in sh([exe, "list"], env=env)[1].splitlines()]
    merged = {}
    failure = None
    for (i, out, err, p), rc in zip(procs, res):
        err.close()
        if rc in (0, 1) and os.path.exists(out):
            for f in json.load(open(out))["facets"]:
                m = merged.setdefault(f["name"], {"evaluations": 0, "nontrivial": 0, "discarded": 0, "labels": {},
                                                  "samples": [], "seconds": 0, "timed_out": False})
                for k in ("evaluations", "nontrivial", "discarded", "seconds"):
                    m[k] += f[k]
                for k, v in f["labels"].items():
                    m["labels"][k] = m["labels"].get(k, 0) + v
                m["samples"] += f["samples"][:1]
                if f["failed"] and failure is None:
                    failure = f
        else:
            pr = read_progress(out + ".progress")
            text = open(os.path.join(bdir, "err%d.txt" % i), errors="replace").read()
            if pr is None:
                raise Violation(save_replay(pid, {"property": pid, "kind": "crash", "status": str(rc), "output": text[-4000:]}),
                                "the harness process ended abnormally (%s) outside a case:\n%s" % (rc, text[-1500:]))
            facet, choices = names[pr[0]], pr[1]
            src = os.path.join(bdir, "crash.txt"); dst = os.path.join(bdir, "crash_min.txt")
            write_choices(src, facet, choices)
            rc2, o = sh([exe, "shrink", "--replay", src, "--out", dst], timeout=300, env=env)
            if rc2 == 1 and os.path.exists(dst):
                choices = [int(x) for x in open(dst).read().splitlines()[1].split()]
            elif rc == "hang":
                # not reproducible alone: the machine was slow, not the code
                log("note: shard %d was stopped for time, but the case it was running finishes when run alone" % i)
                continue
            head = [l for l in text.splitlines() if "ERROR" in l or "error" in l or "Assert" in l or "assert" in l]
            confirm(pid, exe, facet, choices, bdir, cfg,
                    "the case %s (status %s): %s" % ("did not end" if rc == "hang" else "crashed", rc, " | ".join(head[:3])), "")
    if failure:
        confirm(pid, exe, failure["name"], failure["choices"], bdir, cfg, failure["message"], failure["case"])
    return merged


def variant(cfg, v):
    return dict(cfg, compiler=v["compiler"], flags=v["flags"], _variant=v["name"])


def run_variants(pid, cfg, sources, generated, bdir, seed):
    """the same check under several build configurations; generated: name -> further sources"""
    t0 = time.time()
    vs = cfg["variants"]
    with cf.ThreadPoolExecutor(len(vs)) as ex:
        jobs = [ex.submit(build, pid, variant(cfg, v), sources + generated.get(v["name"], []), os.path.join(bdir, v["name"])) for v in vs]
        exes = [j.result() for j in jobs]
    log("%s: %d configurations built in %.1f s" % (pid, len(vs), time.time() - t0))
    merged = {}
    for v, exe in zip(vs, exes):
        m = run_shards(pid, exe, os.path.join(bdir, v["name"]), variant(cfg, v), seed, cfg["seconds"], cfg["cases"])
        for k, f in m.items():
            merged[v["name"] + ": " + k] = f
    return merged


def known_findings(pid):
    f = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property=%s " % pid):
                out.append(l.strip()[len("finding: "):])
    return out


def write_evidence(pid, tier, seed, cov, wall, viol, assumptions):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    rec = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": assumptions, "wall_s": round(wall, 2), "violations": viol}
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1)


def coverage_of(merged, cfg, extra):
    samples = []
    for n, m in merged.items():
        for s in m["samples"][:1]:
            if s.strip():
                samples.append(n + ": " + s)
    cov = {"evaluations": sum(m["evaluations"] for m in merged.values()),
           "distinct_nontrivial": sum(m["nontrivial"] for m in merged.values()),
           "discarded": sum(m["discarded"] for m in merged.values()),
           "rule": cfg["rule"],
           "samples": samples[:40],
           "facets": {n: {k: m[k] for k in ("evaluations", "nontrivial", "labels")} for n, m in merged.items()}}
    cov.update(extra)
    return cov


def fuzz(pid, cfg, sources, bdir, seconds, cov):
    """thorough tier: the same facets under libFuzzer, coverage-guided"""
    fcfg = dict(cfg, compiler="clang++", flags=["-O1", "-g1", "-DPBT_FUZZ", "-fsanitize=fuzzer,address,undefined",
                                               "-fno-sanitize-recover=all", "-fno-sanitize=alignment"])
    exe = build(pid, fcfg, sources, bdir, name="fuzz")
    env = env_for(cfg)
    procs = []
    for i in range(SHARDS):
        c = os.path.join(bdir, "corpus%d" % i)
        os.makedirs(c, exist_ok=True)
        e = dict(env, PBT_FUZZ_OUT=os.path.join(bdir, "fuzzfail%d.txt" % i))
        e["ASAN_OPTIONS"] = "detect_leaks=0"
        lf = open(os.path.join(bdir, "fuzzlog%d.txt" % i), "wb")
        procs.append((i, lf, subprocess.Popen([exe, c, "-max_total_time=%d" % seconds, "-seed=%d" % (i + 1), "-max_len=2000",
                                               "-rss_limit_mb=3500", "-artifact_prefix=" + os.path.join(bdir, "art%d_" % i)],
                                              stdout=lf, stderr=lf, env=e, cwd=bdir)))
    runs = 0
    for i, lf, p in procs:
        rc = p.wait()
        lf.close()
        text = open(os.path.join(bdir, "fuzzlog%d.txt" % i), errors="replace").read()
        for l in text.splitlines():
            if l.startswith("#"):
                last = l
        import re
        ns = re.findall(r"^#(\d+)", text, re.M)
        if ns:
            runs += int(ns[-1])
        if rc != 0:
            ff = os.path.join(bdir, "fuzzfail%d.txt" % i)
            if os.path.exists(ff):
                ls = open(ff).read().splitlines()
                choices = [int(x) for x in ls[-1].split()]
                hexe = os.path.join(bdir, "harness")
                src = os.path.join(bdir, "ff.txt"); dst = os.path.join(bdir, "ff_min.txt")
                write_choices(src, ls[0], choices)
                rc2, o = sh([hexe, "shrink", "--replay", src, "--out", dst], timeout=300, env=env)
                if rc2 == 1 and os.path.exists(dst):
                    choices = [int(x) for x in open(dst).read().splitlines()[1].split()]
                    confirm(pid, hexe, ls[0], choices, bdir, cfg, "\n".join(ls[1:-1]), "")
            raise Violation(save_replay(pid, {"property": pid, "kind": "fuzz", "output": text[-6000:]}),
                            "libFuzzer stopped: " + text[-1500:])
    cov["libfuzzer_executions"] = runs
    cov["evaluations"] += runs


def check(pid, tier, seed):
    t0 = time.time()
    d, cfg, mod = load_config(pid)
    cfg["_seed"], cfg["_tier"] = seed, tier
    if tier == "thorough":
        cfg["seconds"] = cfg.get("thorough_seconds", 240)
        cfg["cases"] = cfg.get("thorough_cases", cfg["cases"] * 200)
    bdir = os.path.join(BUILD, pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    extra, merged, cov = {}, {}, None
    ctx = dict(pid=pid, tier=tier, seed=seed, bdir=bdir, cfg=cfg, repo=REPO, inc=INC, base=BASE, jobs=JOBS,
               Violation=Violation, save_replay=save_replay, sh=sh, log=log, first_errors=first_errors)
    try:
        sources = sorted(glob.glob(os.path.join(d, "*.cpp")))
        if mod and hasattr(mod, "generate"):
            g, info = mod.generate(seed, tier, bdir)
            if isinstance(g, dict): generated = g
            else: sources += g
            extra.update(info)
        if cfg.get("variants"):
            merged = run_variants(pid, cfg, sources, generated, bdir, seed)
        elif sources:
            exe = build(pid, cfg, sources, bdir)
            t1 = time.time()
            log("%s: built in %.1f s" % (pid, t1 - t0))
            merged = run_shards(pid, exe, bdir, cfg, seed, cfg["seconds"], cfg["cases"])
        cov = coverage_of(merged, cfg, extra)
        if mod and hasattr(mod, "run"):
            more = mod.run(ctx)
            for k, v in more.items():
                if isinstance(v, int) and isinstance(cov.get(k), int):
                    cov[k] += v
                elif isinstance(v, list) and isinstance(cov.get(k), list):
                    cov[k] = cov[k] + v
                elif k == "rule" and cov.get("rule"):
                    pass
                else:
                    cov[k] = v
        if tier == "thorough" and sources and cfg.get("fuzz", True):
            fuzz(pid, cfg, sources, bdir, cfg.get("fuzz_seconds", 300), cov)
    except Violation as v:
        cov = cov or coverage_of(merged, cfg, extra)
        cov.setdefault("samples", [])
        write_evidence(pid, tier, seed, cov, time.time() - t0, 1, cfg.get("assumptions", []))
        log(v.text[:6000])
        log("VIOLATION property=%s replay=%s" % (pid, v.replay))
        return 1
    for k in known_findings(pid):
        log("KNOWN-FINDING: " + k)
    write_evidence(pid, tier, seed, cov, time.time() - t0, 0, cfg.get("assumptions", []))
    log("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    if not os.environ.get("KEEP_BUILD"):
        shutil.rmtree(bdir, ignore_errors=True)
    return 0


def replay(path):
    rec = json.load(open(path))
    pid = rec["property"]
    d, cfg, mod = load_config(pid)
    bdir = os.path.join(BUILD, "replay_" + pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    if rec["kind"] == "compile":
        s = os.path.join(bdir, rec["source"])
        open(s, "w").write(rec["text"])
        rc, out = sh([rec["compiler"]] + BASE + rec["flags"] + INC + ["-I" + d, "-c", s, "-o", "/dev/null"])
        log(first_errors(out) if rc else "compiles")
        return 1 if rc else 0
    if rec["kind"] == "case":
        sources = sorted(glob.glob(os.path.join(d, "*.cpp")))
        if mod and hasattr(mod, "generate"):
            g = mod.generate(rec.get("seed", int(os.environ.get("VERIF_SEED", "1"))), rec.get("tier", "quick"), bdir)[0]
            sources += g.get(rec.get("variant"), []) if isinstance(g, dict) else g
        if rec.get("variant"):
            cfg = variant(cfg, [v for v in cfg["variants"] if v["name"] == rec["variant"]][0])
        try:
            exe = build(pid, cfg, sources, bdir)
        except Violation as v:
            log(v.text); return 1
        rc, out = replay_once(exe, rec["facet"], rec["choices"], bdir, cfg)
        log(out)
        return 1 if rc else 0
    if mod and hasattr(mod, "replay"):
        return mod.replay(rec)
    log(json.dumps(rec, indent=1))
    return 1


def setup():
    """nothing has to be built in advance (every check builds from /repo itself): checks the toolchain"""
    os.makedirs(BUILD, exist_ok=True)
    rc, out = sh(["g++"] + BASE + INC + ["-c", os.path.join(ROOT, "lib", "main.cpp"), "-o", os.path.join(BUILD, "setup.o")])
    log(out, "toolchain ok" if rc == 0 else "toolchain broken")
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "setup":
        sys.exit(setup())
    pid, tier, seed = a[0], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    sys.exit(check(pid, tier, seed))


if __name__ == "__main__":
    main()
