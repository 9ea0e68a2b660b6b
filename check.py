#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--list]

Builds the scenarios of one property from /repo's working tree, runs them under the
controlled-execution runtime (rt/) and, where listed, as sanitizer programs, and reports."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
sys.path.insert(0, os.path.join(V, "tools"))
import props  # noqa: E402
NPROC = os.cpu_count() or 4
RTFLAGS = ["-mmemcpy-strategy=rep_byte:-1:noalign", "-mmemset-strategy=rep_byte:-1:noalign", "-std=c++20", "-O2", "-g", "-fno-builtin", "-U_FORTIFY_SOURCE"]
SCFLAGS = ["-std=c++20", "-O1", "-foptimize-sibling-calls", "-g", "-U_FORTIFY_SOURCE", "-fsanitize=thread",
           "--param", "tsan-instrument-func-entry-exit=0", "-w"]
ASFLAGS = ["-std=c++20", "-O1", "-foptimize-sibling-calls", "-g", "-U_FORTIFY_SOURCE", "-fsanitize=address,undefined",
           "-fno-sanitize-recover=all", "-w"]


def die(msg, code=3):
    print("HARNESS-ERROR: " + msg)
    sys.stdout.flush()
    os._exit(code)


def tree_hash(root, exts=None):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()


def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_rt = {}


def rt_object():
    src = [os.path.join(V, "rt", f) for f in ("vrt.cpp", "vrt.h")]
    key = hashlib.sha256((fhash(*src) + repr(RTFLAGS)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "rt-" + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = run(["g++"] + RTFLAGS + ["-c", src[0], "-o", tmp])
        if r.returncode:
            die("runtime does not compile:\n" + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


def nrt_object(cxx, flags):
    """The native runtime (sanitizer programs), built with the same sanitizers."""
    src = [os.path.join(V, "rt", f) for f in ("nrt.cpp", "vrt.h")]
    key = hashlib.sha256((fhash(*src) + repr(flags) + cxx).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, "nrt-" + key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = run([cxx] + flags + ["-c", src[0], "-o", tmp])
        if r.returncode:
            die("native runtime does not compile:\n" + r.stdout[-3000:])
        os.rename(tmp, out)
    return out


class Rejected(Exception):
    """A scenario is not accepted by the compiler although the headers are."""

    def __init__(s, src, variant, text):
        super().__init__(src)
        s.src, s.variant, s.text = src, variant, text


def try_build(src, variant, inc_hash):
    try:
        return build(src, variant, inc_hash)
    except Rejected as e:
        return e


def build(src, variant, inc_hash):
    """variant: dict(name, flags, rt=True/False). Returns the path of the binary."""
    deps = [os.path.join(V, "sc", f) for f in sorted(os.listdir(os.path.join(V, "sc"))) if f.endswith(".h")] + \
           [os.path.join(V, "sc", src), os.path.join(V, "rt", "vrt.h")]
    nbase = variant.get("base", ASFLAGS)
    cxx = variant.get("cxx", "g++")
    flags = (SCFLAGS if variant["rt"] else nbase) + variant["flags"]
    key = hashlib.sha256((inc_hash + fhash(*deps) + repr(flags) + cxx).encode()).hexdigest()[:16]
    base = os.path.join(BUILD, "%s-%s-%s" % (src.replace(".cpp", ""), variant["name"], key))
    out = base + ("-" + (os.path.basename(rt_object())[3:11] if variant["rt"] else os.path.basename(nrt_object(cxx, nbase))[4:12]))
    if os.path.exists(out):
        return out
    o = base + ".%d.o" % os.getpid()
    cc = [cxx] + flags + ["-I" + os.path.join(REPO, "include"), "-c", os.path.join(V, "sc", src), "-o", o]
    r = run(cc)
    if r.returncode and "fallback" in variant:  # without the scenarios that go below the public interface
        print("note: %s (%s) built with %s" % (src, variant["name"], " ".join(variant["fallback"])))
        r = run(cc + variant["fallback"])
    if r.returncode:
        # A program which uses the interface in a way the tree used to accept is rejected now. That is a verdict about
        # the code only if the headers themselves are fine and the compiler really complained about the program.
        bare = base + ".%d.bare" % os.getpid()
        with open(bare + ".cpp", "w") as fh:
            for root, _, names in sorted(os.walk(os.path.join(REPO, "include"))):
                for n in sorted(names):
                    if n.endswith(".h"):
                        fh.write('#include "%s"\n' % os.path.join(root, n))
        rb = run([cxx] + flags + ["-I" + os.path.join(REPO, "include"), "-fsyntax-only", bare + ".cpp"])
        os.unlink(bare + ".cpp")
        r2 = run(cc)
        text = r2.stdout or ""
        if rb.returncode or not r2.returncode or "error: " not in text or "fatal error: " in text or "internal compiler error" in text:
            die("%s (%s) does not compile against the current tree:\n%s" % (src, variant["name"], r.stdout[-4000:]))
        raise Rejected(src, variant["name"], text)
    tmp = out + ".%d.tmp" % os.getpid()
    if variant["rt"]:
        link = ["g++", "-no-pie", "-rdynamic", o, rt_object(), "-ldl", "-pthread", "-o", tmp]
    else:
        link = [cxx] + [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")] + ["-no-pie", o, nrt_object(cxx, nbase), "-pthread", "-o", tmp]
    r = run(link)
    if r.returncode:
        die("link of %s failed:\n%s" % (src, r.stdout[-3000:]))
    os.rename(tmp, out)
    os.unlink(o)
    return out


def symbolise(binary, addrs):
    if not addrs:
        return {}
    try:
        r = run(["addr2line", "-Cfpse", binary] + addrs, timeout=60)
    except Exception:
        return {}
    return dict(zip(addrs, [l.strip() for l in r.stdout.splitlines()]))


def load_known():
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return known


SANRE = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|[^\n]*Assertion [^\n]* failed|terminate called[^\n]*)")


class Job:
    def __init__(s, binary, variant, scenario, start, count, base, wall, rt, samples):
        s.binary, s.variant, s.scenario, s.start, s.count, s.base = binary, variant, scenario, start, count, base
        s.wall, s.rt, s.samples = wall, rt, samples


ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp", "LANG": "C",
       "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:detect_leaks=0:handle_abort=1:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=77"}


def exec_once(j, tmpdir, tag, start=None, count=None):
    out = os.path.join(tmpdir, tag + ".json")
    sig = os.path.join(tmpdir, tag + ".sig")
    for p in (out, sig):
        if os.path.exists(p):
            os.unlink(p)
    cmd = [j.binary, "--scenario", j.scenario, "--base", str(j.base), "--start", str(j.start if start is None else start),
           "--count", str(j.count if count is None else count), "--samples", str(j.samples), "--wall", str(j.wall), "--out", out, "--sigs", sig]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=j.wall + 60, stdin=subprocess.DEVNULL)
        rc, txt = r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, txt = -99, (e.stdout or b"").decode("utf8", "replace")
    recs = []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    sigs = b""
    if os.path.exists(sig):
        sigs = open(sig, "rb").read()
    return rc, txt, recs, sigs


def classify(j, rc, txt, recs):
    """-> (status, failrecord). status: ok | fail | wall | error"""
    fails = [r for r in recs if r["type"] == "fail"]
    if rc == 0:
        return "ok", None
    if rc == 10 and fails:
        if fails[0]["kind"] == "sanitizer":
            m = SANRE.search(txt)
            fails[0]["msg"] = m.group(1).strip() if m else "sanitizer report"
            fails[0]["log"] += "\n" + txt[-5000:]
        return "fail", fails[0]
    if rc == 11 or rc == -99:
        f = fails[0] if fails else {"kind": "hang", "msg": "no progress within %d s" % j.wall, "index": j.start, "seed": None, "bt": [], "log": ""}
        return "wall", f
    if rc == 90:
        return "fail", {"kind": "runaway-allocation", "msg": "an execution allocated without bound", "index": None, "seed": None, "bt": [], "log": txt[-2000:]}
    if not j.rt and rc not in (95, 96, 97, 127, 126):
        m = SANRE.search(txt)
        kind = "sanitizer" if m else "crash"
        return "fail", {"kind": kind, "msg": (m.group(1).strip() if m else "exit status %d" % rc), "index": None, "seed": None, "bt": [], "log": txt[-6000:]}
    return "error", {"kind": "error", "msg": "exit status %d: %s" % (rc, txt[-500:])}


def fail_key(prop, j, f):
    msg = re.sub(r"0x[0-9a-f]+|@[0-9a-f]+|\b[0-9]+\b", "#", f["msg"])
    return "%s/%s/%s" % (j.scenario, f["kind"], hashlib.sha1(msg.encode()).hexdigest()[:8])


def run_job(args):
    j, tmpdir, tag = args
    rc, txt, recs, sigs = exec_once(j, tmpdir, tag)
    st, f = classify(j, rc, txt, recs)
    if st in ("wall", "error"):
        # once more, alone in its own process
        rc, txt, recs, sigs = exec_once(j, tmpdir, tag + "r")
        st, f = classify(j, rc, txt, recs)
    return j, st, f, recs, sigs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    if prop not in props.PROPS:
        die("unknown property " + prop)
    spec = props.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    inc_hash = tree_hash(os.path.join(REPO, "include"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        rp = json.load(open(a.replay))
        var = props.VARIANTS[rp["variant"]]
        b = try_build(rp["source"], var, inc_hash)
        if isinstance(b, Rejected):
            print(b.text)
            sys.exit(1)
        if rp["kind"] == "interface":
            sys.exit(0)
        cmd = [b, "--scenario", rp["scenario"], "--wall", "600"] + (["--seed", str(rp["seed"])] if rp.get("seed") is not None else ["--base", str(rp["base"]), "--start", str(rp["start"]), "--count", str(rp["count"])])
        print(" ".join(cmd))
        r = subprocess.run(cmd, env=ENV)
        print("exit", r.returncode)
        sys.exit(1 if r.returncode else 0)
    # ---- build
    todo = []  # (src, variant, scenario, count)
    for g in spec["groups"]:
        for var in g["variants"]:
            if var.get("tier") == "thorough" and tier != "thorough":
                continue
            todo.append((g, var))
    rt_object()
    uniq = {}
    for g, var in todo:
        uniq[(g["src"], var["name"])] = props.VARIANTS[var["name"]]
    with ThreadPoolExecutor(NPROC) as ex:
        bins = dict(zip(uniq, ex.map(lambda k: try_build(k[0], uniq[k], inc_hash), uniq)))
    rejected = [b for b in bins.values() if isinstance(b, Rejected)]
    tb = time.time()
    # ---- jobs
    jobs = []
    for g, var in todo:
        vd = props.VARIANTS[var["name"]]
        for sc, cnt in g["scenarios"].items():
            if (a.only and sc != a.only) or isinstance(bins[(g["src"], var["name"])], Rejected):
                continue
            n = max(1, int(cnt * var.get("share", 1.0) * a.scale * spec.get("quick_factor", 14) * (spec.get("thorough_factor", 20) if tier == "thorough" else 1)))
            chunks = min(n, NPROC if tier == "quick" else NPROC * 4)
            per = (n + chunks - 1) // chunks
            base = (a.seed * 1000003 + int(hashlib.sha1((prop + var["name"]).encode()).hexdigest()[:6], 16)) & 0x7fffffffffff
            s = 0
            while s < n:
                j = Job(bins[(g["src"], var["name"])], var["name"], sc, s, min(per, n - s), base, 120 if tier == "quick" else 3000, vd["rt"], 1 if s == 0 else 0)
                j.src = g["src"]
                jobs.append(j)
                s += per
    jobs.sort(key=lambda j: j.start)
    tmpdir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmpdir, exist_ok=True)
    known = [k for k in load_known() if k["property"] == prop]
    stats, counters, samples, fails, errors = {}, {}, [], [], []
    sigset = {}
    perscen = {}
    knownhit = {}
    try:
        with ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(run_job, (j, tmpdir, "j%d" % i)) for i, j in enumerate(jobs)]
            for fu in futs:
                if fu.cancelled():
                    continue
                j, st, f, recs, sigs = fu.result()
                while True:
                    for r in recs:
                        if r["type"] == "stats":
                            for k, v in r.items():
                                if isinstance(v, int):
                                    stats[k] = stats.get(k, 0) + v
                            ps = perscen.setdefault("%s/%s" % (j.variant, j.scenario), {})
                            for k in ("executions", "nontrivial"):
                                ps[k] = ps.get(k, 0) + r.get(k, 0)
                            for k, v in r.get("counters", {}).items():
                                counters[k] = counters.get(k, 0) + v
                        elif r["type"] == "sample" and len(samples) < 24:
                            samples.append({"scenario": r["scenario"], "variant": j.variant, "seed": r.get("seed"), "log": r.get("log", "")[:1500]})
                    ss = sigset.setdefault((j.variant, j.scenario), set())
                    for i in range(0, len(sigs), 8):
                        ss.add(sigs[i:i + 8])
                    if st == "fail" and f.get("index") is not None:
                        key = fail_key(prop, j, f)
                        hit = [k for k in known if k["key"] == key]
                        nxt = f["index"] + 1
                        if hit and nxt < j.start + j.count:
                            knownhit[key] = hit[0]["what"]
                            j2 = Job(j.binary, j.variant, j.scenario, nxt, j.start + j.count - nxt, j.base, j.wall, j.rt, 0)
                            j2.src = j.src
                            j, st, f, recs, sigs = run_job((j2, tmpdir, "k"))
                            continue
                        if hit:
                            knownhit[key] = hit[0]["what"]
                            st = "ok"
                    break
                if st in ("fail", "wall"):
                    fails.append((j, st, f))
                    if len(fails) >= 8:
                        for x in futs:
                            x.cancel()
                elif st == "error":
                    errors.append((j, f))
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)
    for key, what in knownhit.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, key))
    # ---- violations
    nviol = 0
    seen = set()
    for e in rejected:
        errs = [l for l in e.text.splitlines() if "error: " in l]
        if e.src in seen:
            continue
        seen.add(e.src)
        nviol += 1
        rdir = os.path.join(BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-interface-%s-%s.json" % (prop, e.src, e.variant))
        json.dump({"property": prop, "source": e.src, "variant": e.variant, "kind": "interface", "message": errs[:5], "log": e.text[-20000:]}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s (%s): interface: the headers compile, but a program using them as the property promises does not any more:" % (e.src, e.variant))
        for l in errs[:3]:
            print("    " + l[:400])
    for j, st, f in fails:
        key = fail_key(prop, j, f)
        if key in seen:
            continue
        seen.add(key)
        if any(k["key"] == key for k in known):
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, [k["what"] for k in known if k["key"] == key][0], key))
            continue
        nviol += 1
        addrs = list(dict.fromkeys(re.findall(r"@([0-9a-f]{5,})", f["msg"]) + list(f.get("bt", []))))
        sym = symbolise(j.binary, addrs)
        rdir = os.path.join(BUILD, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s-%s.json" % (prop, j.scenario, j.variant, hashlib.sha1(key.encode()).hexdigest()[:8]))
        json.dump({"property": prop, "source": j.src, "variant": j.variant, "scenario": j.scenario, "seed": f.get("seed"), "base": j.base, "start": j.start,
                   "count": j.count, "kind": f["kind"], "message": f["msg"], "key": key, "where": {k: v for k, v in sym.items()}, "log": f.get("log", "")},
                  open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  scenario %s (%s), seed %s: %s: %s" % (j.scenario, j.variant, f.get("seed"), f["kind"], f["msg"][:600]))
        for x in addrs[:14]:
            if sym.get(x) and "vrt.cpp" not in sym[x] and not sym[x].startswith("??"):
                print("    @%s %s" % (x, sym[x][:200]))
        if f.get("log"):
            print("    log: " + f["log"][-1800:].replace("\n", "\n         "))
    distinct = sum(len(s) for s in sigset.values())
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": stats.get("executions", 0), "distinct_nontrivial": distinct, "rule": spec["rule"], "samples": samples,
                       "observed": counters, "per_scenario": perscen, "known_findings": sorted(knownhit),
                       "runtime": {k: stats.get(k, 0) for k in ("steps", "switches", "points", "plain", "atomics", "sync_ops", "weak_failures", "stale_reads", "spurious_wakeups", "time_leaps", "threads")}},
          "assumptions": props.ASSUMPTIONS + spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol}
    tmp = os.path.join(V, "evidence", prop + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(V, "evidence", prop + ".json"))
    print("%s tier=%s seed=%d: %d executions, %d distinct non-trivial, %d violation(s), build %.1fs total %.1fs" % (
        prop, tier, a.seed, stats.get("executions", 0), distinct, nviol, tb - t0, time.time() - t0))
    if nviol:
        sys.exit(1)
    if errors:
        die("; ".join("%s/%s: %s" % (j.variant, j.scenario, f["msg"][:300]) for j, f in errors[:3]))
    if not a.only and (distinct == 0 or any(v.get("nontrivial", 0) == 0 for v in perscen.values())):
        die("inconclusive: a scenario observed nothing non-trivial: %s" % perscen)
    sys.exit(0)


if __name__ == "__main__":
    main()
