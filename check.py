#!/usr/bin/env python3
"""Builds the model checking engines from /repo's working tree and decides one property.

  check.py P01 [quick|thorough]      decide the property
  check.py --setup                   build everything
  check.py --replay FILE             replay one recorded schedule verbosely
"""
import concurrent.futures as cf
import glob, hashlib, json, os, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
OUT = BUILD if "VERIF_BUILD" in os.environ else VERIF  # replays and evidence
sys.path.insert(0, os.path.join(VERIF, "tools"))
from engines import ENGINES, PROPERTIES  # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")


def sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


def read(f):
    with open(f, "rb") as fh:
        return fh.read()


def tree_digest(dirs):
    files = []
    for d in dirs:
        for root, dn, fn in os.walk(d):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".hxx", ".ipp", ".inc")):
                    files.append(os.path.join(root, f))
    return sha(*[f + ":" + sha(read(f)) for f in sorted(files)])


class BuildError(Exception):
    pass


def build(names):
    """builds the engines, objects are keyed by the content of everything they depend on"""
    hdr = tree_digest([REPO + "/include", REPO + "/src", VERIF + "/thr/shim"])
    ownhdr = tree_digest([VERIF + "/gen", VERIF + "/mc", VERIF + "/thr", VERIF + "/bw"] + [os.path.join(VERIF, d) for d in sorted({os.path.dirname(x) for e in ENGINES.values() for x in e["src"]})])
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    jobs, links = [], []
    for n in names:
        e = ENGINES[n]
        objs = []
        srcs = []
        for pat in e["lib"]:
            srcs += [(s, "lib") for s in sorted(glob.glob(os.path.join(REPO, pat)))]
        for pat in e["src"]:
            srcs += [(s, "own") for s in sorted(glob.glob(os.path.join(VERIF, pat)))]
        for pat in e.get("raw", []):
            srcs += [(s, "raw") for s in sorted(glob.glob(os.path.join(VERIF, pat)))]
        for s, kind in srcs:
            flags = e["flags"] + (e.get("libflags", "") if kind == "lib" else e.get("ownflags", "") + (e.get("ownonly", "") if kind == "own" else ""))
            cxx = "g++" if kind == "raw" else e.get("cxx", "g++")
            flags = flags.replace("@VERIF@", VERIF).replace("@REPO@", REPO)
            key = sha(read(s), hdr, "" if kind == "lib" else ownhdr, flags, s, cxx)
            o = os.path.join(odir, "%s-%s.o" % (os.path.basename(s).rsplit(".", 1)[0], key))
            objs.append(o)
            if os.path.exists(o):
                os.utime(o)
            elif all(j[2] != o for j in jobs):
                jobs.append((s, flags, o, cxx))
        exe = os.path.join(BUILD, n + "-" + sha(e["link"], *objs))
        links.append((n, exe, objs, e["link"].replace("@VERIF@", VERIF)))

    def compile_(j):
        s, flags, o, cxx = j
        tmp = "%s.%d.tmp" % (o, os.getpid())
        r = subprocess.run([cxx] + shlex.split(flags) + ["-c", s, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "compiling %s failed:\n%s" % (s, r.stdout[-6000:])
        os.replace(tmp, o)
        return None

    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**7 if j[0].startswith(VERIF) else 0))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for err in ex.map(compile_, jobs):
            if err:
                raise BuildError(err)
    out = {}
    for n, exe, objs, lf in links:
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(BUILD, n + "-" + 16 * "?")):
                os.unlink(old)
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            r = subprocess.run(["g++", "-o", tmp] + objs + shlex.split(lf), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (n, r.stdout[-6000:]))
            os.replace(tmp, exe)
            for old in glob.glob(os.path.join(odir, "*.o")):
                if os.path.getmtime(old) < time.time() - 3 * 3600:
                    os.unlink(old)
        out[n] = exe
    return out


ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=1:abort_on_error=0:allocator_may_return_null=1:handle_abort=0:exitcode=99"}


def main():
    a = sys.argv[1:]
    env = dict(os.environ)
    env.update(ENV)
    if a and a[0] == "--setup":
        t = time.time()
        try:
            build(sorted(ENGINES))
        except BuildError as e:
            print(e)
            return 2
        print("built %s in %.1f s" % (", ".join(sorted(ENGINES)), time.time() - t))
        return 0
    if a and a[0] == "--replay":
        eng = open(a[1]).read().split()[1]
        try:
            exe = build([eng])[eng]
        except BuildError as e:
            print(e)
            return 2
        return subprocess.call([exe, "--replay", a[1]], env=env)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = PROPERTIES[prop]
    names = spec["engines"]
    try:
        exes = build(names)
    except BuildError as e:
        print(e)
        return 2
    tb = time.time() - t0
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    rc = 0
    results, samples, known = [], [], []
    budget = spec.get("budget", {}).get(tier, 150 if tier == "quick" else 1800)
    t1 = time.time()
    for i, n in enumerate(names):
        out = os.path.join(BUILD, "out-%s-%s.json" % (prop, n))
        if os.path.exists(out):
            os.unlink(out)
        left = max(10, (budget - (time.time() - t1)) / (len(names) - i))
        cmd = [exes[n], "--prop", prop, "--tier", tier, "--time", "%.0f" % left, "--out", out, "--replaydir", rdir, "--known", KNOWN]
        if tier == "quick" and n in spec.get("deeper", ()):
            cmd += ["--deeper", "1"]
        cmd += a[2:]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, errors="replace", env=env)
        for line in p.stdout:
            if not line.startswith("SAMPLE "):
                sys.stdout.write(line)
                sys.stdout.flush()
            if line.startswith("KNOWN-FINDING"):
                known.append(line.strip())
            if line.startswith("SAMPLE "):
                samples.append(line[7:].strip())
        p.wait()
        if p.returncode == 1:
            rc = 1
        elif p.returncode and rc == 0:
            rc = 2
        if os.path.exists(out):
            results.append(json.load(open(out)))
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["executions"] for r in results),
            "samples": samples[:12] or ["none"],
            "exhaustive": all(r["exhaustive"] for r in results) and len(results) == len(names),
            "bounds": "; ".join("%s: at most %d deviations from the default schedule per execution planned, %d completed for every configuration"
                                % (r["engine"], r["bound"], r["bound_completed"]) for r in results),
            "engines": results,
            "distinct_outcomes": sum(r["outcomes"] for r in results),
            "note": "executions are run on the real implementation (stateless search), so every explored execution is a trace of the implementation; "
                    "states = distinct fingerprints of (choice point, observation history)",
            "known_findings": known,
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(r["violations"] for r in results),
    }
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %s, build %.1f s, total %.1f s" % (prop, tier, {0: "held on everything explored", 1: "VIOLATED"}.get(rc, "error"), tb, time.time() - t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
