#!/usr/bin/env python3
"""Build and run one check against /repo's working tree.

  run.py C01                  quick tier
  run.py C01 --thorough       deep tier
  run.py C01 --replay FILE    re-execute a recorded violation
  run.py --setup              verify the tool chain, nothing else is needed

Exit 0: property held on everything explored; 1: VIOLATION line printed; 2: error of the check.
"""
import json, os, subprocess, sys, time, glob, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
CXX = os.environ.get("CXX", "g++")

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BASE = ["-std=c++11", "-O2", "-g1", "-DNDEBUG", "-DHAVE_CONFIG_H=1", "-DCACHELOT_PLATFORM_BITS=64",
        "-DBOOST_ALL_NO_LIB", "-w", "-fno-strict-aliasing", "-pthread"]


def gen_headers(d):
    gen = os.path.join(d, "gen", "cachelot")
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(gen, "config.h"), "w") as f:
        f.write("#define HAVE_ALIGNED_ALLOC 1\n#define HAVE_POSIX_MEMALIGN 1\n")
    src = os.path.join(REPO, "src", "cachelot", "version.h.in")
    text = open(src).read()
    for k, v in {"major": "1", "minor": "2", "patch": "3", "extra": "verif", "hash": "0000000"}.items():
        text = text.replace("@cachelot_version_%s@" % k, v)
    text = text.replace("@cachelot_os_name@", "Linux")
    with open(os.path.join(gen, "version.h"), "w") as f:
        f.write(text)
    return os.path.join(d, "gen")


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def stage_sources(d):
    """Copy of /repo/src without generated headers, so that ours are the ones included."""
    dst = os.path.join(d, "src")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "src"), dst, ignore=shutil.ignore_patterns("test", "benchmark", "*.o"))
    for h in ("config.h", "version.h"):
        p = os.path.join(dst, "cachelot", h)
        if os.path.exists(p):
            os.unlink(p)
    return dst


def build(pid, cfg):
    d = os.path.join(BUILD, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = stage_sources(d)
    gen = gen_headers(d)
    flags = BASE + cfg.get("flags", []) + ["-I" + gen, "-I" + src, "-I" + os.path.join(VERIF, "harness")]
    srcs = [p for p in glob.glob(os.path.join(src, "cachelot", "*.cpp")) if cfg.get("c_api", False) or os.path.basename(p) != "c_api.cpp"]
    if cfg.get("server"):
        srcs += [p for p in glob.glob(os.path.join(src, "server", "*.cpp")) if os.path.basename(p) != "main.cpp"]
        srcs += glob.glob(os.path.join(src, "server", "memcached", "*.cpp"))
    srcs += [os.path.join(VERIF, "harness", s) for s in cfg["sources"]]
    objs, jobs = [], []
    for i, s in enumerate(srcs):
        o = os.path.join(d, "%d_%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        jobs.append([CXX] + flags + ["-c", s, "-o", o])
    main_o = os.path.join(d, "main.o")
    if cfg.get("program"):
        jobs.append([CXX] + flags + ["-c", os.path.join(src, "server", "main.cpp"), "-o", main_o])
    with ThreadPoolExecutor(8) as ex:
        for (rc, out), job in zip(ex.map(sh, jobs), jobs):
            if rc != 0:
                sys.stderr.write("build failed: %s\n%s\n" % (" ".join(job), out[-6000:]))
                return None
    exe = os.path.join(d, "check")
    rc, out = sh([CXX] + flags + objs + ["-o", exe, "-rdynamic"] + cfg.get("libs", ["-lboost_system"]) + ["-ldl"])
    if rc != 0:
        sys.stderr.write("link failed:\n%s\n" % out[-6000:])
        return None
    if cfg.get("program"):
        # the server program itself, from the same objects
        here = os.path.join(VERIF, "harness")
        po = [o for s, o in zip(srcs, objs) if not s.startswith(here)]
        rc, out = sh([CXX] + flags + [main_o] + po + ["-o", os.path.join(d, "cachelotd"), "-lboost_program_options", "-lboost_system"])
        if rc != 0:
            sys.stderr.write("link failed:\n%s\n" % out[-6000:])
            return None
    return exe


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                res.append(line[len("known: property=%s " % pid):])
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        rc, out = sh([CXX, "--version"])
        os.makedirs(BUILD, exist_ok=True)
        print(out.splitlines()[0] if rc == 0 else "no compiler")
        sys.exit(rc)
    pid = args[0]
    cfg = CHECKS[pid]
    thorough = "--thorough" in args
    tier = "thorough" if thorough else "quick"
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    exe = build(pid, cfg)
    if exe is None:
        sys.exit(2)
    t_build = time.time() - t0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:detect_odr_violation=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    env["VERIF_REPO_SRC"] = os.path.join(REPO, "src")
    env["VERIF_SCRATCH"] = os.path.join(BUILD, pid)
    env["LC_ALL"] = "C"
    out = os.path.join(BUILD, pid, "stats.json")
    cmd = [exe, "--property", pid, "--out", out, "--replay-dir", REPLAYS, "--workers", str(cfg.get("workers", 8))]
    if thorough:
        cmd.append("--thorough")
    if "--replay" in args:
        cmd += ["--replay", args[args.index("--replay") + 1]]
        sys.exit(subprocess.run(cmd, env=env).returncode)
    if "--only" in args:
        cmd += ["--only", args[args.index("--only") + 1]]
    if "--verbose" in args:
        cmd.append("--verbose")
    for f in glob.glob(os.path.join(REPLAYS, pid + "-*")):
        os.unlink(f)
    r = subprocess.run(cmd, env=env)
    if r.returncode not in (0, 1) or not os.path.exists(out):
        sys.stderr.write("check %s ended with code %d\n" % (pid, r.returncode))
        sys.exit(2)
    st = json.load(open(out))
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": cfg["level"],
          "coverage": {
              "states": st["states"], "transitions": st["transitions"],
              "traces_validated_against_impl": st["executions"],
              "distinct_outcomes": st["outcomes"],
              "scenarios": st["scenarios"], "samples": st["samples"],
              "state_table_overflow": st["state_table_overflow"],
              "bounds": cfg["bounds_thorough"] if thorough and "bounds_thorough" in cfg else cfg["bounds"],
              "exhaustive": r.returncode == 0,
              "rule": cfg["rule"],
          },
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "build_s": round(t_build, 2), "violations": 1 if r.returncode else 0}
    if cfg["level"] in ("exploration", "fault_enumeration"):
        ev["coverage"]["evaluations"] = st["executions"]
        ev["coverage"]["distinct_nontrivial"] = st["states"]
    if r.returncode:
        ev["violation"] = st["violation"]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    # keep the build directory small
    for o in glob.glob(os.path.join(BUILD, pid, "*.o")):
        os.unlink(o)
    if r.returncode:
        print("VIOLATION property=%s replay=%s" % (pid, st["replay"] or REPLAYS))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
