#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not a check): generates small changes of the sources of a scratch copy of
/repo and runs the quick checks against them until one reports a violation.  Survivors have to be looked at by hand.

  mutate.py OUT.jsonl [--workers N] [--only FILE[,FILE]] [--every K] [--offset J] [--all-checks]
"""
import os, re, sys, json, shutil, subprocess, threading, queue, random
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUTATE_SRC", "/repo")
C = {
 "src/cachelot/cache.h": "C01 C15 C06 C07 C10 C16 C20 C08 C17 C02 C03 C18",
 "src/cachelot/dict.h": "C05 C17 C01 C18 C06",
 "src/cachelot/hash_table.h": "C05 C17 C01 C18",
 "src/cachelot/item.h": "C06 C15 C20 C07 C01 C08",
 "src/cachelot/memalloc-inl.h": "C04 C18 C03 C16 C02 C20",
 "src/cachelot/memalloc.h": "C04 C18 C03",
 "src/cachelot/intrusive_list.h": "C04 C02 C03",
 "src/cachelot/bits.h": "C04 C05 C18 C09",
 "src/cachelot/slice.h": "C10 C19 C13 C11 C01",
 "src/cachelot/string_conv.h": "C09 C08 C10",
 "src/cachelot/hash_fnv1a.h": "C15 C10",
 "src/cachelot/stats.h": "C16 C10", "src/cachelot/stats.cpp": "C16 C10",
 "src/cachelot/expiration_clock.h": "C06",
 "src/cachelot/c_api.cpp": "C15 C17",
 "src/server/io_buffer.h": "C19 C11 C13 C17 C12",
 "src/server/socket_stream.h": "C11 C12 C13 C17",
 "src/server/socket_datagram.h": "C14 C17",
 "src/server/network.h": "C11 C12",
 "src/server/settings.h": "C18 C13", "src/server/settings.cpp": "C18 C13",
 "src/server/main.cpp": "C18",
 "src/server/memcached/conversation.h": "C14 C11 C13 C17 C12",
 "src/server/memcached/memcached.cpp": "C10 C13 C11",
 "src/server/memcached/proto_ascii.cpp": "C10 C11 C13 C16 C17 C14",
 "src/server/memcached/proto_defs.h": "C10 C13",
 "src/server/memcached/error.h": "C13 C10",
 "src/server/memcached/servers.h": "C18",
}
SWAP = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
        (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" -= ", " += "), ("not ", ""), ("true", "false"), ("false", "true"), (" + 1", ""), (" - 1", ""),
        (" << ", " >> "), ("uint64 ", "uint32 "), ("<uint64>", "<uint32>"), ("size_t ", "uint32 "), ("<uint32>", "<uint16>"), ("std::min", "std::max"), ("std::max", "std::min"), (" * 2", ""), ("sizeof(", "1 + sizeof(")]
SKIP = re.compile(r"^\s*(//|/\*|\*|#|debug_assert|namespace|using|typedef|static_assert|template|friend|public:|private:|protected:|class |struct |@)")
def mutants(path, text):
    lines = text.split("\n"); inc = False
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        if "/*" in l: inc = True
        if inc:
            if "*/" in l: inc = False
            continue
        if SKIP.match(l) or not code.strip() or "debug_assert" in l or "debug_only" in l or "= delete" in l or "= default" in l: continue
        for a, b in SWAP:
            at = code.find(a)
            while at >= 0:
                if not (a in ("true", "false", "not ") and at and (code[at - 1].isalnum() or code[at - 1] == "_")) and not (a in ("uint64", "uint32", "size_t") and re.search(r"(<|include)", code[max(0, at - 25):at]) and "static_cast" not in code) and '"' not in code[:at].replace('\\"', "")[-0:][:0]:
                    yield i, l[:at] + b + l[at + len(a):], "%s -> %s" % (a.strip(), b.strip())
                at = code.find(a, at + len(a))
        s = code.strip()
        if s.endswith(";") and not re.match(r"^(return|throw|break|continue|const |auto |bool |size_t |uint|int|slice |static|extern|case|default|tie\(|io_buffer|[A-Za-z_:<>]+ [a-z_]+(;| =))", s) and s.count("(") == s.count(")") and len(s) > 3:
            yield i, "", "delete statement"
        if s in ("break;", "continue;"): yield i, "", "delete " + s
def main():
    out = sys.argv[1]; a = sys.argv[2:]
    def opt(n, d): return a[a.index(n) + 1] if n in a else d
    W = int(opt("--workers", "4")); only = opt("--only", ""); every = int(opt("--every", "1")); off = int(opt("--offset", "0")); prop = opt("--checks", "")
    done = set()
    if os.path.exists(out):
        for l in open(out): r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    work = []
    for f in C:
        if only and not any(o in f for o in only.split(",")): continue
        t = open(SRC + "/" + f).read(); ls = t.split("\n")
        ms = list(mutants(f, t))
        for n, (i, new, what) in enumerate(ms):
            if n % every != off: continue
            if (f, i + 1, new.strip()) in done: continue
            work.append((f, i, ls[i], new, what))
    random.Random(7).shuffle(work)
    print(len(work), "mutants"); q = queue.Queue(); [q.put(w) for w in work]; lock = threading.Lock()
    def run(n):
        base = "/tmp/mw/%d" % n; shutil.rmtree(base, ignore_errors=True); os.makedirs(base); shutil.copytree(SRC + "/src", base + "/repo/src")
        env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_BUILD=base + "/build", VERIF_EVIDENCE=base + "/ev", VERIF_REPLAYS=base + "/rp")
        while True:
            try: f, i, old, new, what = q.get_nowait()
            except queue.Empty: return
            p = base + "/repo/" + f; text = open(SRC + "/" + f).read(); ls = text.split("\n"); ls[i] = new; open(p, "w").write("\n".join(ls))
            res = "SURVIVED"; by = ""; tried = []
            for c in (prop or C[f]).split():
                tried.append(c)
                try: r = subprocess.run(["timeout", "-s", "INT", "500", sys.executable, VERIF + "/run.py", c], env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
                except Exception as e: res = "ERROR"; break
                if r.returncode == 1: res = "killed"; by = c; break
                if r.returncode != 0:
                    res = "nobuild" if "build failed" in r.stdout or "link failed" in r.stdout else "noanswer"; by = c
                    if res == "nobuild": break
                    # no answer is as good as nothing: go on with the other checks
                    continue
            open(p, "w").write(text)
            with lock:
                with open(out, "a") as o: o.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), what=what, result=res, by=by, tried=tried)) + "\n")
    ts = [threading.Thread(target=run, args=(n,)) for n in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == "__main__": main()
