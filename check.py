#!/usr/bin/env python3
"""check.py <property> <quick|thorough> [--keep] [--job NAME] [-v]

Decides one property by symbolic execution of the LLVM IR of /repo's current sources
(engine/vfsym, Z3 back end) over the property's harnesses (harness/<id>_*.c).
exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import sys, os, re, json, time, glob, shutil, subprocess, tempfile, shlex
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(ROOT, "build")
ENGINE = os.path.join(BUILD, "vfsym")
NCPU = os.cpu_count() or 4
CFLAGS = ["-std=c99", "-D_GNU_SOURCE", "-I" + SRC, "-w"]
IRFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-ffp-contract=off", "-D__NO_CTYPE",
           "-U_FORTIFY_SOURCE", "-g", "-emit-llvm", "-c"]
NATIVE = {"asan": ["-O0", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off"],
          "msan": ["-O0", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer", "-ffp-contract=off"]}

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def must(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode:
        sys.stdout.write("ERROR: %s\n%s\n" % (" ".join(cmd), r.stderr.decode(errors="replace")[-3000:]))
        sys.exit(2)
    return r

def repo_sources():
    out = []
    for f in sorted(glob.glob(os.path.join(SRC, "buzz", "*.c"))):
        if re.search(r"\bint\s+main\s*\(", open(f, errors="replace").read()): continue
        out.append(f)
    return out

class Build:
    def __init__(self, wd):
        self.wd = wd; self.nat = {}
        must([sys.executable, os.path.join(ROOT, "lib", "mkbzz.py"), SRC, os.path.join(wd, "repo_bzz.h")])
    def base_ir(self):
        srcs = repo_sources()
        pool = ThreadPoolExecutor(NCPU)
        def one(f):
            o = os.path.join(self.wd, os.path.basename(f)[:-2] + ".bc")
            must(["clang"] + IRFLAGS + CFLAGS + [f, "-o", o]); return o
        objs = list(pool.map(one, srcs))
        lib = os.path.join(self.wd, "vflibc.bc")
        must(["clang"] + IRFLAGS + ["-w", os.path.join(ROOT, "lib", "vflibc.c"), "-o", lib])
        self.base = os.path.join(self.wd, "base.bc")
        must(["llvm-link"] + objs + [lib, "-o", self.base])
        return self.base
    def harness_ir(self, job):
        o = os.path.join(self.wd, job["name"] + ".h.bc"); l = os.path.join(self.wd, job["name"] + ".bc")
        must(["clang"] + IRFLAGS + CFLAGS + ["-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness"), "-I" + self.wd] + job["defs"] + [job["src"], "-o", o])
        must(["llvm-link", self.base, o, "-o", l])
        must(["opt", "-passes=function(mem2reg),internalize,globaldce", "-internalize-public-api-list=vf_main", l, "-o", l])
        return l
    def native(self, job, kind):
        key = (job["name"], kind)
        if key in self.nat: return self.nat[key]
        fl = NATIVE[kind]; d = os.path.join(self.wd, "nat_" + kind)
        if kind not in self.nat:
            os.makedirs(d, exist_ok=True)
            def one(f):
                o = os.path.join(d, os.path.basename(f)[:-2] + ".o"); must(["clang"] + fl + CFLAGS + ["-c", f, "-o", o]); return o
            self.nat[kind] = list(ThreadPoolExecutor(NCPU).map(one, repo_sources()))
        exe = os.path.join(d, job["name"])
        must(["clang"] + fl + CFLAGS + ["-I" + os.path.join(ROOT, "lib"), "-I" + os.path.join(ROOT, "harness"), "-I" + self.wd, "-DVF_NATIVE"] + job["defs"] +
             [job["src"], os.path.join(ROOT, "lib", "vfnative.c")] + self.nat[kind] + ["-lm", "-o", exe])
        self.nat[key] = exe
        return exe

def parse_jobs(pid, tier):
    jobs = []
    for f in sorted(glob.glob(os.path.join(ROOT, "harness", pid.lower() + "_*.c"))):
        for line in open(f):
            m = re.match(r"//\s*(QUICK|THOROUGH|BOTH)\s+(\S+)\s*(.*)", line)
            if not m: continue
            if m.group(1) != "BOTH" and m.group(1).lower() != tier: continue
            toks = shlex.split(m.group(3)); j = dict(name="%s_%s" % (pid.lower(), m.group(2)), src=f, defs=[], time=None, eng=[], reach=[])
            for t in toks:
                if t.startswith("time="): j["time"] = float(t[5:])
                elif t.startswith("reach="): j["reach"] = t[6:].split(",")
                elif t.startswith("-D"): j["defs"].append(t)
                else: j["eng"].append(t)
            if j["time"] is None: j["time"] = 150 if tier == "quick" else 1500
            j["defs"].append("-DTHOROUGH=%d" % (tier == "thorough"))
            jobs.append(j)
    return jobs

def replay(b, job, v, rdir, wd):
    """Run the counterexample natively. Returns (reproduced, description)."""
    os.makedirs(rdir, exist_ok=True)
    vals = os.path.join(rdir, "values.txt")
    with open(vals, "w") as f:
        for n, w, x in v["vals"]: f.write("%d %s %s\n" % (w, x, n or "_"))
    kinds = ["msan"] if v["uninit"] else ["asan"]
    out = ""; rep = False; desc = ""
    for k in kinds:
        exe = b.native(job, k)
        sd = tempfile.mkdtemp(dir=wd)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=94:allocator_may_return_null=1:detect_stack_use_after_return=1", MSAN_OPTIONS="exitcode=94")
        try:
            r = subprocess.run(["bash", "-c", "ulimit -c 0; exec \"$0\" \"$1\"", exe, vals], cwd=sd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            err = r.stderr.decode(errors="replace"); rc = r.returncode
            out += "--- %s rc=%d\n%s\n" % (k, rc, err[-6000:])
            if rc == 97 or rc == 94 or rc < 0 or rc in (134, 139, 136): rep = True
            elif v["kind"] in ("exit",) and "VF_DONE" not in err: rep = True
            desc = "native %s exit %d" % (k, rc)
            m = re.search(r"(VF_ASSERT_FAIL.*|ERROR: AddressSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*)", err)
            if m: desc += ": " + m.group(1)
        except subprocess.TimeoutExpired:
            out += "--- %s timeout\n" % k; desc = "native %s: did not terminate within 20 s" % k; rep = v["kind"] == "hang"
        shutil.rmtree(sd, ignore_errors=True)
        if rep: break
    with open(os.path.join(rdir, "report.txt"), "w") as f:
        f.write("property %s, harness %s %s\nkind: %s\nmessage: %s\nat: %s\nsymbolic trace:\n  %s\nnative replay: %s (reproduced: %s)\n%s\n" % (
            job["name"].split("_")[0].upper(), job["src"], " ".join(job["defs"]), v["kind"], v["msg"], v["loc"], "\n  ".join(v["trace"]), desc, rep, out))
    with open(os.path.join(rdir, "replay.sh"), "w") as f:
        f.write("#!/bin/bash\n# rebuilds the harness natively against /repo and feeds it values.txt\nset -e\nD=$(cd \"$(dirname \"$0\")\" && pwd); T=$(mktemp -d); trap 'rm -rf \"$T\"' EXIT\n"
                "S=$(grep -LE '\\bint\\s+main\\s*\\(' %s/buzz/*.c)\npython3 %s %s $T/repo_bzz.h\nclang %s %s -I$T -I%s -I%s -DVF_NATIVE %s %s %s $S -lm -o $T/h\ncd $T && ASAN_OPTIONS=detect_leaks=0 ./h $D/values.txt\n" % (
                    SRC, os.path.join(ROOT, "lib", "mkbzz.py"), SRC, " ".join(NATIVE[kinds[0]]), " ".join(CFLAGS), os.path.join(ROOT, "lib"), os.path.join(ROOT, "harness"), " ".join(job["defs"]), job["src"], os.path.join(ROOT, "lib", "vfnative.c")))
    return rep, desc

def validate_samples(b, job, samples, wd, n):
    """Replays path samples natively: observations must agree with the encoding."""
    ok = bad = 0; first = None
    if not samples: return 0, 0, None
    exe = b.native(job, "asan")
    for s in samples[:n]:
        sd = tempfile.mkdtemp(dir=wd); vals = os.path.join(sd, "v")
        with open(vals, "w") as f:
            for nm, w, x in s["vals"]: f.write("%d %s %s\n" % (w, x, nm or "_"))
        try:
            r = subprocess.run([exe, vals], cwd=sd, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=94:allocator_may_return_null=1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
            err = r.stderr.decode(errors="replace"); outs = re.findall(r"^VF_OUT (\d+)", err, re.M)
            if r.returncode == 0 and outs == s["outs"]: ok += 1
            else:
                bad += 1
                if first is None: first = dict(rc=r.returncode, err=err[-800:], outs=outs[:20], expect=s["outs"][:20], vals=s["vals"][:40])
        except subprocess.TimeoutExpired: bad += 1
        shutil.rmtree(sd, ignore_errors=True)
    return ok, bad, first

def load_known(pid):
    """known-findings.txt lines:  finding: property=<id> harness=<job> kind=<kind> at=<function> :: <description>"""
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+harness=(\S+)\s+kind=(\S+)\s+at=(\S+)\s+msg=\[(.*?)\]\s+::\s+(.*)", l)
            if m and m.group(1) == pid: out.append(dict(harness=m.group(2), kind=m.group(3), at=m.group(4), msg=m.group(5), text=m.group(6), hit=False))
    return out

def main():
    args = sys.argv[1:]; keep = "--keep" in args; verbose = "-v" in args; only = None
    if "--job" in args: only = args[args.index("--job") + 1]
    pid, tier = args[0], (args[1] if len(args) > 1 and not args[1].startswith("-") else "quick")
    t0 = time.time()
    if not os.path.exists(ENGINE): must(["bash", os.path.join(ROOT, "setup.sh")])
    wd = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try: rc = check(pid, tier, wd, t0, verbose, only)
    finally:
        if not keep: shutil.rmtree(wd, ignore_errors=True)
        else: print("kept", wd)
    sys.exit(rc)

def check(pid, tier, wd, t0, verbose, only):
    b = Build(wd); b.base_ir()
    jobs = [j for j in parse_jobs(pid, tier) if not only or j["name"].endswith("_" + only)]
    if not jobs: print("ERROR: no harness for", pid); return 2
    for j in jobs: j["ir"] = None
    mem = max(1500, min(6000, 26000 // min(len(jobs), NCPU)))
    def go(j):
        ir = b.harness_ir(j); out = os.path.join(wd, j["name"] + ".json")
        cmd = [ENGINE, ir, "-out=" + out, "-time=%g" % j["time"], "-mem=%d" % mem, "-repo=" + REPO + "/"] + j["eng"] + (["-v"] if verbose else [])
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.PIPE, timeout=j["time"] + 60)
        except subprocess.TimeoutExpired: j["res"] = None; j["err"] = "engine stopped after %d s" % (j["time"] + 60); return j
        try: j["res"] = json.load(open(out))
        except Exception: j["res"] = None; j["err"] = "engine exit %d %s" % (r.returncode, (r.stderr or b"").decode(errors="replace")[-500:])
        return j
    jobs.sort(key=lambda j: -j["time"])
    with ThreadPoolExecutor(NCPU) as pool: jobs = list(pool.map(go, jobs))
    known = load_known(pid); violations = []; unrepro = []; ev_jobs = []; funcs = {}; samples_all = []
    tot = dict(paths=0, queries=0, unsat=0, sat=0, unknown=0, asserts=0, assert_queries=0, solver_s=0.0, steps=0, forks=0); val_ok = val_bad = 0; warn = []; incomplete = []
    rroot = os.path.join(ROOT, "replays", pid)
    shutil.rmtree(rroot, ignore_errors=True)
    for j in sorted(jobs, key=lambda j: j["name"]):
        r = j["res"]
        if r is None:
            warn.append("%s: %s" % (j["name"], j["err"])); incomplete.append(j["name"] + ": engine failure"); continue
        for k in tot: tot[k] += r[k]
        for f, h, n, fk in r["functions"]:
            o = funcs.get(f, (0, n)); funcs[f] = (max(o[0], h), n)
        if r["status"] != "complete" or r["incomplete"]:
            incomplete.append("%s: %s %s" % (j["name"], r["status"], dict(list(r["incomplete"].items())[:5])))
        for w in j["reach"]:
            if w not in r["reach"]: warn.append("%s: witness '%s' not reached" % (j["name"], w))
        for i, v in enumerate(r["violations"]):
            fn = v["loc"].split(" ")[0]; kf = None
            for k in known:
                if j["name"] == pid.lower() + "_" + k["harness"] and k["kind"] == v["kind"] and k["at"] == fn and k["msg"] in v["msg"]: kf = k
            rdir = os.path.join(rroot, "%s_%d" % (j["name"], i))
            rep, desc = replay(b, j, v, rdir, wd)
            if kf and rep: kf["hit"] = True; continue
            (violations if rep else unrepro).append((j, v, rdir, desc))
        ok, bad, first = validate_samples(b, j, r["samples"], wd, 2 if tier == "quick" else 6)
        val_ok += ok; val_bad += bad
        if bad: warn.append("%s: %d path samples disagree with native execution: %s" % (j["name"], bad, json.dumps(first)[:1500]))
        if r["samples"]: samples_all.append(dict(harness=j["name"], values=r["samples"][-1]["vals"][:24]))
        ev_jobs.append(dict(harness=j["name"], bounds=j["defs"] + j["eng"], status=r["status"], paths=r["paths"], infeasible=r["infeasible"], queries=r["queries"], unsat=r["unsat"], unknown=r["unknown"],
                            cache_hits=r["cache_hits"], asserts=r["asserts"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall_s"], 2), reach=r["reach"], incomplete=r["incomplete"], remaining=r["remaining"]))
    for k in known:
        if k["hit"]: print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for w in warn: print("WARNING:", w)
    for x in incomplete: print("NOT-EXHAUSTED:", x)
    for j, v, rdir, desc in unrepro:
        print("UNCONFIRMED (not reported): %s %s '%s' at %s; %s; see %s" % (j["name"], v["kind"], v["msg"], v["loc"], desc, rdir))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", wall_s=round(time.time() - t0, 2), violations=len(violations),
        coverage=dict(explanation="Symbolic execution of the LLVM IR of /repo's current sources: every path of each harness within the listed bounds, every branch/assertion/memory access decided by Z3 for all symbolic inputs. 'paths' are feasible path conditions explored to the end; 'unsat' counts queries proved infeasible (failed assertions, out-of-bounds accesses, untaken branches).",
            paths=tot["paths"], forks=tot["forks"], instructions=tot["steps"], queries=tot["queries"], queries_unsat=tot["unsat"], queries_sat=tot["sat"], queries_unknown=tot["unknown"], assertions_checked=tot["asserts"], assertions_sent_to_solver=tot["assert_queries"], solver_s=round(tot["solver_s"], 2),
            functions_encoded=["%s (%d/%d blocks)" % (f, h, n) for f, (h, n) in sorted(funcs.items())], harnesses=ev_jobs, not_exhausted=incomplete, warnings=warn,
            path_samples_validated_natively=val_ok, path_samples_mismatching=val_bad, samples=samples_all[:4], exhaustive=not incomplete,
            unconfirmed=[dict(harness=j["name"], kind=v["kind"], msg=v["msg"], at=v["loc"]) for j, v, _, _ in unrepro]),
        assumptions=["clang -O0 lowering, vfsym semantics, lib/vflibc.c C library model and Z3 are trusted", "bounds are those in 'harnesses[].bounds' and DESIGN.md; nothing is claimed outside them", "malloc never fails; libm transcendental functions are uninterpreted"])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    print("%s %s: %d harness runs, %d paths, %d queries (%d unsat, %d unknown), solver %.1f s, %d/%d samples agree natively, wall %.1f s" % (pid, tier, len(jobs), tot["paths"], tot["queries"], tot["unsat"], tot["unknown"], tot["solver_s"], val_ok, val_ok + val_bad, time.time() - t0))
    for j, v, rdir, desc in violations:
        print("%s: %s '%s' at %s [%s]" % (j["name"], v["kind"], v["msg"], v["loc"], desc))
        print("VIOLATION property=%s replay=%s" % (pid, rdir))
    return 1 if violations else 0
main()
