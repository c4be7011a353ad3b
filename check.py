#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its real code.

  check.py <ID> [--tier quick|thorough] [--unit NAME] [--keep] [--no-replay]

For every harness unit of the property: compile the repository's current sources, the harness and the runtime to
LLVM bitcode, link, run the symbolic executor (build/symex, Z3), then replay on a native g++ build of the same
sources (a) every counterexample, (b) solver-generated witnesses of paths that passed.
exit 0: held on everything explored; 1: VIOLATION (reproduced natively); 2: no verdict (incomplete, engine error,
unreproduced counterexample, unreachable witness)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
B = V + "/build"
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import props

CLANG = ["clang++", "-w", "-O0", "-g1", "-Xclang", "-disable-O0-optnone"]
BC_INC = ["-isystem", V + "/shim", "-I" + REPO + "/include/eni", "-isystem", B + "/dep", "-I" + V + "/rt", "-I" + V + "/harness", "-I" + REPO]
NAT_INC = ["-I" + REPO + "/include/eni", "-isystem", B + "/dep", "-I" + V + "/rt", "-I" + V + "/harness", "-I" + REPO]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,signed-integer-overflow,float-cast-overflow,pointer-overflow,nonnull-attribute,object-size", "-fno-sanitize-recover=undefined"]
NATF = ["g++", "-w", "-O0", "-g"]
SOMAIN = '''// runs the harness on a stack placed below the heap, with the code and its constants above both
#include <pthread.h>
#include <sys/mman.h>
#include <stdlib.h>
extern "C" int sx_native_run(void);
static void* go(void*) { exit(sx_native_run()); return 0; }
int main() {
  size_t n = 64 << 20; void* st = mmap((void*)0x20000000, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (st == MAP_FAILED) return 44;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, st, n); pthread_t t; if (pthread_create(&t, &a, go, 0)) return 44; pthread_join(t, 0); return 0; }
'''
LOG = []


def log(*a):
    s = " ".join(str(x) for x in a)
    LOG.append(s)
    print(s, flush=True)


class Fatal(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, **kw)


def must(cmd):
    p = run(cmd)
    if p.returncode:
        raise Fatal("command failed: %s\n%s" % (" ".join(cmd), p.stderr.decode(errors="replace")[-3000:]))
    return p


def setup():
    """Builds the engine and the runtime (idempotent)."""
    os.makedirs(B + "/dep/jsmn", exist_ok=True)
    ln = B + "/dep/jsmn/jsmn.h"
    if not os.path.lexists(ln):
        os.symlink("/usr/include/jsmn.h", ln)
    must(["make", "-s", "-j8", "-C", V + "/engine"])
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + "/shim/**/*", recursive=True) + glob.glob(V + "/rt/*")):
        if os.path.isfile(f):
            h.update(open(f, "rb").read())
    rt = B + "/rt-" + h.hexdigest()[:16] + ".bc"
    if not os.path.exists(rt):
        tmp = rt + ".%d" % os.getpid()
        must(CLANG + ["-std=gnu++17", "-fno-builtin", "-isystem", V + "/shim", "-c", "-emit-llvm", V + "/rt/rt.cpp", "-o", tmp])
        os.replace(tmp, rt)
    return rt


def srcs(patterns):
    r = []
    for p in patterns:
        g = sorted(glob.glob(REPO + "/" + p, recursive=True))
        if not g:
            raise Fatal("no source matches " + p)
        r += [x for x in g if x not in r]
    return r


_tree = None


def treehash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        fs = glob.glob(REPO + "/include/**/*", recursive=True)
        for d in ("lib", "tools", "examples"):
            fs += glob.glob(REPO + "/" + d + "/**/*.h", recursive=True) + glob.glob(REPO + "/" + d + "/**/*.inc", recursive=True)
            fs += glob.glob(REPO + "/" + d + "/**/*.tcc", recursive=True) + glob.glob(REPO + "/" + d + "/**/*.hpp", recursive=True)
        fs += glob.glob(V + "/harness/*.h") + glob.glob(V + "/harness/*.inc") + [V + "/rt/sym.h"]
        for f in sorted(fs):
            if os.path.isfile(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
        _tree = h.hexdigest()
    return _tree


class Unit:
    def __init__(self, u, tmp):
        self.u, self.dir = u, tmp + "/" + u["name"]
        os.makedirs(self.dir)
        self.repo = srcs(u["repo"])
        self.h = V + "/harness/" + u["src"]
        self.defs = ["-D" + d for d in u.get("defs", [])]
        self.rdefs = ["-D" + d for d in u.get("rdefs", [])]
        self.fdefs = {k: ["-D" + d for d in v] for k, v in u.get("fdefs", {}).items()}

    def defs_of(self, f):
        """Renamings for one repository source outside lib/: those of the unit and those of the file."""
        return (self.rdefs if not f.startswith(REPO + "/lib/") else []) + self.fdefs.get(os.path.basename(f), [])

    def bc_jobs(self):
        out = []
        for i, f in enumerate(self.repo):
            o = "%s/r%d.bc" % (self.dir, i)
            d = self.defs_of(f)
            out.append((CLANG + ["-std=gnu++11", "-fdelayed-template-parsing"] + BC_INC + d + ["-c", "-emit-llvm", f, "-o", o], o))
        o = self.dir + "/h.bc"
        out.append((CLANG + ["-std=gnu++17", "-fdelayed-template-parsing"] + BC_INC + self.defs + ["-c", "-emit-llvm", self.h, "-o", o], o))
        return out

    def link(self, rt):
        bcs = [o for _, o in self.bc_jobs()]
        must(["llvm-link"] + bcs + [rt, "-o", self.dir + "/l.bc"])
        must(["opt", "-passes=sroa,mem2reg", self.dir + "/l.bc", "-o", self.dir + "/m.bc"])

    def nat_jobs(self, flags, tag):
        out = []
        for f in self.repo + [self.h, V + "/rt/native.cpp"]:
            d = self.defs if f == self.h else self.defs_of(f) if f in self.repo else []
            std = "-std=gnu++11" if f in self.repo else "-std=gnu++17"
            cmd = NATF + [std] + flags + NAT_INC + d + ["-c", f]
            key = hashlib.sha256((treehash() + "\0".join(cmd)).encode() + open(f, "rb").read()).hexdigest()[:32]
            out.append((cmd, "%s/nat/%s.o" % (B, key)))
        return out

    def native(self, flags, tag, pool, extra=()):
        exe = "%s/nat-%s" % (self.dir, tag)
        if os.path.exists(exe):
            return exe
        jobs = self.nat_jobs(list(flags), tag)
        list(pool.map(natcompile, jobs))
        must(NATF + list(flags) + [o for _, o in jobs] + ["-o", exe] + list(extra) + self.u.get("libs", []))
        return exe

    def native_so(self, pool):
        """The same program with repo+harness in a shared object: a different address layout."""
        exe = self.dir + "/nat-so"
        if os.path.exists(exe):
            return exe
        fl = ["-fPIC"]
        jobs = self.nat_jobs(fl, "so")
        list(pool.map(natcompile, jobs))
        m = self.dir + "/somain.cpp"
        open(m, "w").write(SOMAIN)
        objs = [o for _, o in jobs[:-1]]
        must(NATF + fl + ["-DSX_NO_MAIN"] + NAT_INC + ["-std=gnu++17", "-c", V + "/rt/native.cpp", "-o", self.dir + "/nso.o"])
        must(NATF + fl + ["-shared", "-o", self.dir + "/libn.so"] + objs + [self.dir + "/nso.o"] + self.u.get("libs", []))
        must(NATF + [m, "-o", exe, self.dir + "/libn.so", "-Wl,-rpath," + self.dir])
        return exe


def natcompile(job):
    cmd, o = job
    if os.path.exists(o):
        os.utime(o)
        return
    tmp = o + ".%d.%d" % (os.getpid(), threading.get_ident())
    must(cmd + ["-o", tmp])
    os.replace(tmp, o)


def write_replay(path, rec):
    with open(path, "w") as f:
        for n, v in rec.get("params", []):
            f.write("P %s %s\n" % (n, v))
        for n, h in rec.get("inputs", []):
            f.write("I %s %s\n" % (n, h))
        for n, a, v in rec.get("ufs", []):
            f.write("U %s %s %s\n" % (n, a or "-", v))


def replay(exe, rp, timeout, wrap=()):
    """-> (status, lines): status ok | fail | bad"""
    out = rp + ".out"
    env = dict(os.environ, SYM_REPLAY=rp, SYM_OUT=out, ASAN_OPTIONS="detect_leaks=0:exitcode=43:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=256:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="exitcode=43:halt_on_error=1:print_stacktrace=1")
    if os.path.exists(out):
        os.remove(out)
    try:
        p = run(list(wrap) + [exe], env=env, timeout=timeout, cwd=os.path.dirname(rp))
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return "fail", ["TIMEOUT"], "did not terminate within %ss" % timeout
    lines = open(out, errors="replace").read().splitlines() if os.path.exists(out) else []
    if rc == 0 and "END" in lines:
        return "ok", lines, err
    if rc == 44:
        return "bad", lines, err
    return "fail", lines, "exit status %s\n%s" % (rc, err)


def fail_head(lines, err):
    for l in lines:
        if l.startswith("FAIL"):
            return l
    m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error:.*)", err)
    return m.group(1)[:200] if m else err.splitlines()[0][:200] if err else "?"


def known():
    p = V + "/known_findings.json"
    return [k for k in json.load(open(p)) if k.get("status") == "known"] if os.path.exists(p) else []


def is_known(pid, unit, v):
    for k in known():
        if k["property"] != pid or (k.get("unit") and k["unit"] != unit):
            continue
        if k.get("kind") and not re.search(k["kind"], v["kind"]):
            continue
        if k.get("msg") and not re.search(k["msg"], v["msg"]):
            continue
        if k.get("site") and not re.search(k["site"], v["site"] + " " + " ".join(v["stack"])):
            continue
        ok = True
        for n, rx in k.get("inputs", {}).items():
            val = dict(v["inputs"]).get(n)
            if val is None or not re.search(rx, val):
                ok = False
        for n, x in k.get("params", {}).items():
            if str(dict(v["params"]).get(n)) != str(x):
                ok = False
        if ok:
            return k
    return None


def main():
    t0 = time.time()
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        setup()
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep, noreplay = None, False, False
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 1
        elif args[i] == "--unit": only = args[i + 1]; i += 1
        elif args[i] == "--keep": keep = True
        elif args[i] == "--no-replay": noreplay = True
        i += 1
    prop = props.PROPS[pid]
    os.makedirs(B + "/nat", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="chk-" + pid + "-", dir=B)
    try:
        return check(pid, prop, tier, only, tmp, t0, noreplay)
    except Fatal as e:
        log("ERROR:", e)
        return 2
    finally:
        if keep:
            log("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
        nat = sorted(glob.glob(B + "/nat/*.o"), key=os.path.getmtime)
        for f in nat[:-600]:
            try: os.remove(f)
            except OSError: pass


def check(pid, prop, tier, only, tmp, t0, noreplay):
    rt = setup()
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking"}
    pool = cf.ThreadPoolExecutor(8)
    ipool = cf.ThreadPoolExecutor(8)
    units = [Unit(u, tmp) for u in prop["units"] if not only or u["name"] == only]
    problems, built = [], []

    def build(un):  # a unit that does not compile leaves the check without an answer unless another unit finds a violation
        list(pool.map(must, [cmd for cmd, o in un.bc_jobs()]))
        un.link(rt)
    for un, f in [(un, ipool.submit(build, un)) for un in units]:
        try:
            f.result()
            built.append(un)
        except Fatal as e:
            problems.append("%s: does not build: %s" % (un.u["name"], str(e)[-1500:]))
    units = built
    natf = {}
    if not noreplay:
        for un in units:
            natf[un] = pool.submit(lambda un=un: un.native(SAN, "san", ipool))
    t_build = time.time() - t0

    # symbolic runs
    runs = []
    for un in units:
        conf = un.u.get(tier) or un.u["quick"]
        for k, c in enumerate(conf):
            c = dict(c)
            runs.append({"unit": un, "id": "%s-%d" % (un.u["name"], k), "w": c.pop("_procs", un.u.get("procs", 4)), "layout": c.pop("_layout", "ghs"),
                         "timeout": c.pop("_timeout", 500 if tier == "quick" else 820), "samples": c.pop("_samples", un.u.get("samples", 6 if tier == "quick" else 12)),
                         "steps": c.pop("_steps", un.u.get("steps", 200000000)), "every": c.pop("_every", 7), "nofast": c.pop("_nofast", tier == "thorough" and un.u.get("nofast", False)), "set": c})
    sem = threading.Condition()
    free = [8]

    def go(r):
        w = min(r["w"], 8)
        with sem:
            while free[0] < w:
                sem.wait()
            free[0] -= w
        try:
            un = r["unit"]
            out = "%s/%s.jsonl" % (un.dir, r["id"])
            cmd = [B + "/symex", un.dir + "/m.bc", "--out", out, "--procs", str(w), "--timeout", str(r["timeout"]), "--max-steps", str(r["steps"]), "--samples", str(r["samples"]),
                   "--sample-every", str(r["every"]), "--max-viol", "12", "--layout", r["layout"]]
            if r["nofast"]:
                cmd.append("--no-fast")
            for n, v in r["set"].items():
                cmd += ["--set", "%s=%d" % (n, v)]
            p = run(cmd, timeout=r["timeout"] + 60)
            r["rc"], r["err"] = p.returncode, p.stderr.decode(errors="replace")
            r["lines"] = [json.loads(l) for l in open(out, errors="replace") if l.startswith("{")]
        except subprocess.TimeoutExpired:
            r["rc"], r["err"], r["lines"] = 124, "symex timed out", []
        finally:
            with sem:
                free[0] += w
                sem.notify_all()
    rpool = cf.ThreadPoolExecutor(max(1, len(runs)))
    runs.sort(key=lambda r: -r["w"])
    list(rpool.map(go, runs))

    # collect
    viols, samples, reach = [], [], {}
    tot = {}
    funcs = {}
    for r in runs:
        summ = [l for l in r["lines"] if l["t"] == "summary"]
        vs = [l for l in r["lines"] if l["t"] == "violation"]
        for l in r["lines"]:
            if l["t"] == "engine-error":
                problems.append("%s: engine: %s at %s" % (r["id"], l["msg"], l["loc"][:300]))
            elif l["t"] == "reach":
                reach.setdefault(r["unit"].u["name"], set()).add(l["label"])
            elif l["t"] == "sample":
                samples.append((r, l))
        viols += [(r, v) for v in vs]
        if r["rc"] or not summ:
            problems.append("%s: symex exit %s %s" % (r["id"], r["rc"], r["err"][-500:]))
            continue
        s = r["summ"] = summ[0]
        if not s["complete"] and all(is_known(pid, r["unit"].u["name"], v) for v in vs):
            problems.append("%s: exploration incomplete (%d paths in %.0fs)" % (r["id"], s["paths"], s["wall_s"]))
        if s["q_unknown"]:
            problems.append("%s: %d solver queries without an answer" % (r["id"], s["q_unknown"]))
        for k, x in s.items():
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                tot[k] = max(tot.get(k, 0), x) if k.startswith("max") else tot.get(k, 0) + x
        for f in s["functions"]:
            o = funcs.setdefault(f[0], [f[1], 0, f[3]])
            o[1] = max(o[1], f[2])
    for un in units:
        if only: break
        for lab in un.u.get("reach", []):
            if lab not in reach.get(un.u["name"], set()) and all(is_known(pid, r["unit"].u["name"], v) for r, v in viols):
                problems.append("%s: witness point '%s' was not reached (vacuous)" % (un.u["name"], lab))

    # replay counterexamples
    rdir = V + "/evidence/replays"
    os.makedirs(rdir, exist_ok=True)
    confirmed, knownhits, unrepro = [], [], []
    seen = {}
    for r, v in viols:
        un = r["unit"]
        k = is_known(pid, un.u["name"], v)
        key = (un.u["name"], k["id"]) if k else (un.u["name"], v["kind"]) + ((v["msg"], v["site"]) if v["kind"] != "nontermination" else ("", ""))
        if seen.get(key, 0) >= 2 or (not k and len([x for x in seen if len(x) > 2]) > 10):
            continue
        rp = "%s/%s-%s-%d.txt" % (rdir, pid, un.u["name"], len(confirmed) + len(unrepro) + len(knownhits))
        write_replay(rp, v)
        st, lines, err = "skipped", [], ""
        if not noreplay:
            exe = natf[un].result()
            to = 60 if v["kind"] != "nontermination" else 20
            st, lines, err = replay(exe, rp, to)
            if st != "fail":  # uninitialised data, or memory errors the sanitizer's shadow cannot see
                try:
                    pl = un.native([], "plain", ipool)
                    st, lines, err = replay(pl, rp, 120, ["valgrind", "-q", "--error-exitcode=43", "--undef-value-errors=" + ("yes" if v["kind"].startswith("uninit") else "no")])
                except Fatal as e:
                    log("note: plain build failed:", str(e)[:200])
            if st != "fail" and any(n.startswith("ptrorder") for n, _ in v["inputs"]):
                st, lines, err = replay(un.native_so(ipool), rp, 60)
                if st != "fail":
                    st, lines, err = replay(un.native([], "plain", ipool), rp, 60)
        seen[key] = seen.get(key, 0) + 1
        rec = {"unit": un.u["name"], "kind": v["kind"], "msg": v["msg"], "site": v["site"], "inputs": v["inputs"], "params": v["params"], "stack": v["stack"][:12], "replay": rp, "native": (fail_head(lines, err) if st == "fail" else st)}
        json.dump(rec, open(rp[:-4] + ".json", "w"), indent=1)
        if st != "fail" and not noreplay:
            unrepro.append(rec)
            continue
        seen[key] += 1
        if k:
            knownhits.append((k, rec))
        else:
            confirmed.append(rec)

    # replay witnesses of passing paths, compare observations
    validated, shown, nat_fail = 0, [], []
    if not noreplay and not confirmed:
        sd = tmp + "/s"
        os.makedirs(sd)

        def one(x):
            n, (r, s) = x
            rp = "%s/%d.txt" % (sd, n)
            write_replay(rp, s)
            exe = natf[r["unit"]].result()
            return replay(exe, rp, 120)
        picked = samples[:]
        for (n, (r, s)), (st, lines, err) in zip(enumerate(picked), pool.map(one, enumerate(picked))):
            obs = [l.split(" ", 2)[1:] for l in lines if l.startswith("OBS ")]
            want = [[n2, h] for n2, h in s["obs"]]
            obs = [[o[0], o[1] if len(o) > 1 else ""] for o in obs]
            if st == "ok" and obs == want:
                validated += 1
                if len(shown) < 6:
                    shown.append({"unit": r["unit"].u["name"], "params": s["params"], "inputs": s["inputs"][:40], "observed": s["obs"][:12]})
            elif st == "fail" and not any(n.startswith("ptrorder") for n, _ in s["inputs"]):
                rp = "%s/%s-%s-w%d.txt" % (rdir, pid, r["unit"].u["name"], n)
                write_replay(rp, s)
                rec = {"unit": r["unit"].u["name"], "kind": "native-run", "msg": fail_head(lines, err), "site": "", "stack": [], "inputs": s["inputs"], "params": s["params"], "replay": rp, "native": fail_head(lines, err)}
                json.dump(rec, open(rp[:-4] + ".json", "w"), indent=1)
                k = is_known(pid, rec["unit"], rec)
                (knownhits.append((k, rec)) if k else nat_fail.append(rec))
            else:
                problems.append("%s: native run disagrees with the encoding: %s %s\n  inputs %s\n  want %s\n  got  %s" % (r["id"], st, lines[-1:] if st == "bad" else "", s["inputs"], want, obs))
    # a native failure on a solver-made witness of a passing path is a demonstrated failure of the real code
    confirmed += nat_fail

    dem = {}
    if funcs:
        p = run(["c++filt"] + list(funcs))
        for a, b in zip(funcs, p.stdout.decode().splitlines()):
            dem[a] = b
    wall = time.time() - t0
    bounds = {}
    for r in runs:
        bounds.setdefault(r["unit"].u["name"], {"what": r["unit"].u.get("bounds", ""), "runs": []})["runs"].append(dict(r["set"], layout=r["layout"], paths=r.get("summ", {}).get("paths"), complete=r.get("summ", {}).get("complete"), max_path_steps=r.get("summ", {}).get("max_path_steps"), wall_s=round(r.get("summ", {}).get("wall_s", 0), 2)))
    ev["coverage"] = {
        "states": int(tot.get("paths", 0)), "transitions": int(tot.get("instructions", 0)),
        "traces_validated_against_impl": validated, "samples": shown,
        "exhaustive": not problems and not confirmed,
        "explanation": "states = symbolic paths carried to an end, each standing for all inputs meeting its path condition; transitions = LLVM instructions executed symbolically; traces validated = solver models of passing paths re-run on the native build with identical observations",
        "symbolic_branches": int(tot.get("sym_branches", 0)), "assertions_checked": int(tot.get("asserts", 0)), "assertions_decided_by_z3": int(tot.get("asserts_symbolic", 0)),
        "queries_z3": int(tot.get("q_z3", 0)), "queries_sat": int(tot.get("q_sat", 0)), "queries_unsat": int(tot.get("q_unsat", 0)), "queries_unknown": int(tot.get("q_unknown", 0)),
        "queries_cached": int(tot.get("q_cache", 0)), "queries_byte_domain": int(tot.get("q_fast", 0)), "solver_s": round(tot.get("solver_s", 0), 3), "slowest_query_s": round(tot.get("max_query_s", 0), 3),
        "paths_excluded_by_assumption": int(tot.get("assumed_away", 0)), "error_paths": int(tot.get("err_paths", 0)),
        "repo_functions_encoded": len(funcs), "repo_instructions_encoded": sum(f[2] for f in funcs.values()), "repo_instructions_covered": sum(f[1] for f in funcs.values()),
        "functions": sorted("%s [%s] %d/%d" % (dem.get(n, n)[:140], f[0].replace(REPO + "/", ""), f[1], f[2]) for n, f in funcs.items())[:400],
        "witness_points_reached": {k: sorted(x) for k, x in reach.items()}, "bounds": bounds, "build_s": round(t_build, 1), "known_findings_seen": sorted({k["id"] for k, _ in knownhits}),
        "problems": problems[:20],
    }
    ev["assumptions"] = props.COMMON_ASSUMPTIONS + prop.get("assumptions", []) + [a for u in prop["units"] for a in u.get("assumptions", [])]
    ev["wall_s"] = round(wall, 2)
    ev["violations"] = len(confirmed)
    if not only:
        json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    log("%s %s: %d runs, %d paths, %d instructions, %d z3 queries (%.1fs), %d asserts (%d by z3), %d witnesses replayed, build %.1fs, %.1fs" % (
        pid, tier, len(runs), tot.get("paths", 0), tot.get("instructions", 0), tot.get("q_z3", 0), tot.get("solver_s", 0), tot.get("asserts", 0), tot.get("asserts_symbolic", 0), validated, t_build, wall))
    for kid in sorted({k["id"] for k, _ in knownhits}):
        k = [k for k, _ in knownhits if k["id"] == kid][0]
        log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if confirmed:
        for c in confirmed[:10]:
            log("  %s: %s: %s at %s; native: %s; inputs %s" % (c["unit"], c["kind"], c["msg"], c["site"], c["native"], json.dumps(c["inputs"])[:400]))
        log("VIOLATION property=%s replay=%s" % (pid, confirmed[0]["replay"]))
        return 1
    for c in unrepro:
        problems.append("counterexample not reproduced natively: %s: %s: %s at %s (%s) inputs %s params %s\n    %s" % (c["unit"], c["kind"], c["msg"], c["site"], c["native"], c["inputs"], c["params"], "\n    ".join(c["stack"])))
    if problems:
        for p in problems[:20]:
            log("PROBLEM:", p)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
