#!/usr/bin/env python3
"""Runs the solver-based check of one property: vx.py <property> [--tier quick|thorough] [--only NAME] [-v]

For every instance of the property (a harness + bounds): compiles the harness and the current
sources of /repo to LLVM bitcode, lets build/vxsym decide it for all inputs / schedules within the
bounds, replays counterexamples (and one witness of every passed instance) natively against the same
code, writes evidence/<property>.json.
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
sys.path.insert(0, HERE)
import checks

CXX = "clang++-18"
CFLAGS = ("-std=c++20 -fno-exceptions -fno-delete-null-pointer-checks -g -O1 -Xclang -disable-llvm-passes "
          "-fno-strict-aliasing -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_FORTIFY_SOURCE=0 -fno-builtin -Wno-everything").split()
OPT = ("internalize,globaldce,{coro}function(sroa,early-cse,instsimplify,simplifycfg),cgscc(inline),"
       "function(sroa,early-cse,instsimplify,simplifycfg),globaldce")


class Err(Exception):
    pass


def run(cmd, timeout=300, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    return p.returncode, p.stdout.decode(errors="replace")


def must(cmd, **kw):
    rc, out = run(cmd, **kw)
    if rc != 0:
        raise Err("command failed (%d): %s\n%s" % (rc, " ".join(cmd), out[-3000:]))
    return out


class Job:
    def __init__(self, prop, tier, verbose):
        self.prop, self.tier, self.v = prop, tier, verbose
        self.tmp = tempfile.mkdtemp(prefix="vx_%s_" % prop)
        self.locks = {}
        self.lk = threading.Lock()
        self.procs = set()
        self.stop = False
        self.deadline = time.time() + 780

    def compile(self, src, defs, flags=()):
        key = hashlib.sha1((src + repr(sorted(defs.items())) + repr(flags)).encode()).hexdigest()[:16]
        out = os.path.join(self.tmp, key + ".bc")
        with self.lk:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if not os.path.exists(out):
                path = src if src.startswith("/") else os.path.join(HERE, src)
                d = ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in defs.items()]
                must([CXX] + CFLAGS + (["-I", HERE + "/models"] if "-DVX_MODELS" in flags else []) + ["-I", REPO + "/src", "-I", HERE + "/tools", "-I", HERE + "/stubs", "-I", HERE + "/h"] + d + list(flags) +
                     ["-emit-llvm", "-c", path, "-o", out + ".tmp"])
                os.rename(out + ".tmp", out)
        return out

    def link(self, inst, name):
        defs = dict(inst.get("defs", {}))
        flags = tuple(inst.get("cflags", ()))
        bcs = [self.compile(s, defs, flags) for s in inst["src"]]
        rdefs = inst.get("repo_defs", {})
        bcs += [self.compile(REPO + "/src/" + s, rdefs, flags) for s in inst.get("repo", [])]
        bcs += [self.compile(s if "/" in s else "stubs/%s.cpp" % s, inst.get("stub_defs", {}) if s != "base" else {}, flags) for s in inst.get("stubs", []) + ["base"]]
        a = os.path.join(self.tmp, name + ".all.bc")
        o = os.path.join(self.tmp, name + ".bc")
        must(["llvm-link-18"] + bcs + ["-o", a])
        coro = "coro-early,cgscc(coro-split),coro-cleanup," if inst.get("coro") else ""
        must(["opt-18", "-passes=" + OPT.format(coro=coro), "--internalize-public-api-list=vx_main",
              "-inline-threshold=%d" % inst.get("inline", 20), a, "-o", o])
        os.unlink(a)
        return o

    def native(self, inst, name, bc):
        """Native build of the same bitcode."""
        exe = os.path.join(self.tmp, name + ".exe")
        if os.path.exists(exe):
            return exe
        ibc = os.path.join(self.tmp, name + ".i.bc")
        must([HERE + "/build/vxsym", bc, ibc, "--instrument"])
        must([CXX, "-O0", "-g", "-w", "-fsanitize=address", "-x", "ir", ibc, "-c", "-o", exe + ".o"])
        rt = os.path.join(self.tmp, "vxrt.o")
        with self.lk:
            if not os.path.exists(rt):
                must([CXX, "-std=c++20", "-O1", "-w", "-I", HERE + "/tools", "-c", HERE + "/tools/vxrt.cpp", "-o", rt])
        must([CXX, "-fsanitize=address", exe + ".o", rt, "-lpthread", "-o", exe])
        return exe

    def replay(self, inst, name, bc, trace, expect_violation, dest):
        exe = self.native(inst, name, bc)
        tf = os.path.join(self.tmp, name + ".trace")
        with open(tf, "w") as f:
            for v in trace.get("inputs", []):
                f.write("i %d\n" % v)
            for t in trace.get("schedule", []):
                f.write("s %d %d %d\n" % tuple(t))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1", )
        outs = []
        for fill in ("190", "0", "255"):
            try:
                rc, out = run(["timeout", "-s", "KILL", "20", exe, tf, fill], timeout=60, env=env)
            except subprocess.TimeoutExpired:
                rc, out = 137, ""
            outs.append((fill, rc, out))
            bad = "VX-VIOLATION" in out or "AddressSanitizer" in out or (rc < 0 or rc >= 124) or rc == 99
            if bad or not expect_violation:
                break
        if dest:
            with open(dest, "w") as f:
                json.dump({"property": self.prop, "instance": name, "trace": trace,
                           "native": [{"fill": a, "rc": b, "output": c[-3000:]} for a, b, c in outs]}, f, indent=1)
        return bad, outs[-1]

    def one(self, name, inst):
        if self.stop:
            return name, None
        t0 = time.time()
        bc = self.link(inst, name)
        tb = time.time() - t0
        out = os.path.join(self.tmp, name + ".json")
        cmd = [HERE + "/build/vxsym", bc, out, "--cnf", os.path.join(self.tmp, name + ".cnf")]
        limit = inst.get("timeout", 300 if self.tier == "quick" else 3000)
        if self.tier == "quick":
            limit = max(5, min(limit, self.deadline - time.time()))
        cmd += ["--timeout", str(limit)] + inst.get("opts", "").split()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        with self.lk:
            self.procs.add(p)
        try:
            so, _ = p.communicate(timeout=limit * 2 + 30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, _ = p.communicate()
            so = b"timeout"
        with self.lk:
            self.procs.discard(p)
        if self.stop:
            return name, None
        r = {"status": "error", "error": so.decode(errors="replace")[-2000:] + " rc=%d" % p.returncode}
        if os.path.exists(out):
            r = json.load(open(out))
        elif p.returncode in (0, 1):
            raise Err("no output of vxsym")
        if r["status"] == "unknown" or r["status"] == "error" and "timeout" in r.get("error", ""):
            r["status"], r["error"] = "timeout", "not decided in %d s" % limit
        r["build_s"] = round(tb, 2)
        r["wall_s"] = round(time.time() - t0, 2)
        if self.v:
            print("  %-28s %-9s %s %.1fs %s" % (name, r["status"], r.get("msg", r.get("error", "")), r["wall_s"],
                  {k: (round(x, 2) if isinstance(x, float) else x) for k, x in r.get("stats", {}).items()}), flush=True)
        os.makedirs(HERE + "/build/replay", exist_ok=True)
        dest = HERE + "/build/replay/%s_%s.json" % (self.prop, name)
        if r["status"] == "violation":
            ok, o = self.replay(inst, name, bc, r, True, dest)
            r["replayed"], r["replay"], r["native"] = ok, dest, o[2][-1500:]
            if not ok:
                r["status"] = "error"
                r["error"] = "counterexample not confirmed by the native replay: %s in %s:%s inputs %s schedule %s native rc=%d %s" % (
                    r.get("msg"), r.get("fn"), r.get("line"), r.get("inputs"), r.get("schedule"), o[1], o[2][-800:])
        elif r["status"] == "pass":
            want = inst.get("reach", ["end"])
            for w in want:
                if r["reach"].get(w) != 1:
                    r["status"] = "error"
                    r["error"] = "the label '%s' is not reachable (vacuous): %s" % (w, r["reach"])
            if r["status"] == "pass" and "sample" in r and inst.get("witness", True):
                bad, o = self.replay(inst, name, bc, r["sample"], False, dest)
                if bad:
                    r["status"], r["msg"], r["fn"], r["line"] = "violation", "native run of a witness fails: " + o[2][-300:], "", 0
                    r["replayed"], r["replay"], r["native"] = True, dest, o[2][-1500:]
                elif "VX-REACH" not in o[2]:
                    r["status"] = "error"
                    r["error"] = "the native run does not follow the witness: rc=%d %s" % (o[1], o[2][-800:])
                else:
                    r["witness_ok"] = True
                    os.unlink(dest)
        for x in (bc, os.path.join(self.tmp, name + ".exe"), os.path.join(self.tmp, name + ".exe.o")):
            if os.path.exists(x):
                os.unlink(x)
        return name, r


def known_findings(prop):
    r = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) instance=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, verbose, jobs = None, False, 8
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 1
        elif args[i] == "--only": only = args[i + 1]; i += 1
        elif args[i] == "-j": jobs = int(args[i + 1]); i += 1
        elif args[i] == "-v": verbose = True
        i += 1
    t0 = time.time()
    chk = checks.CHECKS[prop]
    insts = {}
    for n, x in chk["insts"].items():
        tr = x.get("tier", "both")
        if only is not None:
            if not re.search(only, n): continue
        elif tr != "both" and tr != tier: continue
        insts[n] = x
    if not os.path.exists(HERE + "/build/vxsym") or True:
        rc, out = run(["sh", HERE + "/engine/build.sh"], timeout=600)
        if rc != 0:
            print("the engine does not build\n" + out); return 2
    known = dict(known_findings(prop))
    job = Job(prop, tier, verbose)
    results, errors, viols, timeouts = {}, [], [], []
    try:
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            order = sorted(insts.items(), key=lambda kv: -kv[1].get("cost", 1))
            fs = {ex.submit(job.one, n, x): n for n, x in order}
            for f in concurrent.futures.as_completed(fs):
                n = fs[f]
                try:
                    n, r = f.result()
                except Err as e:
                    r = {"status": "error", "error": str(e)}
                except Exception as e:
                    r = {"status": "error", "error": repr(e)}
                if r is None:
                    continue
                results[n] = r
                if r["status"] == "violation" and n not in known:
                    viols.append((n, r))
                    job.stop = True
                    with job.lk:
                        for p in list(job.procs):
                            try: os.killpg(p.pid, signal.SIGKILL)
                            except OSError: pass
                elif r["status"] == "timeout":
                    timeouts.append(n)
                elif r["status"] not in ("pass", "violation"):
                    errors.append((n, r))
    finally:
        shutil.rmtree(job.tmp, ignore_errors=True)
    fns = set()
    tot = {}
    for n, r in results.items():
        for f in r.get("functions", []):
            if not re.match(r"(vx_main|std::|__gnu|_|\(anonymous)", f): fns.add(f)
        for k, v in r.get("stats", {}).items():
            tot[k] = max(tot.get(k, 0), v) if k in ("mem_mb", "max_clauses") else tot.get(k, 0) + v
    mg = sorted(f for f in fns if "mg::" in f)
    samples = []
    for n, r in sorted(results.items()):
        if "sample" in r and len(samples) < 6:
            samples.append({"instance": n, "witness": r["sample"]})
        if r["status"] == "violation":
            samples.insert(0, {"instance": n, "counterexample": {k: r.get(k) for k in ("msg", "fn", "line", "inputs", "schedule")}})
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": int(tot.get("merges", 0) + tot.get("forks", 0) + len(results)),
            "transitions": int(tot.get("steps", 0)),
            "traces_validated_against_impl": sum(1 for r in results.values() if r.get("witness_ok") or r.get("replayed")),
            "samples": samples or ["none"],
            "meaning": "states: symbolic states (sets of executions, split and merged), transitions: symbolically executed instructions; "
                       "every state stands for all inputs/schedules of the instance's bounds",
            "instances": {n: {"status": r["status"], "bounds": insts[n].get("bounds", ""), "defs": insts[n].get("defs", {}), "opts": insts[n].get("opts", ""),
                              "wall_s": r.get("wall_s"), "build_s": r.get("build_s"), "reach": r.get("reach"), "stats": r.get("stats")} for n, r in sorted(results.items())},
            "functions_encoded": mg,
            "queries_discharged": int(tot.get("queries", 0)), "verification_conditions": int(tot.get("vcs", 0)),
            "sat_pruning_checks": int(tot.get("sat_checks", 0)),
            "solver_time_s": round(tot.get("solve_time", 0) + tot.get("sat_time", 0), 2),
            "instances_not_decided_in_time": timeouts,
            "bounds": chk.get("bounds", ""), "outside": chk.get("outside", ""),
        },
        "assumptions": chk.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    if only is None:
        with open(HERE + "/evidence/%s.json" % prop, "w") as f:
            json.dump(ev, f, indent=1)
    for n, text in known.items():
        if n in results and results[n]["status"] == "violation":
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for n, r in viols:
        print("instance %s: %s in %s:%s" % (n, r.get("msg"), r.get("fn"), r.get("line")))
        print("  native: " + " | ".join(r.get("native", "").strip().splitlines()[:6]))
        print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
    if viols:
        return 1
    for n, r in errors:
        print("ERROR instance %s: %s" % (n, r.get("error", r["status"])))
    for n in timeouts:
        print("NOT DECIDED instance %s: %s, not a part of what is claimed" % (n, results[n]["error"]))
    if errors or len(timeouts) * 3 > len(results):
        return 2
    print("OK %s %s: %d instances, %d functions of the repository, %d queries, solver %.1f s, wall %.1f s" % (
        prop, tier, len(results), len(mg), tot.get("queries", 0), tot.get("solve_time", 0) + tot.get("sat_time", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
