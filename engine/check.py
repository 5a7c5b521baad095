#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--contract NAME] [--config CFG] [-v]

Compiles the contracts of the property together with /repo's headers, generates and discharges every obligation, and
confirms failures by executing the same contract natively.  Exit 0: every obligation discharged (or only listed
findings fail).  Exit 1: a VIOLATION line was printed.  Exit 2: no answer (the code could not be analysed).
"""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

REPO = os.environ.get("VP_REPO", "/repo")
EVIDENCE = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
CONTRACTS = os.path.join(VERIF, "contracts")
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"

CONFIGS = {
    "14x": ["-std=c++14"],
    "14n": ["-std=c++14", "-fno-exceptions", "-fno-rtti"],
    "14d": ["-std=c++14", "-DCETL_ENABLE_DEBUG_ASSERT=1"],
    "20x": ["-std=c++20"],
    "20n": ["-std=c++20", "-fno-exceptions", "-fno-rtti"],
}
COMMON = ["-I" + REPO + "/include", "-I" + CONTRACTS, "-Wno-everything", "-fno-access-control"]


# ------------------------------------------------------------------------------------------------------- registry
def registry():
    """[(file, contract, properties, configs, options)] from the VP_CONTRACT lines"""
    out = []
    for fn in sorted(os.listdir(CONTRACTS)):
        if not fn.endswith(".cpp") or fn == "vp_native.cpp":
            continue
        text = open(os.path.join(CONTRACTS, fn)).read()
        m = re.search(r"//\s*VP-CONFIGS:\s*(.*)", text)
        cfgs = m.group(1).split() if m else ["14x"]
        for m in re.finditer(r"^VP_CONTRACT\((\w+)\)\s*//\s*(.*)$", text, re.M):
            props, local, opts = [], None, {}
            for w in m.group(2).split():
                if re.fullmatch(r"[A-Z]\d\d", w):
                    props.append(w)
                elif w.startswith("configs="):
                    local = w[8:].split(",")
                elif "=" in w:
                    k, v = w.split("=", 1)
                    opts[k] = v
            out.append((fn, m.group(1), props, local or cfgs, opts))
    return out


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_ll(src, cfg, outdir):
    base = os.path.join(outdir, os.path.basename(src)[:-4] + "." + cfg)
    cmd = [CLANG] + CONFIGS[cfg] + COMMON + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                                             "-gline-tables-only", "-S", "-emit-llvm", src, "-o", base + ".0.ll"]
    r = run(cmd)
    if r.returncode:
        return None, "compile error in %s [%s]:\n%s" % (os.path.basename(src), cfg, r.stdout[-3000:])
    r = run([OPT, "-S", "-passes=function(sroa,simplifycfg<no-sink-common-insts>,instsimplify,loop-simplify)", base + ".0.ll", "-o",
             base + ".ll"])
    if r.returncode:
        return None, "opt error:\n" + r.stdout[-2000:]
    os.unlink(base + ".0.ll")
    return base + ".ll", None


def compile_native(src, cfg, outdir):
    exe = os.path.join(outdir, os.path.basename(src)[:-4] + "." + cfg + ".exe")
    flags = [f for f in CONFIGS[cfg]]
    obj = exe + ".o"
    r = run([CLANG] + flags + COMMON + ["-DVP_NATIVE=1", "-O1", "-g1", "-fsanitize=address,alignment",
                                        "-fno-sanitize-recover=alignment", "-fno-omit-frame-pointer", "-c", src, "-o", obj])
    if r.returncode:
        return None, r.stdout[-3000:]
    rt = os.path.join(outdir, "vp_native.o")
    if not os.path.exists(rt):
        r = run([CLANG, "-std=c++14", "-I" + CONTRACTS, "-O1", "-g1", "-fsanitize=address", "-c",
                 os.path.join(CONTRACTS, "vp_native.cpp"), "-o", rt])
        if r.returncode:
            return None, r.stdout[-3000:]
    r = run([CLANG, "-fsanitize=address,alignment", "-rdynamic", obj, rt, "-ldl", "-o", exe])
    if r.returncode:
        return None, r.stdout[-3000:]
    return exe, None


NATIVE_ENV = dict(os.environ, ASAN_OPTIONS="exitcode=66:detect_leaks=0:abort_on_error=0:detect_odr_violation=0"
                  ":allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=0",
                  UBSAN_OPTIONS="halt_on_error=1")

# --------------------------------------------------------------------------------------------------------- workers
_mods = {}


def get_module(path):
    import ir
    if path not in _mods:
        _mods.clear()
        _mods[path] = ir.parse(open(path).read())
    return _mods[path]


def dump_inputs(fail):
    """counterexample -> replay input lines"""
    import z3
    import sym
    m = fail.model
    out = []
    cnt = {}
    if m is None:
        return None
    for name, w, t, g in fail.state.trace:
        if g is not None and not z3.is_true(m.eval(g, model_completion=True)):
            continue
        i = cnt.get(name, 0)
        cnt[name] = i + 1
        if isinstance(w, tuple):
            n = w[1]
            n = n if isinstance(n, int) else m.eval(n, model_completion=True).as_long()
            n = min(n, 8192)
            bs = [m.eval(z3.Select(t, z3.BitVecVal(k, 64)), model_completion=True).as_long() for k in range(n)]
            out.append("%s %d array %s" % (name, i, " ".join(map(str, bs))))
        else:
            v = m.eval(t, model_completion=True)
            v = (1 if z3.is_true(v) else 0) if w == 1 else v.as_long()
            out.append("%s %d %d %d" % (name, i, w, v))
    return out


def execute(task):
    """one contract in one configuration and mode"""
    import exec as X
    import sym
    ll, fn, prop, mode, opts = task
    t0 = time.time()
    res = dict(contract=fn, ll=os.path.basename(ll), mode=mode, status="error", error=None, failures=[], obligations=0,
               discharged=0, paths=0, queries=0, solver_s=0.0, covers={}, funcs=[], loops=0, assumed=[], labels=[],
               bounded=False)
    try:
        m = get_module(ll)
        o = dict(mode=mode)
        if mode == "bmc":
            o.update(unroll=opts.get("unroll", 4), size_bound=opts.get("size_bound", 3), max_fail=1)
        elif opts.get("max_fail"):
            o["max_fail"] = opts["max_fail"]
        o["deadline"] = min(t0 + opts.get("time", 600), opts.get("end", t0 + 1e9))
        o["prop"] = prop
        if mode == "proof" and opts.get("exhaust"):
            o.update(exhaust=True, unroll=opts["exhaust"])
        o["check_align"] = opts.get("check_align", False)
        if "timeout" in opts:
            o["timeout_ms"] = opts["timeout"]
        sym.Stats.queries = sym.Stats.cvc5 = sym.Stats.unknowns = 0
        sym.Stats.time = 0.0
        ex = X.Executor(m, o)
        try:
            ex.run(fn)
            res["status"] = "failed" if ex.failures else "ok"
        except X.Deadline:
            res["status"] = "timeout"
        except sym.EngineError as e:
            res["status"] = "error"
            res["error"] = "EngineError: %s" % e
            if opts.get("verbose"):
                traceback.print_exc()
        for f in ex.failures:
            res["failures"].append(dict(kind=f.kind, label=f.label, where=f.where, reason=f.reason,
                                        inputs=dump_inputs(f)))
        if ex.failures and res["status"] == "error":
            res["status"] = "failed"
        res.update(obligations=ex.obl_total, discharged=ex.obl_done, paths=ex.paths, queries=ex.solver.queries,
                   solver_s=ex.solver.time, covers=ex.covers, funcs=sorted(ex.used_funcs), loops=len(ex.loops_cut),
                   assumed=sorted(ex.assumed), labels=sorted("%s: %s" % k for k in ex.obl), bounded=ex.bounded,
                   cover_labels=cover_labels(m, ex.used_funcs), unknowns=ex.solver.unknowns)
    except Exception as e:
        res["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
        if mode == "proof" or opts.get("verbose"):
            pass
    res["wall_s"] = time.time() - t0
    return res


def cover_labels(m, funcs):
    """labels of all vp_cover calls in executed functions of the contract file"""
    out = set()
    for f in funcs:
        fn = m.funcs[f]
        for b in fn.blocks.values():
            for i in b.insts:
                if i.op in ("call", "invoke") and getattr(i.a["callee"], "v", None) == "vp_cover":
                    c = i.a["args"][0][1]
                    g = m.globals.get(getattr(c, "v", None))
                    if g is not None and g["init"] is not None and g["init"].k == "bytes":
                        out.add(bytes(g["init"].v).rstrip(b"\0").decode())
    return sorted(out)


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")[:len(names)]


# ------------------------------------------------------------------------------------------------------------ main
class Check:
    def __init__(self, prop, tier, args):
        self.prop, self.tier, self.args = prop, tier, args
        self.t0 = time.time()
        self.out = os.path.join(EVIDENCE, "work", prop + ("" if tier == "quick" else ".thorough"))
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.errors, self.lines, self.violations, self.known, self.standins = [], [], [], [], []
        self.confirmed, self.notes = False, []
        kf = os.path.join(VERIF, "known_findings.json")
        self.findings = [f for f in (json.load(open(kf))["findings"] if os.path.exists(kf) else [])
                         if f["property"] == prop]
        self.native = {}

    def log(self, *a):
        print(*a, flush=True)

    def main(self):
        regs = [r for r in registry() if self.prop in r[2]]
        if self.args.get("contract"):
            regs = [r for r in regs if r[1] == self.args["contract"]]
        if not regs:
            self.log("no contracts for", self.prop)
            return 2
        jobs = []
        todo = {}
        for fn, c, props, cfgs, opts in regs:
            for cfg in cfgs:
                if self.args.get("config") and cfg != self.args["config"]:
                    continue
                if self.tier == "quick" and opts.get("tier") == "thorough":
                    continue
                todo.setdefault((fn, cfg), []).append((c, opts))
        nproc = int(os.environ.get("VP_JOBS", "8"))
        pool = mp.Pool(nproc, maxtasksperchild=6)
        comp = [(k, pool.apply_async(compile_ll, (os.path.join(CONTRACTS, k[0]), k[1], self.out))) for k in todo]
        pending = []
        for k, r in comp:
            ll, err = r.get()
            if ll is None:
                self.errors.append(err)
                continue
            for c, opts in todo[k]:
                o = dict(time=int(opts.get("time", "600")), end=self.t0 + (540 if self.tier == "quick" else 7200),
                         verbose=self.args.get("verbose"), check_align=opts.get("align") == "1",
                         exhaust=int(opts.get("unroll", "0")))
                if any(f["contract"] == c for f in self.findings):
                    o["max_fail"] = 40
                pending.append((k, c, pool.apply_async(execute, ((ll, c, self.prop, "proof", o),)), ll, opts))
        results = []
        while pending:
            ready = [x for x in pending if x[2].ready()]
            if not ready:
                time.sleep(0.05)
                continue
            pending = [x for x in pending if not x[2].ready() or x not in ready]
            for k, c, r, ll, opts in ready:
                res = r.get()
                res["file"], res["config"] = k
                res["opts"] = opts
                results.append(res)
                if self.args.get("verbose"):
                    self.log("%-7s %-40s %s obl %d/%d paths %d loops %d q %d %.1fs %s" % (
                        res["status"], c, k[1], res["discharged"], res["obligations"], res["paths"], res["loops"],
                        res["queries"], res["wall_s"], (res["error"] or "")[:1500]))
                    for f in res["failures"]:
                        self.log("    FAIL", f["kind"], "|", f["label"], "|", f["reason"], f["where"])
                if (res["status"] == "failed" and not self.args.get("verbose") and
                        not any(f["contract"] == c for f in self.findings) and self.model_replay(res, [])):
                    # one replayed violation decides the check
                    self.notes.append("stopped at the first replayed violation; %d contracts not finished" % len(pending))
                    pending = []
                    break
        pool.terminate()
        for r in results:
            if r["status"] == "failed" and any(f["contract"] == r["contract"] for f in self.findings):
                new = []
                for x in r["failures"]:
                    hit = [f for f in self.findings if f["contract"] == r["contract"] and f["obligation"] == x["label"]
                           and r["config"] in f.get("configs", [r["config"]])]
                    if hit:
                        line = "KNOWN-FINDING: property=%s %s" % (self.prop, hit[0]["what"])
                        if line not in self.lines:
                            self.lines.append(line)
                            self.known.append(hit[0]["what"])
                    else:
                        new.append(x)
                r["failures"] = new
                if not new:
                    r["status"] = "known"
        bad = [r for r in results if r["status"] not in ("ok", "known")]
        for r in results:
            if r["status"] == "ok":
                miss = [l for l in r.get("cover_labels", []) + ["end"] if not r["covers"].get(l)]
                if miss or r["obligations"] == 0:
                    r["status"] = "vacuous"
                    r["missing"] = miss
                    bad.append(r)
        bad.sort(key=lambda r: {"failed": 0, "vacuous": 1}.get(r["status"], 2))
        if bad:
            for k in {(r["file"], r["config"]) for r in bad}:
                self.exe(*k)
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as tp:
                for _ in tp.map(self.judge_one, bad):
                    pass
        if self.confirmed:
            # one replayed violation decides the check; failed proofs without one are only recorded
            self.notes += [l for l in self.lines if l.endswith("no-failing-input-found")]
            self.lines = [l for l in self.lines if not l.endswith("no-failing-input-found")]
        self.write_evidence(results)
        for l in self.lines:
            self.log(l)
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors:
                self.log("ERROR", e)
            return 2
        return 0

    # ------------------------------------------------------------------------------------------- failed contracts
    def exe(self, fn, cfg):
        k = (fn, cfg)
        if k not in self.native:
            self.native[k] = compile_native(os.path.join(CONTRACTS, fn), cfg, self.out)
        return self.native[k]

    def replay(self, r, lines, tag):
        exe, err = self.exe(r["file"], r["config"])
        if exe is None:
            return None, err
        path = os.path.join(self.out, "%s.%s.%s.in" % (r["contract"], r["config"], tag))
        with open(path, "w") as f:
            f.write("# inputs for contract %s (%s, %s)\n" % (r["contract"], r["file"], r["config"]))
            f.write("\n".join(lines) + "\n")
        p = self.sub([exe, r["contract"], "replay", path], 60)
        return p, path

    def sub(self, cmd, timeout):
        try:
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                  timeout=timeout, env=NATIVE_ENV, preexec_fn=limit)
        except subprocess.TimeoutExpired:
            class T:
                returncode, stdout = 124, "timeout"
            return T

    def relevant(self, text):
        """does a native failure concern this property?"""
        m = re.search(r"VP_FAIL (.*)", text)
        if m:
            l = m.group(1)
            pm = re.match(r"([A-Z]\d\d(?:/[A-Z]\d\d)*):", l)
            if pm and self.prop not in pm.group(1).split("/"):
                return None
            return l
        m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", text)
        if m:
            return "AddressSanitizer " + m.group(1)
        m = re.search(r"runtime error: (.*)", text)
        if m:
            return m.group(1)
        if "terminate called" in text or "Assertion" in text:
            return "abnormal termination"
        return "abnormal termination"

    def judge_one(self, r):
        try:
            self.judge(r)
        except Exception:
            self.errors.append("%s: %s" % (r["contract"], traceback.format_exc()[-1500:]))

    def late(self, after=480):
        return self.tier == "quick" and time.time() - self.t0 > after

    def model_replay(self, r, tried):
        for f in r["failures"]:
            if f["inputs"]:
                p, path = self.replay(r, f["inputs"], "model")
                if p is not None:
                    tried.append("verifier model: exit %d" % p.returncode)
                    if p.returncode not in (0, 77, 124, 2, 3):
                        lab = self.relevant(p.stdout)
                        if lab:
                            return lab, path, p.stdout
                else:
                    self.errors.append("native build failed for %s[%s]: %s" % (r["contract"], r["config"], path))
        return None

    def judge(self, r):
        key = "%s[%s]" % (r["contract"], r["config"])
        tried = []
        # 1. the verifier's own counterexample
        confirmed = self.model_replay(r, tried)
        # 2. bounded search for a concrete counterexample
        if self.confirmed and not confirmed:
            # one replayed violation decides the check; this one is only recorded
            self.notes.append("%s: %s (not replayed)" % (key, r["status"]))
            return
        if not confirmed and r["status"] != "vacuous":
            for sb, un, tm in ((2, 3, 40), (4, 6, 80)):
                if self.confirmed or self.late():
                    break
                b = call_limited(execute, (os.path.join(self.out, r["ll"]), r["contract"], self.prop, "bmc",
                                           dict(size_bound=sb, unroll=un, time=tm)), tm + 30)
                if b is None:
                    tried.append("bounded search (size %d): no answer" % sb)
                    continue
                tried.append("bounded search (size %d, unroll %d): %s %s" % (sb, un, b["status"], b["error"] or ""))
                for f in b["failures"]:
                    if f["inputs"]:
                        p, path = self.replay(r, f["inputs"], "bmc%d" % sb)
                        if p is not None:
                            tried.append("  its input: exit %d" % p.returncode)
                            if p.returncode not in (0, 77, 124, 2, 3):
                                lab = self.relevant(p.stdout)
                                if lab:
                                    confirmed = (lab, path, p.stdout)
                                    break
                if confirmed:
                    break
        # 3. random execution
        if not confirmed and r["status"] != "vacuous" and not self.confirmed:
            exe, err = self.exe(r["file"], r["config"])
            if exe:
                seed = 1
                left = 60000
                end = time.time() + 60
                while time.time() < end and left > 0 and not self.confirmed and not self.late(720):
                    p = self.sub([exe, r["contract"], "random", str(seed), "4000", self.out], 120)
                    left -= 4000
                    seed += 4000
                    if p.returncode == 66:
                        src = os.path.join(self.out, r["contract"] + ".in")
                        path = os.path.join(self.out, "%s.%s.random.in" % (r["contract"], r["config"]))
                        shutil.copy(src, path)
                        q = self.sub([exe, r["contract"], "replay", path], 60)
                        tried.append("random execution: failure, replay exit %d" % q.returncode)
                        if q.returncode not in (0, 77, 124, 2, 3):
                            lab = self.relevant(q.stdout)
                            if lab:
                                confirmed = (lab, path, q.stdout)
                                break
                    elif p.returncode != 0:
                        tried.append("random execution: exit %d %s" % (p.returncode, p.stdout[-200:]))
                        break
                if not confirmed:
                    tried.append("random execution: %d runs without failure" % (60000 - left))
            else:
                self.errors.append("native build failed for %s: %s" % (key, err))
        if r["status"] == "failed" and all(f["reason"] == "unknown" for f in r["failures"]):
            r["status"], r["error"] = "undecided", "solvers gave no answer: " + r["failures"][0]["label"]
        if not confirmed and r["status"] in ("error", "timeout", "undecided"):
            # the proof has no answer; the executions above are the labelled, bounded stand-in
            self.standins.append(dict(contract=key, status=r["status"], why=r["error"] or "time limit", tried=tried))
            if self.args.get("strict") or (r["error"] and "Traceback" in r["error"]):
                self.errors.append("%s: %s (%s)" % (key, r["status"], (r["error"] or "")[-1500:]))
            else:
                self.log("BOUNDED %s: proof gave no answer (%s); bounded execution found no failure" % (
                    key, (r["error"] or r["status"])[:200]))
            return
        if confirmed:
            self.confirmed = True
        rp = os.path.join(self.out, "%s.%s.replay.txt" % (r["contract"], r["config"]))
        with open(rp, "w") as f:
            f.write("property: %s\ncontract: %s (contracts/%s, configuration %s)\n" % (
                self.prop, r["contract"], r["file"], r["config"]))
            for x in r["failures"]:
                f.write("failed obligation: [%s] %s\n  solver: %s\n  at: %s\n" % (
                    x["kind"], x["label"], x["reason"], " <- ".join(x["where"])))
                if x["inputs"]:
                    f.write("  verifier counterexample:\n    " + "\n    ".join(x["inputs"]) + "\n")
            if r["status"] == "vacuous":
                f.write("failed obligation: reachability of %s\n" % r["missing"])
            f.write("confirmation attempts:\n  " + "\n  ".join(tried) + "\n")
            if confirmed:
                f.write("\nnative execution against the real code FAILS: %s\ninput file: %s\n" % confirmed[:2])
                f.write("reproduce: python3-vt %s/engine/check.py %s --replay %s\n\n" % (VERIF, self.prop, confirmed[1]))
                f.write(open(confirmed[1]).read() + "\n" + confirmed[2][-6000:])
        self.violations.append(dict(contract=key, obligation=[x["label"] for x in r["failures"]] or r.get("missing"),
                                    confirmed=bool(confirmed), what=confirmed[0] if confirmed else None))
        self.lines.append("VIOLATION property=%s replay=%s%s" % (self.prop, rp,
                                                                 "" if confirmed else " no-failing-input-found"))

    # --------------------------------------------------------------------------------------------------- evidence
    def write_evidence(self, results):
        names = sorted({f for r in results for f in r["funcs"]})
        dem = demangle(names)
        cetl = sorted({d for d in dem if "cetl::" in d and not d.startswith("std::")})
        helpers = sorted(set(dem) - set(cetl))
        part = [r for r in results if "bounded" in r["opts"]]
        full = [r for r in results if "bounded" not in r["opts"]]
        obl = sum(r["obligations"] for r in full)
        dis = sum(r["discharged"] for r in full if r["status"] != "error")
        assumed = sorted({a for r in results for a in r["assumed"]})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "proof" if not self.standins else "bounded",
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
            "coverage": {
                "obligations": obl, "discharged": dis,
                "checker_cmd": "python3-vt /verif/engine/check.py %s --tier %s" % (self.prop, self.tier),
                "trusted_base": TRUSTED,
                "back_end": "z3 (python3-vt z3-solver, bit-vectors and arrays); cvc5 (bit-vectors as integers) for what z3 does not decide at once",
                "solver_s": round(sum(r["solver_s"] for r in results), 2),
                "solver_queries": sum(r["queries"] for r in results),
                "contracts": [dict(contract=r["contract"], config=r["config"], status=r["status"],
                                   obligations=r["obligations"], discharged=r["discharged"], paths=r["paths"],
                                   loops_cut_by_invariant=r["loops"], covers=r["covers"],
                                   wall_s=round(r["wall_s"], 2)) for r in full],
                "bounded_contracts_not_counted_as_proved": [
                    dict(contract=r["contract"], config=r["config"], status=r["status"], bound=r["opts"]["bounded"],
                         obligations=r["obligations"], discharged=r["discharged"]) for r in part],
                "obligation_kinds": sorted({l for r in results for l in r["labels"]})[:400],
                "functions_under_contract": cetl,
                "functions_under_contract_count": len(cetl),
                "other_code_executed_inline": len(helpers),
                "bounded_stand_ins": self.standins,
                "known_findings": self.known,
                "notes": self.notes,
            },
            "assumptions": ASSUMPTIONS + assumed,
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


TRUSTED = ["clang 18 front end and its sroa/simplifycfg/instsimplify/loop-simplify passes (source to LLVM IR)",
           "the obligation generator in /verif/engine (IR semantics, memory model, loop rule)",
           "z3 and cvc5", "the contracts in /verif/contracts"]
ASSUMPTIONS = [
    "termination is not proved (partial correctness); invariants are re-established as obligations",
    "signed overflow and inbounds flags of the IR are treated as wrapping, not as undefined behaviour",
    "objects are at most 2^56 bytes and distinct live objects do not overlap",
    "single-threaded execution",
    "template code is verified at the instantiations the contracts make",
]


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


def _child(q, f, a):
    q.put(f(a))


def call_limited(f, a, timeout):
    q = mp.Queue()
    p = mp.Process(target=_child, args=(q, f, a))
    p.start()
    try:
        r = q.get(timeout=timeout)
    except Exception:
        r = None
    p.join(2)
    if p.is_alive():
        p.kill()
    return r


def main():
    a = sys.argv[1:]
    prop = None
    args = {}
    tier = os.environ.get("VERIF_TIER", "quick")
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--contract":
            args["contract"] = a[i + 1]
            i += 1
        elif a[i] == "--config":
            args["config"] = a[i + 1]
            i += 1
        elif a[i] == "--replay":
            args["replay"] = a[i + 1]
            i += 1
        elif a[i] == "-v":
            args["verbose"] = True
        elif a[i] == "--strict":
            args["strict"] = True
        else:
            prop = a[i]
        i += 1
    if args.get("replay"):
        head = open(args["replay"]).readline()
        m = re.match(r"# inputs for contract (\w+) \((\S+), (\S+)\)", head)
        d = tempfile.mkdtemp()
        try:
            exe, err = compile_native(os.path.join(CONTRACTS, m.group(2)), m.group(3), d)
            if exe is None:
                print(err)
                return 2
            p = subprocess.run([exe, m.group(1), "replay", args["replay"]], env=NATIVE_ENV)
            return 1 if p.returncode not in (0, 77) else 0
        finally:
            shutil.rmtree(d, ignore_errors=True)
    try:
        return Check(prop, tier, args).main()
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
