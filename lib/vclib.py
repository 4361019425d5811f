"""Runs the contract-verification units of one property and writes its evidence file."""
import concurrent.futures as cf
import copy, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, traceback
import extract as X

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(VERIF, "lib")
CFLAGS = ["-D__NO_CTYPE", "-DUSE_REUSABLES", "-DUNIXVER", "-DUSE_BUILTIN_FCREATE", "-include", "stdbool.h"]
REPO = X.REPO


class Unit:
    """One function (or a small group) under contract.

    name      identifier, unique in the property
    src       harness file under /verif/harness (it includes the real source file as text)
    entry     harness function
    enforce   functions whose contract is checked against the body in this unit (dfcc: at most one; others by harness checks)
    replace   callees represented by their contract
    loops     {file: {(function, ordinal): contract}} inserted into the extracted text; empty = loops fully unwound
    unwind    unwinding limit for the remaining loops (unwinding assertions on: the limit is itself an obligation)
    kind      'proof' or 'bounded' (bounded: stated bound, never counted as discharged)
    bound     fallback configuration for counterexamples / unattachable loop contracts: dict(defs=[..], unwind=n)
    """
    def __init__(self, name, src, entry, enforce=None, replace=(), loops=None, unwind=12, unwindset=(), defs=(), kind="proof",
                 bound=None, bound_note="", solver=None, functions=(), native=True, timeout=200, flags=(), assumes=(),
                 dfcc=True, search=12, libs=(), tdefs=None, tunwind=None, quick_search=1.5, native_defs=(), tiers=("quick", "thorough"),
                 rec=False, drop=(), recstub=(), hoist=(), preunwind=0):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.functions = list(functions) or ([enforce] if enforce else [])


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf-8", "replace") + "\n[timeout after %ss]" % timeout


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.status = "?"          # discharged | bounded | violated | undecided
        self.obligations = self.ok = 0
        self.failed = []           # [(id, description, location)]
        self.solver_s = 0.0
        self.msg = ""
        self.log = ""
        self.replay = None
        self.inputs = None
        self.native = ""
        self.note = ""
        self.config = ""
        self.trials = 0


def compile_cbmc(u, work, cfg_defs, with_loops):
    src = os.path.join(VERIF, "harness", u.src)
    ext = os.path.join(work, "ext")
    X.extract(ext, u.loops if with_loops else None, u.drop, u.recstub, u.hoist)
    gb = os.path.join(work, "a.gb")
    cmd = ["goto-cc"] + CFLAGS + ["-I", ext, "-I", LIB, "-I", os.path.join(VERIF, "harness"), "-include", os.path.join(ext, "vc_defaults.h"),
           "-DVC_CBMC"] + ["-D" + d for d in list(u.defs) + list(cfg_defs)] + [src] + \
        ["--function", u.entry, "-o", gb]
    rc, out = sh(cmd, 120)
    if rc != 0 or not os.path.exists(gb):
        raise X.AttachError("goto-cc failed:\n" + out[-3000:])
    inst = os.path.join(work, "d.gb")
    rc, out = sh(["goto-instrument", "--drop-unused-functions", gb, inst], 120)
    if rc != 0 or not os.path.exists(inst):
        inst = gb
    if u.dfcc:
        b = os.path.join(work, "b.gb")
        cmd = ["goto-instrument", "--dfcc", u.entry]
        if u.enforce:
            cmd += ["--enforce-contract-rec" if u.rec else "--enforce-contract", u.enforce]
        for r in u.replace:
            cmd += ["--replace-call-with-contract", r]
        if with_loops and u.loops:
            cmd += ["--apply-loop-contracts"]
        rc, out = sh(cmd + [gb, b], 300)
        if rc != 0 or not os.path.exists(b):
            raise X.AttachError("goto-instrument failed:\n" + out[-3000:])
        inst = b
    elif with_loops and u.loops:
        b = os.path.join(work, "b.gb")
        if u.preunwind:
            # loops without a contract inside loops with one are unwound first (completely: unwinding assertions)
            own = {(f, i + 1) for f in u.loops for i, l in enumerate(open(os.path.join(ext, f), encoding="latin-1")) if "__CPROVER_loop_invariant" in l}
            rc, out = sh(["goto-instrument", "--json-ui", "--show-loops", inst], 120)
            # (a loop made by a backward goto is unwound twice only; units whose preconditions exclude the jump use this)
            names = [(l["name"], "goto" in open(l["sourceLocation"]["file"], encoding="latin-1").read().split("\n")[int(l["sourceLocation"]["line"]) - 1]) for item in json.loads(out) if "loops" in item for l in item["loops"]
                     if (os.path.basename(l["sourceLocation"]["file"]), int(l["sourceLocation"]["line"])) not in own
                     and l["sourceLocation"]["function"] in {fn for f in u.loops for fn, k in u.loops[f]}]
            if names:
                c = os.path.join(work, "c.gb")
                rc, out = sh(["goto-instrument", "--unwindset", ",".join("%s:%d" % (n, 2 if g else u.preunwind) for n, g in names), "--unwinding-assertions", inst, c], 120)
                if rc != 0 or not os.path.exists(c):
                    raise X.AttachError("goto-instrument failed:\n" + out[-3000:])
                inst = c
        rc, out = sh(["goto-instrument", "--apply-loop-contracts", inst, b], 300)
        if rc != 0 or not os.path.exists(b):
            raise X.AttachError("goto-instrument failed:\n" + out[-3000:])
        inst = b
    return inst


def run_cbmc(u, inst, unwind, unwindset, timeout, trace=False, props=(), solver=None, obits=8):
    cmd = ["cbmc", inst, "--json-ui", "--no-malloc-may-fail", "--unwind", str(unwind)]
    for w in unwindset:
        cmd += ["--unwindset", w]
    solver = solver or u.solver
    if solver == "cadical":
        cmd += ["--sat-solver", "cadical"]
    elif solver:
        cmd += ["--" + solver]
    cmd += list(u.flags)
    if "--object-bits" not in cmd:
        cmd += ["--object-bits", str(obits)]
    if trace:
        cmd += ["--trace"]
    for p in props:
        cmd += ["--property", p]
    t = time.time()
    rc, out = sh(cmd, timeout)
    dt = time.time() - t
    res = None
    try:
        data = json.loads(out)
        for item in data:
            if "result" in item:
                res = item["result"]
    except Exception:
        pass
    return res, dt, out, cmd


def is_reach(p):
    return "reach:" in p.get("description", "")


def trace_inputs(res):
    """Inputs (in_* variables) of the first failing property with a trace."""
    for p in res:
        if p.get("status") != "FAILURE" or is_reach(p) or "trace" not in p:
            continue
        ints, strs = {}, {}
        for st in p["trace"]:
            if st.get("stepType") != "assignment":
                continue
            lhs = st.get("lhs", "")
            m = re.match(r"^in_(\w+)$", lhs)
            v = st.get("value", {})
            if m and v.get("data") is not None:
                d = str(v["data"])
                mm = re.match(r"^-?\d+", d)
                if mm:
                    ints[m.group(1)] = int(mm.group(0))
                continue
            m = re.match(r"^in_str(\d)\[\(?(?:\w+ )*\)?\(?(\d+)l?\)?\]$", lhs)
            if m:
                b = v.get("binary")
                if b is not None:
                    strs.setdefault(m.group(1), {})[int(m.group(2))] = int(b, 2) & 255
        lines = []
        for k, val in ints.items():
            if re.match(r"^len\d$", k):
                s = strs.get(k[3:], {})
                lines.append("str%s=%s" % (k[3:], "".join("%02x" % (s.get(i, 32) or 32) for i in range(val))))
            else:
                lines.append("%s=%d" % (k, val))
        return p, "\n".join(lines) + "\n"
    return None, None


EXTERNS = os.path.join(LIB, "externs.json")
try:
    KNOWN_EXTERNS = json.load(open(EXTERNS))
except Exception:
    KNOWN_EXTERNS = {}
SEEN_EXTERNS = {}


def new_externs(u, kind, names):
    """Functions without a body that the unit did not have when it was written: code moved out of the verified text."""
    key = "%s/%s/%s" % (u.src, u.name, kind)
    SEEN_EXTERNS.setdefault(key, set()).update(names)
    if os.environ.get("VC_RECORD") or key not in KNOWN_EXTERNS:
        return []
    return sorted(set(names) - set(KNOWN_EXTERNS[key]))


def build_native(u, work):
    exe = os.path.join(work, "native")
    src = os.path.join(VERIF, "harness", u.src)
    obj = os.path.join(work, "h.o")
    common = ["g++", "-w", "-g", "-O1", "-fno-strict-overflow", "-fwrapv", "-fpermissive", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections",
              "-DNATIVE", "-DUSE_REUSABLES", "-DUNIXVER", "-DUSE_BUILTIN_FCREATE", "-DVC_ENTRY=" + u.entry,
              "-I", REPO, "-I", LIB, "-I", os.path.join(VERIF, "harness")] + ["-D" + d for d in list(u.defs) + list(u.native_defs)]
    rc, out = sh(common + ["-x", "c++", "-c", src, "-o", obj], 180)
    if rc != 0:
        return None, out
    rc, out = sh(common + ["-c", os.path.join(LIB, "native.cpp"), "-o", os.path.join(work, "n.o")], 180)
    if rc != 0:
        return None, out
    rc, out = sh(["g++", "-fsanitize=address", obj, os.path.join(work, "n.o"), "-o", exe, "-Wl,--gc-sections", "-Wl,--warn-unresolved-symbols", "-no-pie"] + list(u.libs or []), 180)
    if rc != 0:
        return None, out
    extra = new_externs(u, "native", [re.sub(r"\(.*", "", n) for n in re.findall(r"undefined reference to `([^']*)'", out)])
    if extra:
        return None, "the code now uses functions outside the harness: " + ", ".join(extra)
    return exe, ""


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=43", LC_ALL="C")


def native_replay(exe, path):
    rc, out = sh([exe, "replay", path], 60, env=ENV)
    return "REPLAY fail" in out, out


def native_search(exe, seed, secs, outp):
    rc, out = sh([exe, "search", str(seed), str(secs), outp], secs + 60, env=ENV)
    m = re.search(r"trials=(\d+)", out)
    return "SEARCH fail" in out, out, int(m.group(1)) if m else 0


def widen(u, res):
    """Loop contracts with the variables added that failed 'is assignable' checks name; None if there are none."""
    if not res or not u.loops or u.dfcc:
        return None
    names = {}
    for p in res:
        m = re.match(r"Check that ([A-Za-z_]\w*) is assignable$", p.get("description", ""))
        if m and p["status"] == "FAILURE":
            names.setdefault(p["property"].split(".")[0], set()).add(m.group(1))
    loops, changed = {}, False
    for f, specs in u.loops.items():
        loops[f] = {}
        for (fn, k), body in specs.items():
            text, ghost = body if isinstance(body, tuple) else (body, None)
            m = re.search(r"__CPROVER_assigns\(", text)
            add = sorted(n for n in names.get(fn, ()) if m and not re.search(r"__CPROVER_assigns\([^)]*\b%s\b" % n, text))
            if add:
                text = text[:m.end()] + ", ".join(add) + ", " + text[m.end():]
                changed = True
            loops[f][(fn, k)] = (text, ghost) if ghost else text
    return loops if changed else None


def run_unit(pid, u, tier, seed, root):
    r = Result(u)
    work = os.path.join(root, u.name)
    os.makedirs(work, exist_ok=True)
    thorough = tier == "thorough"
    t_out = u.timeout * (3 if thorough else 1)
    defs = list(u.tdefs) if (thorough and u.tdefs) else []
    unwind = u.tunwind if (thorough and u.tunwind) else u.unwind
    attach_err = None
    res = None
    try:
        inst = compile_cbmc(u, work, defs + (["VC_PROOF"] if u.kind == "proof" else []), True)
        res, dt, out, cmd = run_cbmc(u, inst, unwind, u.unwindset, t_out)
        r.solver_s += dt
        r.config = " ".join(cmd[2:])
        # a variable a loop assigns but its contract does not list (a new local): widen the frame, which only assumes less
        for attempt in range(3):
            wide = widen(u, res)
            if not wide:
                break
            w2 = os.path.join(work, "wide%d" % attempt)
            os.makedirs(w2, exist_ok=True)
            u = copy.copy(u)
            u.loops = wide
            r.note += "frame of a loop contract widened; "
            try:
                inst2 = compile_cbmc(u, w2, defs + (["VC_PROOF"] if u.kind == "proof" else []), True)
            except X.AttachError:
                break
            res2, dt, out2, cmd = run_cbmc(u, inst2, unwind, u.unwindset, t_out)
            r.solver_s += dt
            if res2 is None:
                break
            res, out, inst = res2, out2, inst2
        extra = new_externs(u, "cbmc", re.findall(r"no body for (?:function|callee) (\w+)", out))
        if extra and res is not None and any(p["status"] != "SUCCESS" for p in res if not is_reach(p)):
            raise X.AttachError("the code now uses functions outside the verified text: " + ", ".join(extra))
        if res is None:
            r.log = out[-4000:]
            attach_err = "verifier gave no verdict: " + out[-300:]
    except X.AttachError as e:
        attach_err = str(e)
        res = None
    bad = []
    if res is not None:
        obs = [p for p in res if not is_reach(p)]
        reach = [p for p in res if is_reach(p)]
        r.obligations = len(obs)
        r.ok = sum(p["status"] == "SUCCESS" for p in obs)
        bad = [p for p in obs if p["status"] == "FAILURE"] or [p for p in obs if p["status"] != "SUCCESS"]
        if not obs or not reach or any(p["status"] == "SUCCESS" for p in reach):
            bad.append({"property": "vacuity", "description": "reach: the harness end is not reachable on any execution satisfying the precondition (vacuous or never returning)",
                        "status": "FAILURE"})
        r.failed = [(p["property"], p.get("description", ""), "%s:%s" % (p.get("sourceLocation", {}).get("file", "?").split("/")[-1], p.get("sourceLocation", {}).get("line", "?"))) for p in bad]
    if res is not None and not bad:
        r.status = "discharged" if u.kind == "proof" else "bounded"
        return r
    # the obligation failed, or the contract could not be attached / decided: look for a concrete input
    r.note += attach_err or ""
    exe = None
    b_bad = None
    inputs = None
    bres = None
    if res is not None and u.kind == "proof" and not u.loops or (res is not None and u.kind == "bounded"):
        # loop-free or completely unwound: the trace of the failed obligation is concrete
        want = [p["property"] for p in bad if p["property"] != "vacuity" and p["status"] == "FAILURE"]
        b_bad = want
        if want:
            real = [w for w in want if ".unwind." not in w and "assigns" not in w] or want
            tres, dt, _, _ = run_cbmc(u, inst, unwind, u.unwindset, t_out, trace=True, props=real[:1])
            r.solver_s += dt
            if tres:
                _, inputs = trace_inputs(tres)
    elif u.bound is not None:
        try:
            w2 = os.path.join(work, "bounded")
            os.makedirs(w2, exist_ok=True)
            binst = compile_cbmc(u, w2, list(u.bound.get("defs", [])), False)
            bres, dt, out, cmd = run_cbmc(u, binst, u.bound.get("unwind", 8), u.bound.get("unwindset", u.unwindset), t_out, solver=u.bound.get("solver"), obits=12)
            r.solver_s += dt
            if bres is not None:
                fb = [p for p in bres if not is_reach(p) and p["status"] == "FAILURE" and ".unwind." not in p["property"]]
                b_bad = [p["property"] for p in fb]
                if fb:
                    tres, dt, _, _ = run_cbmc(u, binst, u.bound.get("unwind", 8), u.bound.get("unwindset", u.unwindset), t_out, trace=True, props=b_bad[:1], solver=u.bound.get("solver"), obits=12)
                    r.solver_s += dt
                    if tres:
                        _, inputs = trace_inputs(tres)
            else:
                r.note += " | bounded fallback gave no verdict: " + out[-200:]
        except X.AttachError as e:
            r.note += " | bounded fallback: " + str(e)[-600:]
    rp = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rp, exist_ok=True)
    rfile = os.path.join(rp, "%s-%s.txt" % (pid, u.name))
    confirmed = False
    if u.native:
        exe, err = build_native(u, work)
        if exe is None:
            r.native = "native build failed: " + err[-800:]
        else:
            if inputs:
                open(rfile, "w").write(inputs)
                confirmed, out = native_replay(exe, rfile)
                r.native = "verifier counterexample replayed on the real code: " + out.strip()[-300:]
            if not confirmed:
                f, out, r.trials = native_search(exe, seed, u.search * (3 if thorough else 1), os.path.join(work, "found.txt"))
                r.native += " | search on the real code: " + out.strip()[-300:]
                if f:
                    confirmed = True
                    inputs = open(os.path.join(work, "found.txt")).read()
    r.inputs = inputs
    if res is None and not confirmed and not b_bad:
        # no verdict from the proof, bounded fallback and search clean: undecided, not a violation
        r.status = "undecided"
        r.msg = "contract not attached or verifier without verdict; bounded fallback %s" % ("clean" if bres is not None else "unavailable")
        return r
    r.status = "violated"
    r.confirmed = confirmed
    with open(rfile, "w") as f:
        f.write("# property %s, unit %s\n" % (pid, u.name))
        for p in r.failed[:12]:
            f.write("# failed obligation %s: %s at %s\n" % p)
        if b_bad:
            f.write("# bounded configuration fails: %s\n" % ", ".join(b_bad[:8]))
        if r.note:
            f.write("# note: %s\n" % r.note.replace("\n", " ")[:1000])
        f.write("# %s\n" % r.native.replace("\n", " ")[:1500])
        if inputs:
            f.write("# %s input; rerun: python3 vc.py replay %s %s %s\n" % ("failing" if confirmed else "unconfirmed candidate", pid, u.name, rfile))
            f.write("\n".join(l for l in inputs.split("\n") if not l.startswith("#")) + "\n")
    r.replay = rfile
    r.msg = "; ".join("%s (%s)" % (a, b) for a, b, c in r.failed[:3])
    return r


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("property") == pid and e.get("status") == "known":
                out.append(e)
    return out


def check(pid, mod, tier, seed, only=None):
    t0 = time.time()
    units = [u for u in mod.UNITS if tier in u.tiers and (only is None or u.name in only)]
    root = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    results = []
    try:
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VC_JOBS", "6"))) as ex:
            futs = {ex.submit(run_unit, pid, u, tier, seed, root): u for u in units}
            for f in cf.as_completed(futs):
                u = futs[f]
                try:
                    results.append(f.result())
                except Exception:
                    r = Result(u)
                    r.status = "undecided"
                    r.note = traceback.format_exc()[-1500:]
                    results.append(r)
        results.sort(key=lambda r: [u.name for u in units].index(r.unit.name))
        # extraction fidelity: the same harnesses run on the unmodified C++ (not deciding when the proof holds, but a
        # concrete failure on the real code is a violation whatever the extracted text says)
        if not os.environ.get("VC_NONATIVE"):
            def fid(r):
                u = r.unit
                if not u.native or r.status == "violated":
                    return
                w = os.path.join(root, u.name + "-n")
                os.makedirs(w, exist_ok=True)
                exe, err = build_native(u, w)
                if exe is None:
                    r.native = "native build failed: " + err[-500:]
                    return
                f, out, r.trials = native_search(exe, seed, u.quick_search * (10 if tier == "thorough" else 1), os.path.join(w, "found.txt"))
                r.native = out.strip()[-300:]
                if f:
                    r.status = "violated"
                    r.confirmed = True
                    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
                    r.replay = os.path.join(VERIF, "evidence", "replay", "%s-%s.txt" % (pid, u.name))
                    shutil.copy(os.path.join(w, "found.txt"), r.replay)
                    r.failed = [("native", out.strip()[-200:], "")]
                    r.msg = "contract violated on the real code: " + out.strip()[-200:]
            with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VC_JOBS", "6"))) as ex:
                list(ex.map(fid, results))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if os.environ.get("VC_RECORD"):
        known = json.load(open(EXTERNS)) if os.path.exists(EXTERNS) else {}
        known.update({k: sorted(v) for k, v in SEEN_EXTERNS.items()})
        json.dump(dict(sorted(known.items())), open(EXTERNS, "w"), indent=0)
    proof = [r for r in results if r.unit.kind == "proof"]
    viol = [r for r in results if r.status == "violated"]
    kf = known_findings(pid)
    unlisted = []
    for r in viol:
        hit = None
        for e in kf:
            if e.get("unit") == r.unit.name and all(any(re.search(pat, a + " " + b) for pat in e["obligations"]) for a, b, c in r.failed):
                hit = e
        if not hit:
            unlisted.append(r)
    for e in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    n_ob = sum(r.obligations for r in proof)
    n_ok = sum(r.ok for r in proof if r.status in ("discharged", "violated"))
    trusted = sorted(set(getattr(mod, "TRUSTED", [])) | {a for u in units for a in u.assumes})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": n_ob, "discharged": n_ok,
            "checker_cmd": "goto-cc <extracted sources> ; goto-instrument --dfcc H --enforce-contract F --replace-call-with-contract G.. --apply-loop-contracts ; cbmc --unwind k (unwinding assertions on)",
            "trusted_base": trusted + ["memory allocation succeeds (the code checks no allocation)", "CBMC 6.11.0 (goto-cc, goto-instrument DFCC, cbmc; MiniSat/CaDiCaL back end)", "lib/extract.py's mechanical C++-to-C rewriting (fidelity spot-checked natively on this run)"],
            "functions_under_contract": sorted({f for r in proof for f in r.unit.functions if r.status == "discharged"}),
            "functions_bounded": sorted({f for r in results for f in r.unit.functions if r.unit.kind == "bounded" or r.status == "undecided"}),
            "units": [{"unit": r.unit.name, "kind": r.unit.kind, "status": r.status, "functions": r.unit.functions, "obligations": r.obligations, "ok": r.ok,
                       "bound": r.unit.bound_note, "callees_by_contract": list(r.unit.replace) + list(r.unit.drop) + list(r.unit.recstub), "loop_contracts": sum(len(v) for v in (r.unit.loops or {}).values()),
                       "solver_s": round(r.solver_s, 2), "backend": r.unit.solver or "SAT (MiniSat)", "native_trials": r.trials, "native": r.native, "note": r.note[:1500], "failed": r.failed[:10]} for r in results],
            "solver_time_s": round(sum(r.solver_s for r in results), 2),
            "explanation": getattr(mod, "EXPLANATION", ""),
            "evaluations": sum(r.trials for r in results),
            "bounded_obligations": sum(r.obligations for r in results if r.unit.kind == "bounded"),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + trusted,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unlisted),
    }
    for r in results:
        print("[%s] %-28s %-10s %-10s %4d/%-4d obligations  %.1fs solver %s" % (pid, r.unit.name, r.unit.kind, r.status, r.ok, r.obligations, r.solver_s, ("native:" + r.native[:80]) if os.environ.get("VC_VERBOSE") else ""))
        if r.status in ("undecided", "violated"):
            print("    " + (r.msg or "") + " " + r.note[:1500])
            for a in r.failed[:8]:
                print("    failed: %s | %s | %s" % a)
            if r.native:
                print("    " + r.native[:600])
    if only is None:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if not results or (n_ob == 0 and not any(r.unit.kind == "bounded" for r in results) and not any(r.status == "undecided" for r in results)):
        unlisted = unlisted or []
        print("no obligations generated")
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, os.path.join(VERIF, "evidence", pid + ".json")))
        return 1
    if unlisted:
        unlisted.sort(key=lambda r: not getattr(r, "confirmed", False))
        r = unlisted[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, r.replay, "" if getattr(r, "confirmed", False) else " no-failing-input-found"))
        return 1
    return 0


def replay(pid, mod, unit, path):
    u = [u for u in mod.UNITS if u.name == unit][0]
    root = tempfile.mkdtemp(prefix="vc-replay-")
    try:
        exe, err = build_native(u, root)
        if exe is None:
            print(err)
            return 1
        f, out = native_replay(exe, path)
        print(out)
        return 1 if f else 0
    finally:
        shutil.rmtree(root, ignore_errors=True)
