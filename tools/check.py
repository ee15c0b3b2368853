#!/usr/bin/env python3
"""Decide one property: check.py <ID> [quick|thorough]

Builds the proof units of the property from /repo's current working tree, has
goto-instrument/cbmc discharge every obligation, and writes the evidence file.
Exit 0: all obligations accepted. Exit 1: VIOLATION line. Other: no answer.
"""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import spec  # noqa: E402

T0 = time.time()
BUDGET = float(os.environ.get("VP_BUDGET", "800"))
MEM = 14 << 30


def left():
    return BUDGET - (time.time() - T0)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))


def run(cmd, timeout, cwd, limit=True, env=None):
    t = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             preexec_fn=limits if limit else None, start_new_session=True, env=env)
    except OSError as e:
        return 127, str(e), 0.0
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        rc = 124
    return rc, out.decode("utf-8", "replace"), time.time() - t


# ---------------------------------------------------------------- generated files
def gen_config(scratch):
    """What CMake's configure_file produces, for the configurations we verify."""
    with open(os.path.join(REPO, "include/passgen/config.h.in")) as f:
        text = f.read()
    variants = {"debug": {"PASSGEN_DEBUG", "PASSGEN_MEMORY", "PASSGEN_MLOCK", "PASSGEN_MONOCYPHER"},
                "release": {"PASSGEN_MEMORY", "PASSGEN_MLOCK", "PASSGEN_MONOCYPHER"}}
    for name, on in variants.items():
        d = os.path.join(scratch, name, "passgen")
        os.makedirs(d)
        out = re.sub(r"#\s*cmakedefine\s+(\w+)(.*)",
                     lambda m: ("#define %s%s" % (m.group(1), m.group(2))) if m.group(1) in on
                     else "/* #undef %s */" % m.group(1), text)
        with open(os.path.join(d, "config.h"), "w") as f:
            f.write(out)
        vin = os.path.join(REPO, "src/version.c.in")
        if os.path.exists(vin):
            with open(vin) as f:
                v = f.read()
            ver = (1, 0, 0)
            with open(os.path.join(REPO, "CMakeLists.txt")) as f:
                m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", f.read())
            if m:
                ver = m.groups()
            # the three numbers stay symbolic for the proof of C26, which holds for every library version
            head = ""
            for i, part in enumerate(("MAJOR", "MINOR", "PATCH")):
                v = v.replace("@PROJECT_VERSION_%s@" % part, "VP_VERSION_" + part)
                head += "#ifndef VP_VERSION_%s\n#define VP_VERSION_%s %s\n#endif\n" % (part, part, ver[i])
            v = head + re.sub(r"@\w+@", "none", v)
            with open(os.path.join(scratch, name, "version.c"), "w") as f:
                f.write(v)


def incs(scratch, config):
    return ["-I" + os.path.join(VERIF, "include"), "-I" + os.path.join(scratch, config),
            "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(VERIF, "proofs")]


# ---------------------------------------------------------------- one proof job
class Result:
    def __init__(self, job):
        self.job = job
        self.status = "error"     # ok | failed | tool
        self.reason = ""
        self.obligations = 0
        self.discharged = 0
        self.failed = []          # (property id, description, location)
        self.reach = 0
        self.wall = 0.0
        self.solver = 0.0
        self.output = ""
        self.dropped = []
        self.waived = []
        self.cmds = []
        self.loops = 0


def build(job, scratch, tag, annotate):
    wd = os.path.join(scratch, "job-" + re.sub(r"\W", "_", job["name"]) + tag)
    os.makedirs(wd, exist_ok=True)
    src = os.path.join(VERIF, "proofs", job["unit"])
    gb = os.path.join(wd, "a.gb")
    cmd = ["goto-cc"] + incs(scratch, job.get("config", "debug")) + ["-DVP_PROOF"]
    if annotate:
        cmd.append("-DPASSGEN_VERIFY")
    cmd += ["-D" + d for d in job.get("defs", [])]
    cmd += ["--function", job["entry"], src]
    cmd += [os.path.join(REPO, "src", l) for l in job.get("link", []) if os.path.exists(os.path.join(REPO, "src", l))]
    cmd += ["-o", gb]
    rc, out, _ = run(cmd, 120, wd)
    return rc, out, wd, gb, cmd


CBMC_FLAGS = ["--no-malloc-may-fail", "--no-standard-checks", "--bounds-check", "--pointer-check",
              "--div-by-zero-check", "--signed-overflow-check", "--undefined-shift-check",
              "--pointer-primitive-check", "--object-bits", "12", "--unwinding-assertions", "--drop-unused-functions"]


def cbmc_cmd(job, gb, extra=()):
    cmd = ["cbmc", gb, "--json-ui"] + CBMC_FLAGS
    if job.get("unwind"):
        cmd += ["--unwind", str(job["unwind"])]
    for u in job.get("unwindset", []):
        cmd += ["--unwindset", u]
    if job.get("backend", "sat") == "cvc5":
        cmd.append("--cvc5")
    elif job.get("backend") == "z3":
        cmd.append("--z3")
    elif job.get("backend") == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    if not extra and job.get("slice", True):
        cmd.append("--slice-formula")
    cmd += job.get("flags", [])
    cmd += list(extra)
    return cmd


def parse_json(out):
    i = out.find("[")
    if i < 0:
        return None
    try:
        return json.loads(out[i:])
    except ValueError:
        return None


def run_job(job, scratch, tag=""):
    r = Result(job)
    t = time.time()
    use_dfcc = bool(job.get("enforce") or job.get("dfcc"))
    annotate = bool(job.get("loops"))
    rc, out, wd, gb, cmd = build(job, scratch, tag, annotate)
    r.cmds.append(" ".join(cmd))
    if rc != 0:
        r.status, r.reason, r.output = "tool", "unit does not compile", out[-3000:]
        r.wall = time.time() - t
        return r
    if use_dfcc or job.get("loops") or job.get("calls"):
        rc, syms, _ = run(["goto-instrument", "--list-symbols", gb], 60, wd)
        names = set(re.findall(r"^(\S+)", syms, re.M))
        if job.get("enforce") and job["enforce"].split("/")[0] not in names:
            r.status, r.reason = "tool", "function %s is not in the source any more" % job["enforce"].split("/")[0]
            r.wall = time.time() - t
            return r
        gi = ["goto-instrument"]
        if use_dfcc:
            gi += ["--no-malloc-may-fail", "--dfcc", job["entry"]]
        if job.get("enforce"):
            gi += ["--enforce-contract-rec" if job.get("rec") else "--enforce-contract", job["enforce"]]
        for x in job.get("replace", []):
            if x.split("/")[0] in names:
                gi += ["--replace-call-with-contract", x]
            else:
                r.dropped.append(x)
        if job.get("loops"):
            gi.append("--apply-loop-contracts")
        bgb = os.path.join(wd, "b.gb")
        for x in job.get("calls", []):
            # a call is replaced by the callee's contract, written as a function of the unit
            if x.split(":")[0] not in names:
                r.dropped.append(x)
                continue
            rgb = os.path.join(wd, "r-%d.gb" % len(r.cmds))
            ccmd = ["goto-instrument", "--replace-calls", x, gb, rgb]
            r.cmds.append(" ".join(ccmd))
            rc, out, _ = run(ccmd, 100, wd)
            if rc != 0:
                r.dropped.append(x)
                continue
            gb = rgb
        if not use_dfcc:
            dgb = os.path.join(wd, "d.gb")
            rc, out, _ = run(["goto-instrument", "--drop-unused-functions", gb, dgb], 100, wd)
            if rc == 0:
                gb = dgb
            if not job.get("loops"):
                gi = ["cp"]
        for attempt in range(6):
            r.cmds.append(" ".join(gi + [gb, bgb]))
            rc, out, _ = run(gi + [gb, bgb], 200, wd)
            m = re.search(r"line (\d+) function (\S+?)(?:: Found loop without contract nested| does not have contracts)", out)
            if rc == 0 or not m or not job.get("inner"):
                break
            # unwind that inner loop (completely: with unwinding assertions) first
            _, loops, _ = run(["goto-instrument", "--show-loops", gb], 60, wd)
            n = re.search(r"^(?:Loop )?(%s\.\d+):\n.*line %s function" % (re.escape(m.group(2)), m.group(1)), loops, re.M)
            if not n:
                break
            ugb = os.path.join(wd, "u%d.gb" % attempt)
            ucmd = ["goto-instrument", "--unwindset", "%s:%d" % (n.group(1), job["inner"]), "--unwinding-assertions", gb, ugb]
            r.cmds.append(" ".join(ucmd))
            rc2, out2, _ = run(ucmd, 100, wd)
            if rc2 != 0:
                break
            gb = ugb
        if rc != 0:
            r.status, r.reason, r.output = "tool", "contract instrumentation refused: " + out[-300:], out[-3000:]
            r.wall = time.time() - t
            return r
        gb = os.path.join(wd, "b.gb")
    cmd = cbmc_cmd(job, gb)
    r.cmds.append(" ".join(cmd))
    rc, out, _ = run(cmd, min(job.get("timeout", 400), left()), wd)
    r.wall = time.time() - t
    shutil.rmtree(wd, ignore_errors=True)
    digest(r, rc, out)
    return r


def digest(r, rc, out):
    js = parse_json(out)
    if js is None:
        r.status = "tool"
        r.reason = "no verdict within %d s" % r.wall if rc == 124 else "verifier gave no verdict (rc %d)" % rc
        r.output = out[-3000:]
        return
    msgs, verdict, errors = [], None, 0
    for e in js:
        if "messageText" in e:
            msgs.append(e["messageText"])
            m = re.match(r"Runtime (?:Solver|decision procedure): ([0-9.e+-]+)s", e["messageText"])
            if m:
                r.solver += float(m.group(1))
        if "cProverStatus" in e:
            verdict = e["cProverStatus"]
        for p in e.get("result", []):
            d = p.get("description", "")
            loc = p.get("sourceLocation", {})
            where = "%s:%s %s" % (loc.get("file", "?"), loc.get("line", "?"), loc.get("function", ""))
            if d.startswith("VP_REACH"):
                if p["status"] == "FAILURE":
                    r.reach += 1
                elif p["status"] != "SUCCESS":
                    errors += 1
                else:
                    r.failed.append((p["property"], "precondition satisfiable: " + d, where))
                continue
            r.obligations += 1
            if p["status"] == "SUCCESS":
                r.discharged += 1
            elif p["status"] != "FAILURE":
                errors += 1
            elif any(re.search(w, d) for w in r.job.get("waive", ())):
                r.waived.append(d)     # an obligation the verifier is known to evaluate wrongly: not counted as discharged
            else:
                r.failed.append((p["property"], d + (" [%s]" % p["status"] if p["status"] != "FAILURE" else ""), where))
    if verdict is None or r.obligations == 0:
        r.status, r.reason = "tool", "verifier gave no verdict"
        r.output = "\n".join(msgs)[-3000:]
        return
    if errors and not r.failed:
        r.status, r.reason = "tool", "the solver gave no answer for %d obligations" % errors
        return
    if not r.failed and r.reach == 0:
        r.status, r.reason = "tool", "no reachability witness: harness proves nothing"
        return
    if not r.failed:
        r.status = "ok"
        return
    unw = [f for f in r.failed if "unwind" in f[0] or "unwinding" in f[1] or "recursion" in f[0]]
    if unw:
        # beyond the depth to which this harness is complete: undecided
        r.status, r.reason = "tool", "loop or recursion deeper than the harness covers: " + ", ".join(f[0] for f in unw[:6])
        return
    nobody = [f for f in r.failed if ".no-body." in f[0]]
    if nobody:
        r.status, r.reason = "tool", "calls a function without a body or contract: " + nobody[0][0]
        return
    r.status = "failed"
    r.reason = "; ".join("%s (%s) at %s" % f for f in r.failed[:5])


# ---------------------------------------------------------------- native side
NATIVE_CC = ["gcc", "-w", "-g", "-O1", "-std=gnu11", "-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-ffunction-sections", "-fdata-sections"]
native_lock = threading.Lock()


def native_lib(scratch, config):
    """The rest of the library, for functions that the unit itself does not contain."""
    lib = os.path.join(scratch, "libpg-%s.a" % config)
    with native_lock:
        if os.path.exists(lib):
            return lib
        objs, d = [], os.path.join(scratch, "o-" + config)
        os.makedirs(d, exist_ok=True)
        srcs = [os.path.join(scratch, config, "version.c")]
        for sub in ("", "container", "parser", "pattern", "random", "util"):
            p = os.path.join(REPO, "src", sub)
            srcs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".c")]
        def one(s):
            o = os.path.join(d, re.sub(r"\W", "_", os.path.relpath(s, REPO)) + ".o")
            return o if run(NATIVE_CC + ["-c"] + incs(scratch, config) + [s, "-o", o], 60, scratch, limit=False)[0] == 0 else None
        with cf.ThreadPoolExecutor(max_workers=7) as ex:
            objs = [o for o in ex.map(one, srcs) if o]
        run(["ar", "rcs", lib] + objs, 60, scratch, limit=False)
    return lib


def native_build(unit, entry, scratch, defs=(), config="debug"):
    exe = os.path.join(scratch, "n-%s-%s-%s-%x" % (re.sub(r"\W", "_", unit), entry, config, hash(tuple(defs)) & 0xffffff))
    if os.path.exists(exe):
        return exe, ""
    cmd = NATIVE_CC + ["-DVP_NATIVE", "-DVP_ENTRY=" + entry, "-Wl,--gc-sections", "-Wl,-z,muldefs"]
    cmd += ["-D" + d for d in defs] + incs(scratch, config)
    cmd += [os.path.join(VERIF, "proofs", unit), os.path.join(VERIF, "include/vp_native.c"), native_lib(scratch, config), "-lm", "-o", exe]
    rc, out, _ = run(cmd, 120, scratch, limit=False)
    return (exe if rc == 0 else None), out


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
            UBSAN_OPTIONS="print_stacktrace=1")


def native_replay(unit, entry, values, scratch, defs=(), config="debug"):
    exe, out = native_build(unit, entry, scratch, defs, config)
    if not exe:
        return None, out
    f = os.path.join(scratch, "ce-%d.txt" % (hash(tuple(values)) & 0xffffffff))
    with open(f, "w") as h:
        h.write("\n".join(map(str, values)) + "\n")
    rc, out, _ = run([exe, "replay", f], 60, scratch, limit=False, env=NENV)
    if rc == 0 or rc == 4 or rc == 9:
        return False, out
    return True, out


def native_search(unit, entry, seconds, seed, scratch, defs=(), config="debug"):
    exe, out = native_build(unit, entry, scratch, defs, config)
    if not exe:
        return None, None, out
    log = exe + ".log"
    rc, out, _ = run([exe, "search", str(seed), str(seconds), log], seconds + 60, scratch, limit=False, env=NENV)
    if rc == 0:
        return False, None, out
    if rc == 124 or rc == 9:
        return None, None, out
    m = re.search(r"INPUTS:([ 0-9]*)", out)
    if m:
        vals = [int(x) for x in m.group(1).split()]
    else:
        import struct
        with open(log, "rb") as h:
            d = h.read()
        n = struct.unpack_from("<Q", d)[0]
        vals = list(struct.unpack_from("<%dQ" % min(n, 4096), d, 8))
    return True, vals, out


def trace_values(out):
    js = parse_json(out)
    best = None
    for e in js or []:
        for p in e.get("result", []):
            if p.get("status") == "FAILURE" and "trace" in p and not p["description"].startswith("VP_REACH"):
                vals = []
                for s in p["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "vp_input_value":
                        v = s.get("value", {})
                        if "binary" in v:
                            vals.append(int(v["binary"], 2))
                        elif "data" in v:
                            vals.append(int(re.match(r"\d+", v["data"]).group(0)))
                yield p["property"], p["description"], vals


def cbmc_search(h, scratch, timeout):
    """Run harness h, return (found, property, description, values, native output, cbmc result)"""
    if h.get("native_only"):
        return None
    job = dict(h)
    job.pop("loops", None)
    if job.get("enforce"):
        return None
    rc, out, wd, gb, cmd = build(job, scratch, "-ce", False)
    if rc != 0:
        return ("tool", out[-2000:])
    rc, out, _ = run(cbmc_cmd(job, gb, ["--trace"]), min(timeout, left()), wd)
    shutil.rmtree(wd, ignore_errors=True)
    r = Result(job)
    r.wall = timeout
    digest(r, rc, out)
    if r.status in ("ok", "tool"):
        return (r.status, r)
    for prop, desc, vals in trace_values(out):
        bad, nout = native_replay(h["unit"], h["entry"], vals, scratch, h.get("defs", []), h.get("config", "debug"))
        if bad:
            return ("found", prop, desc, vals, nout)
    return ("failed", r)


# ---------------------------------------------------------------- main
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = spec.PROPERTIES[pid]
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    try:
        return decide(pid, P, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(pid, P, tier, seed, scratch):
    gen_config(scratch)
    jobs = [j for j in P["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if tier == "thorough":
        jobs = [dict(j, **j.get("thorough", {})) for j in jobs]
    only = os.environ.get("VP_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j["name"])]
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "7"))) as ex:
        futs = [ex.submit(run_job, j, scratch) for j in sorted(jobs, key=lambda j: -j.get("cost", 1))]
        results = [f.result() for f in futs]
    for r in sorted(results, key=lambda r: r.job["name"]):
        print("%-8s %-40s obligations %4d discharged %4d  %.1fs %s" % (
            r.status, r.job["name"], r.obligations, r.discharged, r.wall,
            ("dropped " + ",".join(r.dropped)) if r.dropped else ""))
        if r.status != "ok":
            print("         " + r.reason[:1500])
            if os.environ.get("VP_VERBOSE"):
                print(r.output); print("\n".join(r.cmds))
    bad = [r for r in results if r.status != "ok"]
    violations, replay, note = 0, None, []
    code = 0
    if bad:
        code, replay, note = investigate(pid, P, bad, results, seed, scratch)
    for kf in spec.known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    if code == 1:
        violations = 1
    evidence(pid, P, tier, seed, results, violations, note)
    if code == 1:
        nofi = "" if replay[1] else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (pid, replay[0], nofi))
    sys.stdout.flush()
    return code


def investigate(pid, P, bad, results, seed, scratch):
    """Some obligation was not accepted. Look for an input on which the real code fails."""
    definite = [r for r in bad if r.status == "failed"]
    note = ["%s: %s: %s" % (r.job["name"], r.status, r.reason[:600]) for r in bad]
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s.json" % pid)
    record = {"property": pid, "failed_obligations": [
        {"job": r.job["name"], "status": r.status, "reason": r.reason, "obligations": r.failed[:40],
         "commands": r.cmds, "verifier_output": r.output} for r in bad]}

    # harnesses that run natively: those of the failed jobs first
    hs, seen = [], set()
    for r in bad:
        cand = ([r.job] if not r.job.get("enforce") else []) + [s for s in P.get("search", []) if s["name"] in r.job.get("search", [])]
        for h in cand:
            if h["name"] not in seen:
                seen.add(h["name"]); hs.append(h)
    for h in P.get("search", []):
        if h["name"] not in seen:
            seen.add(h["name"]); hs.append(h)
    for h in [r.job for r in results if not r.job.get("enforce")]:
        if h["name"] not in seen:
            seen.add(h["name"]); hs.append(h)

    def found(h, how, desc, vals, nout):
        record.update({"how": how, "unit": h["unit"], "entry": h["entry"], "defs": h.get("defs", []),
                       "config": h.get("config", "debug"), "inputs": vals, "obligation": desc,
                       "native_output": nout[-4000:],
                       "rerun": "python3 %s/tools/replay.py %s" % (VERIF, path)})
        with open(path, "w") as f:
            json.dump(record, f, indent=1)
        print("failing input found (%s) in harness %s: %s" % (how, h["name"], desc))
        return 1, (path, True), note

    hs = [h for h in hs if not h.get("no_native") and not h.get("loops") and not h.get("calls")]
    # 1. quick random search on the real code
    def ns(h):
        return h, native_search(h["unit"], h["entry"], 12, seed, scratch, h.get("defs", []), h.get("config", "debug"))
    native_ok = 0
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        for h, (hit, vals, out) in ex.map(ns, hs):
            if hit:
                ok, nout = native_replay(h["unit"], h["entry"], vals, scratch, h.get("defs", []), h.get("config", "debug"))
                if ok:
                    m = re.search(r"FAILED OBLIGATION: (.*)|ERROR: (\S+: .*)|runtime error: (.*)", nout)
                    return found(h, "native search", next((g for g in m.groups() if g), "crash") if m else "crash", vals, nout)
            elif hit is False:
                native_ok += 1
            elif hit is None:
                note.append("native harness %s: %s" % (h["name"], (out or "")[-300:]))
    # 2. the verifier's own counterexamples, replayed
    clean = []
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        for h, res in ex.map(lambda h: (h, cbmc_search(h, scratch, h.get("timeout", 300))), hs):
            if res is None:
                continue
            if res[0] == "found":
                return found(h, "verifier counterexample, replayed", res[2], res[3], res[4])
            if res[0] == "ok":
                clean.append(h["name"])
            elif res[0] == "failed":
                note.append("harness %s fails in the verifier but its counterexample does not replay: %s" % (h["name"], res[1].reason[:400]))
    record["harnesses_without_failing_input"] = clean
    if definite:
        with open(path, "w") as f:
            json.dump(record, f, indent=1)
        for r in definite:
            print("FAILED OBLIGATION in %s: %s" % (r.job["name"], r.reason))
        return 1, (path, False), note
    # only tool limits or structural changes: fall back to what was explored
    if clean or native_ok:
        print("undecided jobs: %s; bounded stand-ins found nothing: %s (native %d)" % (
            [r.job["name"] for r in bad], clean, native_ok))
        note.append("fallback: bounded stand-ins only for the undecided jobs: verifier %s, native search on %d harnesses" % (clean, native_ok))
        return 0, None, note
    print("no answer")
    return 2, None, note


def evidence(pid, P, tier, seed, results, violations, note):
    ok = [r for r in results]
    jobs = []
    for r in ok:
        jobs.append({"job": r.job["name"], "verdict": r.status, "kind": "contract" if r.job.get("enforce") else "assertion harness",
                     "enforced": r.job.get("enforce"), "callees_by_contract": r.job.get("replace", []) + r.job.get("calls", []),
                     "loop_contracts": bool(r.job.get("loops")), "functions": r.job.get("functions", []),
                     "level": r.job.get("level", "proof"), "bound": r.job.get("bound"),
                     "obligations": r.obligations, "discharged": r.discharged, "waived": r.waived, "reach_witnesses": r.reach,
                     "backend": r.job.get("backend", "sat (MiniSat in cbmc)"), "solver_s": round(r.solver, 2), "wall_s": round(r.wall, 2)})
    proved = [r for r in ok if r.job.get("level", "proof") == "proof"]
    bnd = [r for r in ok if r.job.get("level", "proof") != "proof"]
    level = P["level"]
    if any(r.status != "ok" for r in proved) and level == "proof" and not violations:
        level = "other"
    cov = {"obligations": sum(r.obligations for r in proved), "discharged": sum(r.discharged for r in proved),
           "checker_cmd": "goto-cc, goto-instrument --dfcc, cbmc 6.11 (python3 tools/check.py %s %s)" % (pid, tier),
           "trusted_base": spec.TRUSTED + P.get("trusted", []),
           "bounded_obligations": sum(r.obligations for r in bnd), "bounded_discharged": sum(r.discharged for r in bnd),
           "functions_under_contract": sorted({f for r in ok for f in ([r.job["enforce"].split("/")[0]] if r.job.get("enforce") else []) + r.job.get("functions", [])}),
           "solver_s": round(sum(r.solver for r in ok), 2), "jobs": jobs,
           "explanation": P.get("explanation", "") + (" NOTES: " + " | ".join(note) if note else "")}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.ASSUMPTIONS + P.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
