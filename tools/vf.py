#!/usr/bin/env python3
"""Solver-based checking of /repo's sources.

    vf.py check <property> [--tier quick|thorough] [--only QUERY] [--keep] [-v]
    vf.py list

For every query of a property (see specs.py) this tool
  1. regenerates the encoding from /repo's current working tree (goto-cc),
  2. has CBMC decide every assertion, automatic safety check, unwinding
     assertion and reachability witness for all inputs within the bounds,
  3. on a counterexample, feeds the solver's input values to the same harness
     and the same /repo sources built natively with sanitizers, and reports a
     violation only when the real code fails on them,
  4. writes evidence/<property>.json.

Exit status: 0 held, 1 violated (a VIOLATION line is printed), 2 no answer.
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.json")

FLAVOURS = {
    # name: (compiler, arch define, extra compile flags)
    "x86_64": ("gcc", "VF_ARCH_X86", []),
    "i686": ("i686-linux-gnu-gcc", "VF_ARCH_X86", ["-m32"]),
    "arm64": ("gcc", "VF_ARCH_ARM64", ["-funsigned-char"]),
    "arm": ("i686-linux-gnu-gcc", "VF_ARCH_ARM", ["-m32", "-funsigned-char"]),
    "riscv64": ("gcc", "VF_ARCH_RISCV64", ["-funsigned-char"]),
    "wasm": ("i686-linux-gnu-gcc", "VF_ARCH_WASM", ["-m32"]),
    "host": ("gcc", "VF_ARCH_NONE", []),
}

CBMC_CHECKS = [
    "--bounds-check", "--pointer-check", "--div-by-zero-check",
    "--signed-overflow-check", "--undefined-shift-check",
    "--pointer-primitive-check", "--no-malloc-may-fail",
]

# seconds after which a second SAT solver joins
KISSAT_AFTER = 20.0

VERBOSE = False
_procs = set()
_procs_lock = threading.Lock()


def log(*args):
    if VERBOSE:
        print(*args, file=sys.stderr, flush=True)


class Query:
    def __init__(self, name, harness, sources, flavour="x86_64", defines=(), stubs=(),
                 unwind=(8,), unwindset=(), flags=(), tier="quick", timeout=600, mem_gb=14,
                 bounds="", assumptions=(), encodes=(), includes=(), solver=None, nosan=False,
                 no_checks=False, per_source_defines=None, unwind_fn=None, scale=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


class Inconclusive(Exception):
    pass


def run(cmd, timeout, mem_gb=None, env=None, stdout_path=None, cwd=None, started=None):
    """Run a command in its own process group; returns (rc, stdout, stderr, timed_out)."""
    def pre():
        os.setsid()
        if mem_gb:
            lim = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out = open(stdout_path, "wb") if stdout_path else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.PIPE, preexec_fn=pre, env=env, cwd=cwd,
                         stdin=subprocess.DEVNULL)
    with _procs_lock:
        _procs.add(p)
    if started:
        started(p)
    try:
        so, se = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        so, se = p.communicate()
        to = True
    finally:
        with _procs_lock:
            _procs.discard(p)
        if stdout_path:
            out.close()
    return p.returncode, (so or b"").decode("utf-8", "replace"), se.decode("utf-8", "replace"), to


def base_flags(q, path):
    cc, arch, extra = FLAVOURS[q.flavour]
    flags = ["-std=gnu99", "-D_GNU_SOURCE=1", "-D%s=1" % arch]
    if not any(d.startswith("CPUINFO_LOG_LEVEL") for d in q.defines):
        flags.append("-DCPUINFO_LOG_LEVEL=0")
    flags += ["-D" + d for d in q.defines]
    flags += ["-DVF_STUB_%s=1" % s.upper() for s in q.stubs]
    if q.per_source_defines:
        flags += ["-D" + d for d in q.per_source_defines.get(path, ())]
    for i in q.includes:
        flags.append("-I" + (i if i.startswith("/") else os.path.join(VERIF, i)))
    flags += ["-I" + LIB, "-I" + HARNESS, "-I%s/include" % REPO, "-I%s/src" % REPO,
              "-I%s/deps/clog/include" % REPO]
    flags += ["-include", os.path.join(LIB, "prelude.h")]
    flags += extra
    return cc, flags


def units(q):
    """(path, label) of the translation units of a query: harness, runtime, then /repo sources."""
    h = [q.harness] if isinstance(q.harness, str) else list(q.harness)
    us = [(os.path.join(HARNESS, x), x) for x in h]
    us.append((os.path.join(LIB, "runtime.c"), "runtime.c"))
    us += [(os.path.join(REPO, s), s) for s in q.sources]
    return us


def encode(q, work):
    cc, _ = base_flags(q, None)
    objs = []
    for n, (path, label) in enumerate(units(q) + [(os.path.join(LIB, "libc_models.c"), "libc_models.c")]):
        if not os.path.exists(path):
            raise Inconclusive("source %s is missing" % path)
        _, flags = base_flags(q, label)
        if q.scale and label in q.scale:
            # encode with a smaller compile-time constant (replay uses the file as it is)
            with open(path) as f:
                text = f.read()
            for pat, new in q.scale[label]:
                text = re.sub(pat, new, text, flags=re.M)
            flags = flags + ["-I" + os.path.dirname(path)]
            path = os.path.join(work, "scaled-" + os.path.basename(path))
            with open(path, "w") as f:
                f.write(text)
        obj = os.path.join(work, "%02d.gb" % n)
        cmd = ["goto-cc", "--native-compiler", cc] + flags + ["-c", path, "-o", obj]
        rc, so, se, to = run(cmd, 120)
        if rc != 0 or not os.path.exists(obj):
            raise Inconclusive("goto-cc failed on %s:\n%s%s" % (path, so[-2000:], se[-2000:]))
        objs.append(obj)
    out = os.path.join(work, "all.gb")
    m32 = ["-m32"] if "-m32" in FLAVOURS[q.flavour][2] else []
    rc, so, se, to = run(["goto-cc", "--native-compiler", cc] + m32 + objs + ["-o", out], 120)
    if rc != 0:
        raise Inconclusive("goto-cc link failed:\n%s%s" % (so[-2000:], se[-2000:]))
    return out


def list_functions(goto):
    rc, so, se, to = run(["goto-instrument", "--drop-unused-functions", goto, goto + ".d"], 120)
    src = goto + ".d" if rc == 0 else goto
    rc, so, se, to = run(["goto-instrument", "--show-goto-functions", "--json-ui", src], 120)
    fns = []
    try:
        for m in json.loads(so):
            for f in m.get("functions", []) if isinstance(m, dict) else []:
                if f.get("isBodyAvailable") and not f.get("isInternal", False):
                    name = f["name"]
                    loc = ""
                    for ins in f.get("instructions", []):
                        loc = ins.get("sourceLocation", {}).get("file", "")
                        if loc:
                            break
                    if loc.startswith(REPO + "/"):
                        fns.append(name)
    except Exception:
        pass
    return sorted(set(fns))


_loops = {}


def fn_limits(q, goto):
    """Per-function loop limits (unwind_fn), for those of the functions that exist and have loops."""
    if not q.unwind_fn:
        return []
    if goto not in _loops:
        rc, so, se, to = run(["goto-instrument", "--show-loops", goto], 60)
        _loops[goto] = re.findall(r"^Loop ([\w.$]+)\.(\d+):", so, re.M)
    return ["%s.%s:%d" % (f, n, q.unwind_fn[f]) for f, n in _loops[goto] if f in q.unwind_fn]


def cbmc_cmd(q, goto, unwind, extra=(), solver=None):
    solver = solver or q.solver
    cmd = ["cbmc", goto, "--json-ui", "--unwind", str(unwind), "--drop-unused-functions", "--object-bits", "10", "--verbosity", "8"]
    us = list(q.unwindset) + fn_limits(q, goto)
    if us:
        cmd += ["--unwindset", ",".join(us)]
    if q.no_checks:
        cmd += ["--no-standard-checks", "--unwinding-assertions", "--no-malloc-may-fail"]
    else:
        cmd += CBMC_CHECKS + ["--unwinding-assertions"]
    cmd += list(q.flags)
    if solver == "kissat":
        cmd += ["--external-sat-solver", "kissat"]
    cmd += list(extra)
    return cmd


def parse_json_stream(path):
    with open(path, "rb") as f:
        data = f.read().decode("utf-8", "replace")
    try:
        return json.loads(data)
    except ValueError:
        # truncated output (killed): close the array
        i = data.rfind("\n  },")
        if i < 0:
            return []
        try:
            return json.loads(data[:i] + "\n  }\n]")
        except ValueError:
            return []


def solver_env(q):
    """CBMC preprocesses its own libc models: give it 32-bit headers for 32-bit encodings."""
    env = dict(os.environ)
    if "-m32" in FLAVOURS[q.flavour][2]:
        env["CPATH"] = "/usr/i686-linux-gnu/include"
    return env


def race(q, goto, unwind, work, tag, budget, extra):
    """Run the built-in SAT solver; if it is slow, kissat on the same formula beside it. First answer wins."""
    out = os.path.join(work, "cbmc-%s.json" % tag)
    env = solver_env(q)
    env["TMPDIR"] = work
    t0 = time.time()
    entrants = [("builtin", 0.0), ("kissat", KISSAT_AFTER)] if q.solver is None else [(q.solver, 0.0)]
    box, cond = {}, threading.Condition()
    children = {}

    def entrant(name, delay):
        with cond:
            if delay and cond.wait_for(lambda: any(x[0] in (0, 10) for x in box.values()), delay):
                return
        path = "%s.%s" % (out, name)
        try:
            r = run(cbmc_cmd(q, goto, unwind, extra, name), max(1, budget - (time.time() - t0)), q.mem_gb,
                    stdout_path=path, env=env, started=lambda p: children.__setitem__(name, p))
        except Exception as e:
            r = (-1, "", str(e), False)
        with cond:
            box[name] = r
            cond.notify_all()

    threads = [threading.Thread(target=entrant, args=e, daemon=True) for e in entrants]
    for t in threads:
        t.start()
    with cond:
        cond.wait_for(lambda: any(x[0] in (0, 10) for x in box.values()) or
                      len(box) == len(entrants) or
                      # a definite failure (not a timeout) before the second entrant starts
                      any(not x[3] for x in box.values()) and time.time() - t0 < KISSAT_AFTER)
        win = next((n for n, x in box.items() if x[0] in (0, 10)), None) or next(iter(box))
        res = box[win]
        box.setdefault("done", (0, "", "", False))
        cond.notify_all()
    for n, p in list(children.items()):
        if n not in box:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
    for t in threads:
        t.join()
    os.replace("%s.%s" % (out, win), out)
    return res, win


def solve(q, goto, unwind, work, tag, deadline, extra=()):
    out = os.path.join(work, "cbmc-%s.json" % tag)
    budget = max(1, min(q.timeout, deadline - time.time()))
    t0 = time.time()
    (rc, _, se, to), winner = race(q, goto, unwind, work, tag, budget, extra)
    wall = time.time() - t0
    res = {"rc": rc, "wall": wall, "timeout": to, "solver": winner, "properties": None, "solver_s": 0.0, "stats": {}, "err": ""}
    for m in parse_json_stream(out):
        if "result" in m:
            res["properties"] = m["result"]
        t = m.get("messageText", "")
        if m.get("messageType") == "ERROR":
            res["err"] += t + "\n"
        mt = re.match(r"Runtime Solver: ([\d.e+-]+)s", t)
        if mt:
            res["solver_s"] += float(mt.group(1))
        mt = re.match(r"(\d+) variables, (\d+) clauses", t)
        if mt:
            res["stats"]["variables"] = int(mt.group(1))
            res["stats"]["clauses"] = int(mt.group(2))
        mt = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if mt:
            res["stats"]["vccs"] = int(mt.group(1))
            res["stats"]["vccs_to_solver"] = int(mt.group(2))
        mt = re.match(r"size of program expression: (\d+) steps", t)
        if mt:
            res["stats"]["steps"] = int(mt.group(1))
    if not res["properties"] and rc not in (0, 10) or res["err"] and rc not in (0, 10):
        res["err"] += se[-1000:]
    return res


def is_unwind(p):
    return ".unwind." in p["property"] or p["description"].startswith("unwinding assertion") or \
        ".recursion" in p["property"]


def is_witness(p):
    return p["description"].startswith("witness: ")


def nobody(p):
    return p["description"].startswith("no body for") or ".no-body" in p["property"]


def trace_inputs(path):
    """Values assigned to vf_nd_log, in order, from a CBMC JSON trace."""
    vals = []
    for m in parse_json_stream(path):
        for r in m.get("result", []) if isinstance(m, dict) else []:
            if r.get("status") != "FAILURE" or "trace" not in r:
                continue
            for s in r["trace"]:
                if s.get("stepType") == "assignment" and s.get("lhs") == "vf_nd_log":
                    v = s["value"]
                    if "binary" in v:
                        vals.append(int(v["binary"], 2))
                    else:
                        vals.append(int(re.match(r"-?\d+", v.get("data", "0")).group(0)))
            # the first recorded assignment is the static initialiser
            return vals[1:]
    return None


REPLAY_BUILDS = [
    ("asan", ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment"]),
    ("pattern", ["-O1", "-ftrivial-auto-var-init=pattern"]),
    ("msan", None),
]


def build_replay(q, work, kind):
    cc, _ = base_flags(q, None)
    sysroot = []
    if kind == "asan":
        san = ["-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
               "-fno-sanitize=alignment"]
        if q.nosan:
            san = ["-O0"]
    elif kind == "pattern":
        san = ["-O1", "-ftrivial-auto-var-init=pattern"]
    else:
        if FLAVOURS[q.flavour][2][:1] == ["-m32"]:
            return None
        cc = "clang"
        san = ["-O0", "-fsanitize=memory", "-fno-sanitize-recover=all"]
    if cc.startswith("i686-"):
        sysroot = ["-Wl,--dynamic-linker=/usr/i686-linux-gnu/lib/ld-linux.so.2",
                   "-Wl,-rpath,/usr/i686-linux-gnu/lib"]
    objs = []
    for n, (path, label) in enumerate(units(q)):
        _, flags = base_flags(q, label)
        obj = os.path.join(work, "r-%s-%02d.o" % (kind, n))
        cmd = [cc] + flags + ["-DVF_REPLAY=1", "-w", "-g", "-ffunction-sections", "-fdata-sections"] + san + ["-c", path, "-o", obj]
        rc, so, se, to = run(cmd, 120)
        if rc != 0:
            log("replay compile failed:", se[-2000:])
            return None
        objs.append(obj)
    exe = os.path.join(work, "replay-" + kind)
    m32 = ["-m32"] if "-m32" in FLAVOURS[q.flavour][2] else []
    rc, so, se, to = run([cc] + m32 + san + objs + sysroot + ["-Wl,--gc-sections", "-lm", "-lpthread", "-o", exe], 120)
    if rc != 0:
        log("replay link failed:", se[-2000:])
        return None
    return exe


def run_replay(exe, inputs_path, timeout=20):
    env = dict(os.environ, VF_INPUT=inputs_path, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0",
               UBSAN_OPTIONS="print_stacktrace=0")
    rc, so, se, to = run([exe], timeout, None, env=env)
    return rc, so, se, to


def replay(q, work, inputs_path):
    """Run the counterexample on natively built code: (confirmed, description)."""
    notes = []
    for kind, _ in REPLAY_BUILDS:
        exe = os.path.join(work, "replay-" + kind)
        if not os.path.exists(exe):
            exe = build_replay(q, work, kind)
        if exe is None:
            notes.append("%s: build not available" % kind)
            continue
        rc, so, se, to = run_replay(exe, inputs_path)
        first = (so.strip().splitlines() or [""])[-1]
        err = next((l for l in se.splitlines() if "ERROR" in l or "runtime error" in l or "WARNING: MemorySan" in l), "")
        if to:
            return True, "%s build: does not terminate on this input" % kind
        if rc == 77:
            notes.append("%s: %s" % (kind, first))
            continue
        if rc != 0:
            return True, "%s build: %s" % (kind, (first + " " + err).strip() or "exit status %d" % rc)
        notes.append("%s: passed" % kind)
    return False, "; ".join(notes)


def check_query(q, prop, tier, deadline, keep):
    work = tempfile.mkdtemp(prefix="vf-%s-%s-" % (prop, q.name))
    t0 = time.time()
    rec = {"query": q.name, "flavour": q.flavour, "harness": q.harness, "sources": list(q.sources),
           "bounds": q.bounds, "verdict": None, "solver_s": 0.0, "queries": 0, "discharged": 0,
           "witnesses": [], "failures": []}
    try:
        goto = encode(q, work)
        rec["functions_encoded"] = list_functions(goto)
        res = None
        for unwind in q.unwind:
            res = solve(q, goto, unwind, work, "u%d" % unwind, deadline)
            rec["solver_s"] += res["solver_s"]
            rec["unwind"] = unwind
            rec["formula"] = res["stats"]
            rec["solver"] = "minisat 2.2.1 (built into cbmc)" if res["solver"] == "builtin" else res["solver"]
            if res["timeout"]:
                raise Inconclusive("solver budget exhausted after %.0f s (unwind %d)" % (res["wall"], unwind))
            if res["properties"] is None:
                raise Inconclusive("cbmc gave no result: rc=%s %s" % (res["rc"], res["err"][-1500:]))
            bad = [p for p in res["properties"] if p["status"] == "FAILURE" and not is_witness(p)]
            missing = [p["description"] for p in bad if nobody(p)]
            if missing:
                raise Inconclusive("encoding is incomplete: " + ", ".join(missing))
            hard = [p for p in bad if not is_unwind(p)]
            if hard or not bad:
                break
        unk = [p for p in res["properties"] if p["status"] not in ("SUCCESS", "FAILURE")]
        wit = [p for p in res["properties"] if is_witness(p)]
        rec["queries"] = len(res["properties"])
        rec["discharged"] = len([p for p in res["properties"] if p["status"] == "SUCCESS" and not is_witness(p)])
        rec["witnesses"] = [p["description"][9:] + (": reached" if p["status"] == "FAILURE" else ": NOT reached")
                            for p in wit]
        if not bad:
            if unk:
                raise Inconclusive("undetermined: %s" % unk[0]["property"])
            dead = [p["description"] for p in wit if p["status"] != "FAILURE"]
            if dead or not wit:
                raise Inconclusive("vacuous: %s" % (", ".join(dead) or "no witness in harness"))
            rec["verdict"] = "held"
            # fidelity: replay one witness path on the real code
            if tier == "thorough" or os.environ.get("VF_VALIDATE"):
                validate_witness(q, goto, unwind, work, wit, rec, deadline)
        else:
            analyse(q, prop, goto, unwind, work, bad, rec, deadline)
    except Inconclusive as e:
        rec["verdict"] = "no answer"
        rec["why"] = str(e)
    finally:
        rec["wall_s"] = round(time.time() - t0, 2)
        if keep:
            print("kept", work, file=sys.stderr)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rec


def validate_witness(q, goto, unwind, work, wit, rec, deadline):
    ok = []
    for w in wit:
        tag = "w%d" % len(ok)
        r = solve(q, goto, unwind, work, tag, deadline, ["--property", w["property"], "--trace"])
        vals = trace_inputs(os.path.join(work, "cbmc-%s.json" % tag))
        if vals is None:
            continue
        p = os.path.join(work, "w.txt")
        with open(p, "w") as f:
            f.write("\n".join(map(str, vals)) + "\n")
        exe = os.path.join(work, "replay-asan")
        if not os.path.exists(exe):
            exe = build_replay(q, work, "asan")
        if exe is None:
            break
        rc, so, se, to = run_replay(exe, p)
        label = w["description"][9:]
        reached = ("VF_REACHED: " + label) in so
        ok.append({"witness": label, "inputs": vals[:64], "native_reached": reached, "native_rc": rc})
        if not reached or rc != 0:
            log("witness not validated:", q.name, label, rc, so[-500:], se[-800:])
    rec["validated"] = ok


def analyse(q, prop, goto, unwind, work, bad, rec, deadline):
    """Replay counterexamples; decide violated / no answer."""
    hard = [p for p in bad if not is_unwind(p)]
    order = hard or bad
    # harness assertions first, then automatic checks; at most six attempts
    order = sorted(order, key=lambda p: (not p["description"].startswith("vf: "), p["property"]))
    spurious = []
    for n, p in enumerate(order[:6]):
        tag = "t%d" % n
        solve(q, goto, unwind, work, tag, deadline, ["--property", p["property"], "--trace"])
        vals = trace_inputs(os.path.join(work, "cbmc-%s.json" % tag))
        if vals is None:
            spurious.append("%s: no trace" % p["property"])
            continue
        inp = os.path.join(work, "input-%d.txt" % n)
        with open(inp, "w") as f:
            f.write("\n".join(map(str, vals)) + "\n")
        confirmed, why = replay(q, work, inp)
        loc = p.get("sourceLocation", {})
        where = "%s:%s" % (loc.get("file", "?"), loc.get("line", "?"))
        if confirmed:
            d = os.path.join(EVIDENCE, "replay", "%s-%s" % (prop, q.name))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copy(inp, os.path.join(d, "input.txt"))
            with open(os.path.join(d, "replay.json"), "w") as f:
                json.dump({"property": prop, "query": q.name, "failed": p["description"], "at": where,
                           "replay": why, "unwind": unwind,
                           "how": "python3 /verif/tools/vf.py replay %s %s %s/input.txt" % (prop, q.name, d)}, f, indent=1)
            rec["verdict"] = "violated"
            rec["failures"].append({"failed": p["description"], "at": where, "replay": why, "dir": d})
            return
        spurious.append("%s at %s: %s (%s)" % (p["property"], where, p["description"], why))
    rec["verdict"] = "no answer"
    rec["why"] = "counterexample not reproduced by the real code: " + " | ".join(spurious)


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def show_known(prop, queries):
    for k in load_known().get("known", []):
        if k["property"] != prop:
            continue
        q = next((x for x in queries if x.name == k["query"]), None)
        if q is None:
            continue
        work = tempfile.mkdtemp(prefix="vf-known-")
        try:
            q2 = Query(**{**q.__dict__, "defines": list(q.defines) + ["VF_KNOWN_INCLUDED=1"]})
            inp = os.path.join(work, "in.txt")
            with open(inp, "w") as f:
                f.write("\n".join(map(str, k["inputs"])) + "\n")
            confirmed, why = replay(q2, work, inp)
            if confirmed:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                print("note: known finding %s no longer reproduces (%s)" % (k["id"], why))
        finally:
            shutil.rmtree(work, ignore_errors=True)


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--only", action="append")
    c.add_argument("--keep", action="store_true")
    c.add_argument("--jobs", type=int, default=0)
    c.add_argument("--no-evidence", action="store_true")
    c.add_argument("-v", action="store_true")
    r = sub.add_parser("replay")
    r.add_argument("property")
    r.add_argument("query")
    r.add_argument("input")
    sub.add_parser("list")
    a = ap.parse_args()

    sys.path.insert(0, HERE)
    import specs
    if a.cmd == "list":
        for k in sorted(specs.CHECKS):
            for q in specs.CHECKS[k]:
                print(k, q.name, q.tier, q.flavour, q.bounds)
        return 0
    if a.cmd == "replay":
        VERBOSE = True
        q = next(x for x in specs.CHECKS[a.property] if x.name == a.query)
        work = tempfile.mkdtemp(prefix="vf-replay-")
        try:
            confirmed, why = replay(q, work, a.input)
            print(("FAILS: " if confirmed else "passes: ") + why)
            return 1 if confirmed else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)

    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    VERBOSE = a.v
    prop, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    deadline = t0 + (820 if tier == "quick" else 6 * 3600)
    queries = [q for q in specs.CHECKS[prop] if tier == "thorough" or q.tier == "quick"]
    # a thorough query replaces the quick one it deepens
    if tier == "thorough":
        deeper = {q.name[:-5] for q in queries if q.name.endswith("-deep")}
        queries = [q for q in queries if q.name not in deeper]
    if a.only:
        queries = [q for q in specs.CHECKS[prop] if q.name in a.only]
    jobs = a.jobs or min(8, os.cpu_count() or 4)
    recs = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(check_query, q, prop, tier, deadline, a.keep) for q in queries]
        for f in futs:
            r = f.result()
            recs.append(r)
            log("%-28s %-10s %6.1fs solver %.1fs unwind %s props %s %s" % (
                r["query"], r["verdict"], r["wall_s"], r["solver_s"], r.get("unwind"), r["queries"],
                r.get("why", "") or "; ".join("%(failed)s at %(at)s [%(replay)s]" % x for x in r["failures"])))
            for w in r["witnesses"]:
                if "NOT" in w:
                    log("   witness", w)
    violated = [r for r in recs if r["verdict"] == "violated"]
    unanswered = [r for r in recs if r["verdict"] == "no answer"]
    if not violated:
        show_known(prop, queries)

    if not a.no_evidence and not a.only:
        fns = sorted({f for r in recs for f in r.get("functions_encoded", [])})
        ev = {
            "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": {
                "explanation": "Bounded model checking with CBMC of /repo's current sources: every assertion, "
                               "automatic memory/arithmetic check and unwinding assertion below was decided by the "
                               "SAT solver for all inputs within the stated bounds; reachability witnesses show the "
                               "encodings are not vacuous.",
                "encodings": len(recs),
                "assertions_decided": sum(r["queries"] for r in recs),
                "assertions_discharged": sum(r["discharged"] for r in recs),
                "witnesses_reached": sum(1 for r in recs for w in r["witnesses"] if w.endswith(": reached")),
                "solver_time_s": round(sum(r["solver_s"] for r in recs), 2),
                "functions_encoded": fns,
                "details": recs,
            },
            "assumptions": sorted({x for q in queries for x in q.assumptions}),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violated),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))

    for r in recs:
        extra = r.get("why", "")
        for x in r["failures"]:
            extra += " %(failed)s at %(at)s; replay on the real code: %(replay)s" % x
        print("%s/%s: %s %s" % (prop, r["query"], r["verdict"], extra))
    for r in violated:
        print("VIOLATION property=%s replay=%s" % (prop, r["failures"][0]["dir"]))
    if violated:
        return 1
    if unanswered:
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    finally:
        with _procs_lock:
            for p in list(_procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    pass
