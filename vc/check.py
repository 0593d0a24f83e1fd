#!/usr/bin/env python3
"""Decides one property: proves every contract of the property against the current sources in /repo.

usage: check.py PROPERTY [--tier quick|thorough] [--only NAME] [-v]
       check.py --replay FILE          (re-runs a recorded failing input on the real code)
exit 0: every obligation discharged;  exit 1: VIOLATION lines
"""
import argparse
import faulthandler
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3  # noqa
except ImportError:
    import shutil as _s
    p = _s.which("python3-vt") or PY
    os.execv(p, [p, *sys.argv])

import build
import llvmir
import prove
import sym
from props import PROPS

VERIF = build.VERIF
TRUSTED = [
    "clang 18 front end and the 'light' opt pipeline (inlining, mem2reg, dead-block removal) of LLVM 18: the obligations are generated from the LLVM IR they produce from /repo's sources",
    "the verification-condition generator /verif/vc (LLVM IR semantics, memory model, loop rule)",
    "SMT back ends z3 4.x and cvc5 (no proof objects are checked)",
    "the C++ standard library headers (libstdc++ 13) as compiled: their code is verified along with the caller, not assumed",
    "operator new does not fail and returns fresh memory",
]


def log(*a):
    print(*a, flush=True)


class Timer:
    def __init__(self, secs):
        self.t0, self.secs = time.time(), secs

    def left(self):
        return self.secs - (time.time() - self.t0)


def contract_names(src):
    txt = open(src).read()
    return txt


def gen_and_discharge(irf, fname, dem, opts, timeout, procs, deadline):
    sys.setrecursionlimit(200000)
    m = llvmir.Module(irf)
    t = time.time()
    out = dict(fn=fname, gen_error=None, obls=[], bad_covers=[], trivial=0, loops_unrolled={}, loops_cut=[], fns=[])
    try:
        e, ended = prove.generate(m, fname, opts, dem)
    except sym.Unsupported as x:
        out["gen_error"] = "outside the verifier's reach: %s" % (x,)
        out["gen_s"] = time.time() - t
        return out
    except Exception as x:
        out["gen_error"] = "obligation generation failed: %r" % (x,)
        out["trace"] = traceback.format_exc()[-3000:]
        out["gen_s"] = time.time() - t
        return out
    out["gen_s"] = time.time() - t
    out["obls"] = prove.discharge(e, timeout, procs, deadline=deadline)
    out["trivial"] = e.trivial
    out["loops_unrolled"] = dict(e.loops_unrolled)
    out["loops_cut"] = {str(k): v for k, v in e.loops_cut.items()}
    out["bad_covers"] = prove.check_covers(e)
    if not ended:
        out["bad_covers"].append("the contract can never run to its end")
    return out


class Job:
    def __init__(self, fn, *a, limit=None):
        r, w = os.pipe()
        self.t0 = time.time()
        self.limit = limit
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            faulthandler.register(signal.SIGUSR1, all_threads=True)
            try:
                res = ("ok", fn(*a))
            except BaseException as x:  # noqa
                res = ("err", "%r\n%s" % (x, traceback.format_exc()[-3000:]))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
        os.close(w)
        os.set_blocking(r, False)
        self.r = r
        self.buf = b""
        self.done = False
        self.res = None

    def poll(self):
        if self.done:
            return True
        while True:
            try:
                d = os.read(self.r, 1 << 20)
            except BlockingIOError:
                break
            if not d:
                self.finish()
                return True
            self.buf += d
        if self.limit and time.time() - self.t0 > self.limit:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except OSError:
                pass
            self.finish(("err", "time limit"))
            return True
        return False

    def finish(self, res=None):
        os.close(self.r)
        os.waitpid(self.pid, 0)
        self.done = True
        if res is None:
            try:
                res = pickle.loads(self.buf)
            except Exception:
                res = ("err", "worker died (out of memory?)")
        self.res = res


def project_function(d):
    """The qualified name (template arguments and result type dropped) of a function of the project, else None."""
    head, depth = "", 0
    for c in d:
        if c == "<" and not head.endswith("operator"):
            depth += 1
        elif c == ">" and depth:
            depth -= 1
        elif depth == 0:
            if c == "(" and not head.endswith("operator"):
                break
            head += c
    if "operator" in head:
        name = head[head.rfind(" ", 0, head.index("operator")) + 1:]
    else:
        name = head.split(" ")[-1]
    return name if name.startswith("soro::") and "(anonymous" not in d else None


def run_jobs(specs, par):
    """specs: list of (key, fn, args, limit) -> dict key -> ('ok', value) | ('err', text)"""
    pend, run, out = list(specs), {}, {}
    while pend or run:
        while pend and len(run) < par:
            k, fn, a, lim = pend.pop(0)
            run[k] = Job(fn, *a, limit=lim)
        for k in list(run):
            if run[k].poll():
                out[k] = run.pop(k).res
        time.sleep(0.02)
    return out


def native(binp, args, secs):
    try:
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1:log_path=/dev/null")
        r = subprocess.run([binp, *args], capture_output=True, text=True, timeout=secs + 60, env=env, errors="replace")
        return r.returncode, r.stdout[-8000:]
    except subprocess.TimeoutExpired:
        return 3, "timeout"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay_cmd(a.replay)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    cfg = PROPS[prop]
    t0 = time.time()
    budget = Timer(620 if tier == "quick" else 3000)
    outdir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    bdir = os.path.join(VERIF, "build", "%s.%d" % (prop, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        code = decide(prop, cfg, tier, seed, budget, outdir, bdir, a, t0)
    finally:
        if not a.keep:
            shutil.rmtree(bdir, ignore_errors=True)
    return code


def decide(prop, cfg, tier, seed, budget, outdir, bdir, a, t0):
    violations = []        # (text, replay path, has input)
    files = cfg["files"]
    flags = ["-DVC_THOROUGH"] if tier == "thorough" else []
    # ---- build IR and native program per contract file
    specs = []
    for k, (src, fo) in enumerate(files):
        fo = dict(fo)
        fo["flags"] = fo.get("flags", []) + flags
        srcp = os.path.join(VERIF, "contracts", src)
        specs.append((("ir", k), build.emit_ir, (srcp, "%s/%d.ll" % (bdir, k), fo), 300))
        specs.append((("nat", k), build.build_native, (srcp, "%s/%d.bin" % (bdir, k), fo), 300))
    built = run_jobs(specs, 8)
    allc = []     # (file index, function, kind, name)
    fns_under = {}
    for k, (src, fo) in enumerate(files):
        for kind in ("ir", "nat"):
            st, v = built[(kind, k)]
            if st == "err":
                p = os.path.join(outdir, "build-%s.json" % src)
                json.dump(dict(property=prop, obligation="the contracts in %s apply to the current source (it compiles)" % src,
                               verifier_output=v), open(p, "w"), indent=1)
                violations.append(("contracts of %s no longer compile against /repo" % src, p, False))
        if built[("ir", k)][0] == "err":
            log(built[("ir", k)][1][-3000:])
            continue
        calls, dem = built[("ir", k)][1]
        for f in sorted(calls):
            mm = re.match(r"vc_(contract|bounded)__([A-Z]\d+)__(\w+)$", f)
            if not mm or mm.group(2) != prop or (a.only and a.only not in mm.group(3)):
                continue
            # functions of the project reached from this contract
            seen, st = {f}, [f]
            while st:
                for c in calls.get(st.pop(), ()):
                    if c in calls and c not in seen:
                        seen.add(c)
                        st.append(c)
            fns_under[(k, f)] = sorted({u for u in (project_function(dem.get(c, c)) for c in seen) if u})
            allc.append((k, f, mm.group(1), mm.group(3)))
    order = open(os.devnull)
    order.close()
    # heavy contracts first
    hist = cfg.get("heavy", [])
    allc.sort(key=lambda c: (0 if c[3] in hist else 1))
    par = cfg.get("par", 4) if len(allc) > 3 else max(1, len(allc))
    tmo = cfg.get("timeout", 60) * (1 if tier == "quick" else 4)
    deadline = time.time() + budget.left() * 0.75
    specs = []
    for k, f, kind, name in allc:
        opts = dict(files[k][1].get("opts", {}))
        opts.update(cfg.get("contract_opts", {}).get(name, {}))
        if kind == "bounded":
            opts["cut"] = False
        dem = built[("ir", k)][1][1]
        specs.append(((k, f), gen_and_discharge, ("%s/%d.ll" % (bdir, k), f, dem, opts, tmo, 2 if par > 1 else 8, deadline),
                      budget.left() * 0.8))
    res = run_jobs(specs, par)
    # obligations no back end decided in time: once more, one contract at a time and with more time
    for sp in specs:
        st, v = res[sp[0]]
        if st == "ok" and not v["gen_error"] and any(o["result"].startswith("unknown") for o in v["obls"]) \
                and not any(o["result"] == "sat" for o in v["obls"]) and budget.left() > 240:
            a2 = sp[2][:4] + (2 * tmo, 2, time.time() + budget.left() * 0.6)
            again = run_jobs([(sp[0], sp[1], a2, budget.left() * 0.6)], 1)[sp[0]]
            if again[0] == "ok" and not again[1]["gen_error"]:
                res[sp[0]] = again
    # ---- native cross-check: the same contracts executed on the real code
    nsec = 2 if tier == "quick" else 20
    nspecs = []
    for k, f, kind, name in allc:
        if built[("nat", k)][0] == "ok":
            nspecs.append(((k, f), native, ("%s/%d.bin" % (bdir, k),
                          ["search", prop, name, str(nsec), str(seed), "%s/nat-%s.inp" % (bdir, name)], nsec), nsec + 70))
    nres = run_jobs(nspecs, 8)
    # ---- verdicts
    n_obl = n_dis = n_bobl = n_bdis = 0
    be = {}
    solver_s = 0.0
    rows = []
    failing = []    # (k, f, kind, name, obligation, result, inputs)
    natfail = {}
    undecided = []
    for k, f, kind, name in allc:
        st, v = res[(k, f)]
        row = dict(contract=name, kind=kind, file=files[k][0])
        if st == "err" or v["gen_error"]:
            why = v if st == "err" else v["gen_error"] + ("\n" + v.get("trace", "") if v.get("trace") else "")
            row["error"] = why[:300]
            if kind == "bounded":
                # a bounded stand-in is never counted as proved: when it cannot be completed, only execution decides
                undecided.append((k, f))
            else:
                failing.append((k, f, kind, name, "obligations can be generated from the current source", why, None))
        else:
            nt = v["trivial"]
            nd = sum(1 for o in v["obls"] if o["result"] == "unsat")
            if kind == "bounded":
                n_bobl += len(v["obls"]) + nt
                n_bdis += nd + nt
            else:
                n_obl += len(v["obls"]) + nt
                n_dis += nd + nt
                be["simplifier"] = be.get("simplifier", 0) + nt
                for o in v["obls"]:
                    if o["result"] == "unsat":
                        be[o["backend"]] = be.get(o["backend"], 0) + 1
            solver_s += sum(o["seconds"] for o in v["obls"])
            row.update(obligations=len(v["obls"]) + nt, discharged=nd + nt, gen_s=round(v["gen_s"], 2),
                       loops_unrolled=v["loops_unrolled"], loops_by_invariant=v["loops_cut"],
                       slowest_s=round(max([o["seconds"] for o in v["obls"]] or [0]), 2))
            for o in v["obls"]:
                if o["result"] != "unsat":
                    failing.append((k, f, kind, name, "%s [%s]" % (o["name"], o["where"]), o["result"], o["inputs"]))
            for c in v["bad_covers"]:
                failing.append((k, f, kind, name, "not vacuous: %s" % c, "unreachable", None))
        if (k, f) in nres and nres[(k, f)][0] == "ok":
            rc, out = nres[(k, f)][1]
            row["native"] = out.split("\n")[0]
            if rc == 1:
                natfail[(k, f)] = out
            elif rc == 5 and (k, f) in undecided:
                failing.append((k, f, kind, name, "every function the contract reaches is defined in the sources under contract", out[-300:], None))
        rows.append(row)
        if a.v:
            log(json.dumps(row))
    by_contract = {}
    for x in failing:
        by_contract.setdefault((x[0], x[1]), []).append(x)
    for key in natfail:
        by_contract.setdefault(key, [])
    names = {(k, f): (kind, name) for k, f, kind, name in allc}
    for key in undecided:
        by_contract.setdefault(key, [])
    for key, xs in by_contract.items():
        k, f = key
        kind, name = names[key]
        binp = "%s/%d.bin" % (bdir, k)
        rec = dict(property=prop, contract=name, file=files[k][0], kind=kind, flags=flags,
                   failed_obligations=[dict(obligation=x[4], verifier=str(x[5])[:3000]) for x in xs])
        conf = None
        if key in natfail:
            inp = "%s/nat-%s.inp" % (bdir, name)
            conf = ("search on the real code (seed %d)" % seed, open(inp).read() if os.path.exists(inp) else "", natfail[key])
        if conf is None and built[("nat", k)][0] == "ok":
            for j, x in enumerate(xs):
                if x[6] is None:
                    continue
                inp = "%s/cex-%s-%d.inp" % (bdir, name, j)
                with open(inp, "w") as fh:
                    for kk, vv in x[6].items():
                        fh.write("%s %d\n" % (kk, vv))
                rc, out = native(binp, ["replay", prop, name, inp], 30)
                if rc == 1:
                    conf = ("the verifier's counterexample, replayed on the real code", open(inp).read(), out)
                    break
                rec["failed_obligations"][j]["replay"] = out[:400]
        if conf is None and built[("nat", k)][0] == "ok":
            secs = max(5, min(40 if tier == "quick" else 200, budget.left() / max(1, len(by_contract)) * 0.8))
            inp = "%s/s-%s.inp" % (bdir, name)
            js = run_jobs([(s, native, (binp, ["search", prop, name, str(secs), str(seed * 1000 + s), inp + str(s), "2000000000"],
                                        secs), secs + 70) for s in range(8)], 8)
            for s in range(8):
                if js[s][0] == "ok" and js[s][1][0] == 1:
                    conf = ("search on the real code", open(inp + str(s)).read() if os.path.exists(inp + str(s)) else "",
                            js[s][1][1])
                    break
        if key in undecided and not conf and not xs:
            log("bounded contract %s could not be completed: only executed, no failing input found" % name)
            continue
        p = os.path.join(outdir, "%s.json" % name)
        if conf:
            rec.update(found_by=conf[0], input=conf[1].split("\n")[:4000], native_output=conf[2])
        rec["replay_cmd"] = "python3-vt vc/check.py --replay %s" % p
        json.dump(rec, open(p, "w"), indent=1)
        first = xs[0][4] if xs else "native execution of the contract"
        if conf:
            mm = re.search(r"^FAIL (.*)$", conf[2], re.M)
            first = mm.group(1) if mm else first
        violations.append(("%s: %s" % (name, first), p, bool(conf)))
        for x in xs:
            log("failed obligation: contract %s: %s: %s" % (name, x[4], str(x[5])[:600]))
        if conf:
            log("confirmed on the real code by %s:\n%s" % (conf[0], conf[2][:1500]))
    # ---- evidence
    if not allc and not violations:
        p = os.path.join(outdir, "none.json")
        json.dump(dict(property=prop, obligation="contracts exist"), open(p, "w"))
        violations.append(("no contract found", p, False))
    known = [l for l in open(os.path.join(VERIF, "known_findings.txt")).read().split("\n")
             if l.startswith("KNOWN property=%s " % prop)] if os.path.exists(os.path.join(VERIF, "known_findings.txt")) else []
    kind_of = {(k, f): kind for k, f, kind, _ in allc}
    allfns = sorted({u for v in fns_under.values() for u in v})
    proved_fns = sorted({u for kf, v in fns_under.items() if kind_of.get(kf) != "bounded" for u in v})
    level = cfg.get("level", "proof")
    cov = dict(obligations=n_obl, discharged=n_dis,
               checker_cmd="./run %s --tier %s" % (prop, tier), trusted_base=TRUSTED + cfg.get("trusted", []),
               functions_under_contract=proved_fns, functions_count=len(proved_fns), by_backend=be, solver_seconds=round(solver_s, 1),
               bounded=dict(obligations=n_bobl, discharged=n_bdis, note="bounded stand-ins, not counted as proved",
                            contracts=[r["contract"] for r in rows if r["kind"] == "bounded"],
                            functions_reached_only_by_bounded_contracts=[u for u in allfns if u not in set(proved_fns)]),
               contracts=rows, explanation=cfg.get("explanation", ""))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=cfg.get("assumptions", []) + GLOBAL_ASSUMPTIONS + [ASSERTS_ON if all(o.get("asserts") for _, o in cfg["files"]) else
                  ASSERTS_OFF], wall_s=round(time.time() - t0, 1),
              violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for l in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
    log("%s: %d contracts, %d/%d obligations discharged (%s), bounded %d/%d, %d functions of soro under contract, solver %.1f s, wall %.1f s"
        % (prop, len(allc), n_dis, n_obl, ", ".join("%s %d" % kv for kv in sorted(be.items())), n_bdis, n_bobl, len(allfns),
           solver_s, time.time() - t0))
    if violations:
        for text, p, has in violations:
            log("violated: " + text)
        for text, p, has in violations:
            log("VIOLATION property=%s replay=%s%s" % (prop, p, "" if has else " no-failing-input-found"))
        return 1
    return 0


ASSERTS_ON = "the project's runtime assertions (utls::sassert/expect/ensure) are compiled in; each is an obligation"
ASSERTS_OFF = "the project's runtime assertions (utls::sassert/expect/ensure) are compiled out where the contract file is not marked `asserts`, as in the project's own build here (NDEBUG)"
GLOBAL_ASSUMPTIONS = [
    "external dependencies that are not installed (cista, utl) are replaced by small stand-ins in /verif/stubs that state their documented behaviour; the stand-ins are assumed, not proved against the real libraries",
    "the evaluation of an obligation by the simplifier of vc/sym.py is trusted like the solvers",
    "distinct allocations have distinct addresses; integer arithmetic is exact machine arithmetic, floating point is IEEE double",
]


def replay_cmd(path):
    rec = json.load(open(path))
    if "input" not in rec:
        log("no failing input was found for this obligation; the record holds the verifier's output")
        return 1
    bdir = os.path.join(VERIF, "build", "replay.%d" % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        fo = {}
        for src, o in PROPS[rec["property"]]["files"]:
            if src == rec["file"]:
                fo = dict(o)
        fo["flags"] = fo.get("flags", []) + rec.get("flags", [])
        build.build_native(os.path.join(VERIF, "contracts", rec["file"]), bdir + "/r.bin", fo)
        with open(bdir + "/r.inp", "w") as f:
            f.write("\n".join(rec["input"]) + "\n")
        rc, out = native(bdir + "/r.bin", ["replay", rec["property"], rec["contract"], bdir + "/r.inp"], 60)
        log(out)
        return rc
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
