"""Generates and discharges the obligations of one contract function."""
import math
import os
import signal
import subprocess
import sys
import tempfile
import time
import z3
import execu
import sym
import wide
import loops
from sym import State, Unsupported, DeadPath, bz, b_and, b_not
from execu import Engine


def generate(mod, fname, opts, dem, log=None):
    """symbolic execution of one contract; loops without a small constant bound are cut (restart with the loop cut)"""
    sys.setrecursionlimit(200000)
    cut = set()
    while True:
        e = Engine(mod, opts)
        wide.reset()
        sym.NODES.clear()
        e.dem = dem
        e.cut_loops = cut
        loops.policy(e)
        st = State((), {})
        fn = mod.fns[fname]
        ended = False
        try:
            v, ns = e.run_fn(fn, [], st, 0)
            ended = True
            e.covers.append(("end of contract reachable", ns.g(), len(e.assumes)))
        except DeadPath:
            pass
        except loops.NeedCut as x:
            if x.key in cut:
                raise Unsupported("loop cut twice")
            cut.add(x.key)
            if log:
                log("cutting loop %s" % (x.key,))
            continue
        return e, ended


def smt2_of(parts):
    s = z3.Solver()
    for p in parts:
        s.add(p)
    return s.to_smt2()


def external(cmd, smt, timeout):
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    try:
        f.write(smt)
        f.close()
        r = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return o
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(f.name)


def lin_parts(t):
    """bit-vector sum as (constant, {id: (coef, term)})"""
    w = t.size()
    M = (1 << w) - 1
    c, d = 0, {}
    st = [(1, t)]
    while st:
        k, x = st.pop()
        if z3.is_bv_value(x):
            c = (c + k * x.as_long()) & M
        elif z3.is_app_of(x, z3.Z3_OP_BADD):
            st += [(k, y) for y in x.children()]
        elif z3.is_app_of(x, z3.Z3_OP_BSUB):
            st += [(k, x.arg(0)), (-k, x.arg(1))]
        elif z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
            st.append((k * x.arg(0).as_long(), x.arg(1)))
        else:
            o = d.get(x.get_id(), (0, x))[0]
            d[x.get_id()] = ((o + k) & M, x)
    return c, d


def strengthen(c):
    """a formula implying c: k*a == k*b follows from a == b (the quotient is much easier for the solvers)"""
    if isinstance(c, bool):
        return None
    if z3.is_and(c) or z3.is_or(c):
        ch = [strengthen(x) for x in c.children()]
        if all(x is None for x in ch):
            return None
        ch = [x if x is not None else y for x, y in zip(ch, c.children())]
        return z3.And(*ch) if z3.is_and(c) else z3.Or(*ch)
    if z3.is_eq(c) and z3.is_bv(c.arg(0)):
        w = c.arg(0).size()
        k, d = lin_parts(c.arg(0) - c.arg(1))
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        g = abs(sg(k))
        for co, _ in d.values():
            g = math.gcd(g, abs(sg(co)))
        if g > 1:
            s = z3.BitVecVal(sg(k) // g, w)
            for co, x in d.values():
                s = s + z3.BitVecVal(sg(co) // g, w) * x
            return s == 0
    return None


def start_external(cmd, smt):
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write(smt)
    f.close()
    return subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True), f.name


def query(parts, timeout, easier=None, model=True):
    """-> (result, backend, seconds, model).  A portfolio: z3 in process, then z3 and cvc5 side by side."""
    t = time.time()
    if easier is not None:
        r, be, _, _ = query(easier, min(timeout, 20))
        if r == "unsat":
            return r, be, time.time() - t, None
    s = z3.Solver()
    s.set("timeout", int(min(timeout, 2) * 1000))
    for p in parts:
        s.add(p)
    r = s.check()
    if r == z3.unsat:
        return "unsat", "z3", time.time() - t, None
    if r == z3.sat:
        return "sat", "z3", time.time() - t, s.model()
    # other back ends, as separate processes next to a second z3 strategy in this one
    smt = "(set-logic ALL)\n" + s.to_smt2()
    for op in ("bvsdiv", "bvudiv", "bvsrem", "bvurem", "bvsmod"):
        smt = smt.replace(op + "_i", op)
    ext = [("cvc5-int", *start_external(["cvc5", "--solve-bv-as-int=sum", "--tlimit=%d" % int(timeout * 1000)], smt)),
           ("cvc5", *start_external(["cvc5", "--tlimit=%d" % int(timeout * 1000)], smt)),
           ("z3", *start_external(["z3", "-T:%d" % int(timeout)], smt)),
           ("z3-new", *start_external(["z3-new", "-T:%d" % int(timeout)], smt))]
    notes, won, satby = [], None, None
    while ext and won is None and satby is None and time.time() - t < timeout + 8:
        for x in list(ext):
            if x[1].poll() is None:
                continue
            o = x[1].stdout.read().strip().split("\n")[0]
            ext.remove(x)
            os.unlink(x[2])
            notes.append("%s:%s" % (x[0], o or "?"))
            if o == "unsat":
                won = x[0]
            elif o == "sat":
                satby = x[0]
        time.sleep(0.02)
    for x in ext:
        x[1].kill()
        x[1].wait()
        os.unlink(x[2])
    if won:
        return "unsat", won, time.time() - t, None
    if satby and not model:
        return "sat", satby, time.time() - t, None
    if satby:
        s2 = z3.Then("simplify", "solve-eqs", "smt").solver()
        s2.set("timeout", int(timeout * 1000))
        for p in parts:
            s2.add(p)
        r = s2.check()
        return "sat", satby, time.time() - t, s2.model() if r == z3.sat else None
    return "unknown(%s)" % ", ".join(notes), "z3+cvc5", time.time() - t, None


def parts_of(e, ob):
    ps = [a for a in e.assumes[:ob.nassume]] + list(e.axioms) + [bz(ob.guard), z3.Not(bz(ob.cond))]
    return ps + wide.links(ps)


def easier_parts(e, ob):
    s = strengthen(bz(ob.cond))
    if s is None:
        return None
    ps = [a for a in e.assumes[:ob.nassume]] + list(e.axioms) + [bz(ob.guard), z3.Not(s)]
    return ps + wide.links(ps)


def model_inputs(e, m):
    vals = {}
    idx = {}
    for name, bits, t in e.inputs:
        v = m.eval(t, model_completion=True)
        k = idx.get(name, 0)
        idx[name] = k + 1
        vals["%s#%d" % (name, k)] = v.as_long()
    for name, bits, W in e.wides:
        _, f, inst = wide.WIDE[W.get_id()]
        raw = m[W] is not None
        v = m.eval(W, model_completion=True).as_long() if raw else 0
        for k in range(0 if raw else bits):
            if z3.is_true(m.eval(f(z3.BitVecVal(k, 64)), model_completion=True)):
                v |= 1 << k
        for k in range(bits // 64):
            vals["%s#%d" % (name, k)] = (v >> (64 * k)) & ((1 << 64) - 1)
    for name, oid, n, stride, content in e.arrays:
        ln = m.eval(n, model_completion=True).as_long()
        vals["len:" + name] = ln
        if ln > 4096:
            continue
        for i in range(ln):
            for (fo, w), node in content.fields.items():
                x = m.eval(node.fn(z3.BitVecVal(i, 64)), model_completion=True)
                try:
                    vals["%s[%d]@%d" % (name, i, fo)] = x.as_long()
                except Exception:
                    pass
    return vals


def discharge(e, timeout, procs, log=None, deadline=None):
    """returns list of dicts, one per obligation (in order)"""
    obls = e.obls
    n = len(obls)
    res = [None] * n
    # group: obligations with identical formula are proved once
    todo = list(range(n))
    # fork workers. A worker sends one record per obligation. z3's timer threads do not survive a fork, and in rare cases
    # a worker deadlocks on them: a worker that is asleep without child processes is replaced, its obligations are redone
    import pickle
    import select
    import signal
    import struct
    procs = max(1, min(procs, n))
    chunks = [todo[k::procs] for k in range(procs)]
    live = {}

    def work(k):
        ob = obls[k]
        if deadline and time.time() > deadline:
            return (k, "unknown(time budget)", "-", 0.0, None)
        try:
            rr, be, sec, m = query(parts_of(e, ob), timeout, easier_parts(e, ob))
            inp = None
            if rr == "sat":
                m2 = small_model(e, ob) or m
                inp = model_inputs(e, m2) if m2 is not None else None
            return (k, rr, be, sec, inp)
        except Exception as x:  # noqa
            return (k, "unknown(%r)" % (x,), "-", 0.0, None)

    def start(ch, tries):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for k in ch:
                    d = pickle.dumps(work(k))
                    os.write(w, struct.pack("<I", len(d)) + d)
            finally:
                os._exit(0)
        os.close(w)
        live[r] = dict(pid=pid, todo=list(ch), buf=b"", cpu=None, since=time.time(), tries=tries)

    def idle(pid):
        try:
            with open("/proc/%d/task/%d/children" % (pid, pid)) as f:
                if f.read().strip():
                    return None
            with open("/proc/%d/stat" % pid) as f:
                t = f.read().rsplit(")", 1)[1].split()
            return (t[11], t[12])
        except OSError:
            return None

    for ch in chunks:
        start(ch, 0)
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in list(live):
            x = live[r]
            ended = False
            if r in rd:
                d = os.read(r, 1 << 20)
                x["buf"] += d
                ended = not d
                while len(x["buf"]) >= 4:
                    ln = struct.unpack("<I", x["buf"][:4])[0]
                    if len(x["buf"]) < 4 + ln:
                        break
                    k, rr, be, sec, inp = pickle.loads(x["buf"][4:4 + ln])
                    x["buf"] = x["buf"][4 + ln:]
                    res[k] = dict(result=rr, backend=be, seconds=sec, inputs=inp)
                    x["todo"].remove(k)
                    x["since"] = time.time()
            else:
                c = idle(x["pid"])
                if c is None or c != x["cpu"]:
                    x["cpu"], x["since"] = c, time.time()
                elif time.time() - x["since"] > 6:
                    os.kill(x["pid"], signal.SIGKILL)
                    ended = True
            if ended:
                os.close(r)
                os.waitpid(x["pid"], 0)
                del live[r]
                if x["todo"] and x["tries"] < 3:
                    start(x["todo"], x["tries"] + 1)
    for k in range(n):
        if res[k] is None:
            res[k] = dict(result="unknown(worker died)", backend="-", seconds=0.0, inputs=None)
        ob = obls[k]
        res[k].update(name=ob.name, kind=ob.kind, where=ob.where)
    return res


def small_model(e, ob):
    """prefer a counterexample with short arrays"""
    if not e.arrays:
        return None
    for lim in (3, 6, 12):
        s = z3.Solver()
        s.set("timeout", 5000)
        for p in parts_of(e, ob):
            s.add(p)
        for name, oid, n, stride, content in e.arrays:
            s.add(z3.ULE(n, lim))
        if s.check() == z3.sat:
            return s.model()
    return None


def check_covers(e, timeout=30):
    bad = []
    for name, g, na in e.covers:
        s = z3.Solver()
        s.set("timeout", timeout * 1000)
        for a in e.assumes[:na]:
            s.add(a)
        for a in e.axioms:
            s.add(a)
        s.add(bz(g))
        r = s.check()
        if r == z3.unsat:
            bad.append(name)
    return bad
