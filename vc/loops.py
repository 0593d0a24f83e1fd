"""Loop rule: a loop whose iterations are not bounded by a constant is cut at its header.

The loop variables (phis and memory cells changed by the body) are discovered by symbolic execution of the body; a
variable that advances by a constant is an exact function of the iteration counter K, the others are havocked.
Candidate invariants (bounds between compared quantities and against the entry values) are filtered by checking that
they hold on entry and are preserved by one arbitrary iteration; what survives is assumed at the header - every use is
justified by those two discharged checks.  History facts ("iteration k < K ran and went round") are instances, at the
ghost points of the contract, of the body's own path condition."""
import time
import z3
import sym
from sym import *

BIG = 1 << 41
DEBUG = False


class NeedCut(Exception):
    def __init__(self, key):
        self.key = key


class Var:
    __slots__ = ("kind", "key", "sort", "v0", "step", "f", "stride", "obj", "n")
    # kind: phi | cell ; sort: int/bool/ptr/fp ; step: constant or None ; f: fresh symbol (non-affine)


def classify(v):
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, Lin)):
        return "int"
    if isinstance(v, Ptr):
        return "ptr"
    if isinstance(v, PSet):
        return "pset"
    if isinstance(v, PInt):
        return "pint"
    if isinstance(v, (list, tuple)):
        return "agg"
    if z3.is_bool(v):
        return "bool"
    if z3.is_fp(v):
        return "fp"
    return "int"


def idiv(l, s):
    return Lin(sgn(l.c, 64) // s, {k: ((sgn(c, 64) // s) & M64, t) for k, (c, t) in l.t.items()}, l.pd)


def divisible(l, s):
    return all(x % s == 0 for x in [sgn(l.c, 64)] + l.coefs())


class Cut:
    def __init__(self, e, fr, h):
        self.e, self.fr, self.h = e, fr, h
        self.body = fr.fn.loops[h]
        self.phis = [i for i in h.insts if i.op == "phi"]
        e.fresh += 1
        self.K = z3.BitVec("K!%d" % e.fresh, 64)
        self.dead = []
        self.kfacts = []

    # -- helpers -----------------------------------------------------
    def dry(self, st, vals):
        e = self.e
        save = (e.obls, e.covers, e.callstack[:], e.trivial, e.solver, e.nsolver_assume, e.nsolver_ax,
                len(e.assumes), dict(self.fr.env), dict(e.loops_unrolled), dict(e.loops_cut), len(e.inputs),
                e.icmp_log, len(self.fr.allocas), e.in_dry)
        e.in_dry = True
        f0 = e.fresh
        e.obls, e.covers, e.icmp_log = [], [], []
        e.solver = z3.Solver()
        e.solver.set("timeout", e.feas_timeout)
        e.nsolver_assume = e.nsolver_ax = 0
        try:
            exits = e.run_region(self.fr, self.body, self.h, [self.arrival(st, vals)], self.h)
            log = e.icmp_log
            # symbols and facts of one arbitrary iteration
            self.fresh0, self.facts = f0, list(e.assumes[save[7]:])
        finally:
            del e.inputs[save[11]:]
            (e.obls, e.covers, e.callstack, e.trivial, e.solver, e.nsolver_assume, e.nsolver_ax) = save[:7]
            del e.assumes[save[7]:]
            self.fr.env = save[8]
            e.loops_unrolled, e.loops_cut = save[9], save[10]
            e.icmp_log = save[12]
            e.in_dry = save[14]
        return [a for t, a in exits if t is self.h], log

    def arrival(self, st, vals):
        from execu import Arrival
        return Arrival(State(st.guard, dict(st.mem)), dict(vals))

    def diff(self, a, b, sort, w):
        """constant b - a, or None"""
        if sort == "int":
            if isinstance(a, int) and isinstance(b, int):
                return sgn(b - a, w)
            d = z3.simplify(self.e.i2bv(b, w) - self.e.i2bv(a, w))
            return sgn(d.as_long(), w) if z3.is_bv_value(d) else None
        if sort == "ptr":
            if not isinstance(b, Ptr) or b.obj != a.obj:
                return None
            d = b.off.add(a.off, -1)
            if d.const() is not None:
                return sgn(d.const(), 64)
            d = z3.simplify(d.bv())
            return sgn(d.as_long(), 64) if z3.is_bv_value(d) else None
        return None

    def same(self, a, b, w):
        if a is b:
            return True
        ka, kb = classify(a), classify(b)
        if ka == "ptr" and kb == "ptr":
            return ptr_same(a, b)
        if ka != kb:
            return False
        if ka == "int":
            return self.diff(a, b, "int", w) == 0
        if ka == "bool":
            x, y = bz(a), bz(b)
            return x.eq(y)
        if ka == "agg":
            return all(self.same(x, y, 64) for x, y in zip(a, b))
        if ka == "fp":
            return a.eq(b)
        if ka == "pint":
            return isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and ptr_same(a.p, b.p)
        return False

    def changed_mem(self, s0, s1):
        """cells of flat objects / array fields that differ"""
        cells, fields = [], []
        for o, c0 in s0.mem.items():
            c1 = s1.mem.get(o)
            if c1 is None or c1 is c0:
                continue
            if isinstance(c0, Flat) and isinstance(c1, Flat):
                for off, (n, v) in c1.cells.items():
                    x = c0.cells.get(off)
                    if x is not None and x[0] == n and (x[1] is v or self.same(x[1], v, 8 * n)):
                        continue
                    cells.append((o, off, n))
            elif isinstance(c0, Arr) and isinstance(c1, Arr):
                for k, node in c1.fields.items():
                    if c0.fields.get(k) is not node:
                        fields.append((o, k))
            else:
                raise Unsupported("loop changes the kind of an object")
        for o in s1.mem:
            if o not in s0.mem and o in self.e.ginit_mem and s1.mem[o] is not self.e.ginit_mem[o]:
                raise Unsupported("loop writes a global")
        return cells, fields

    def mkvar(self, kind, key, v0, n, ty=None):
        v = Var()
        v.kind, v.key, v.v0, v.n, v.step, v.f, v.stride, v.obj = kind, key, v0, n, None, None, None, None
        v.sort = classify(v0)
        if v.sort == "pset" or v.sort == "agg" or v.sort == "pint":
            raise Unsupported("loop variable of unsupported kind (%s)" % v.sort)
        if v.sort == "ptr":
            v.obj = v0.obj
            info = self.e.objs.get(v0.obj)
            v.stride = info.stride if info is not None and info.stride else 1
        return v

    def value(self, v):
        """symbolic value at the header"""
        e, K = self.e, self.K
        w = 8 * v.n if v.kind == "cell" else v.n
        if v.step is not None:
            if v.step == 0:
                return v.v0
            if v.sort == "ptr":
                return Ptr(v.obj, v.v0.off.add(Lin(0, {K.get_id(): (v.step & M64, K)}, True)))
            if w == 64:
                return norml(mklin(v.v0).add(Lin(0, {K.get_id(): (v.step & M64, K)})))
            k = K if w == 64 else (z3.Extract(w - 1, 0, K) if w < 64 else z3.ZeroExt(w - 64, K))
            return z3.simplify(e.i2bv(v.v0, w) + z3.BitVecVal(v.step, w) * k)
        if v.f is None:
            e.fresh += 1
            nm = "L!%d" % e.fresh
            if v.sort == "int":
                v.f = z3.BitVec(nm, w)
            elif v.sort == "bool":
                v.f = z3.Bool(nm)
            elif v.sort == "fp":
                v.f = z3.FP(nm, v.v0.sort())
            else:
                v.f = z3.BitVec(nm, 64)
        if v.sort == "ptr":
            return Ptr(v.obj, v.v0.off.add(Lin(0, {v.f.get_id(): (v.stride, v.f)}, True)))
        if v.sort == "int" and w == 64:
            return Lin(0, {v.f.get_id(): (1, v.f)})
        return v.f

    def term_of(self, v, val):
        """value -> z3 term for the fresh symbol of v"""
        w = 8 * v.n if v.kind == "cell" else v.n
        if v.sort == "ptr":
            d = val.off.add(v.v0.off, -1)
            if v.stride > 1 and divisible(d, v.stride):
                return z3.simplify(idiv(d, v.stride).bv())
            t = z3.simplify(d.bv())
            return t if v.stride == 1 else z3.simplify(t / z3.BitVecVal(v.stride, 64))
        if v.sort == "int":
            return self.e.i2bv(val, w)
        if v.sort == "bool":
            return bz(val)
        return val

    def get(self, v, st, vals):
        if v.kind == "phi":
            return vals[v.key]
        o, off, n = v.key
        return self.e.flat_read(st, o, off, n)

    def header(self, st0, vals0, vars, fields):
        st = State(st0.guard, dict(st0.mem))
        vals = dict(vals0)
        for v in vars:
            x = self.value(v)
            if v.kind == "phi":
                vals[v.key] = x
            else:
                self.e.flat_write(st, v.key[0], v.key[1], v.key[2], x)
        for o, off, n in self.dead:
            w = self.e.wcontent(st, o)
            for k in [k for k, (m, _) in w.cells.items() if k < off + n and off < k + m]:
                del w.cells[k]
        for (o, k), node in fields.items():
            w = self.e.wcontent(st, o)
            w.fields[k] = node
        return st, vals

    # -- the rule ----------------------------------------------------
    def run(self, arrivals):
        e, h = self.e, self.h
        e.n_cut_runs += 1
        st0, vals0 = e.merge_arrivals(h, arrivals)
        backs, _ = self.dry(st0, vals0)
        if not backs:
            return e.run_region(self.fr, self.body, h, [self.arrival(st0, vals0)], h)
        widths = {i.id: (i.ty.width if i.ty.kind == "int" else 64) for i in self.phis}
        vars = []
        fields = {}
        bykey = {}

        def add(kind, key, v0, n):
            v = self.mkvar(kind, key, v0, n)
            vars.append(v)
            bykey[(kind, key)] = v
            return v
        for b in backs:
            for i in self.phis:
                if not self.same(vals0[i.id], b.phis[i.id], widths[i.id]):
                    if ("phi", i.id) not in bykey:
                        add("phi", i.id, vals0[i.id], widths[i.id])
            self.note_mem(st0, b.st, bykey, add, fields)
        for v in vars:
            w = 8 * v.n if v.kind == "cell" else v.n
            ds = {self.diff(v.v0, self.get(v, b.st, b.phis), v.sort, w) for b in backs}
            v.step = ds.pop() if len(ds) == 1 else None
            if v.sort == "ptr" and v.stride == 1:
                g = 0
                for b in backs:
                    x = self.get(v, b.st, b.phis)
                    if isinstance(x, Ptr) and x.obj == v.obj:
                        d = x.off.add(v.v0.off, -1)
                        for q in [sgn(d.c, 64)] + d.coefs():
                            g = math.gcd(g, abs(q))
                v.stride = g or 1
        mapped = False
        for _ in range(16):
            st, vals = self.header(st0, vals0, vars, fields)
            backs, log = self.dry(st, vals)
            if not backs:
                break
            ok = True
            deadv = []
            nv = len(vars) + len(fields)
            for b in backs:
                for i in self.phis:
                    if ("phi", i.id) not in bykey and not self.same(vals[i.id], b.phis[i.id], widths[i.id]):
                        add("phi", i.id, vals0[i.id], widths[i.id])
                self.note_mem(st, b.st, bykey, add, fields)
            if len(vars) + len(fields) != nv:
                ok = False
            for v in vars:
                w = 8 * v.n if v.kind == "cell" else v.n
                for b in backs:
                    x = self.get(v, b.st, b.phis)
                    if v.kind == "cell" and v not in deadv and (classify(x) != v.sort or (v.sort == "ptr" and x.obj != v.obj)):
                        # a scratch cell that holds values of different kinds: unspecified at the header
                        deadv.append(v)
                        ok = False
                        continue
                    if v in deadv:
                        continue
                    if classify(x) != v.sort or (v.sort == "ptr" and x.obj != v.obj):
                        raise Unsupported("loop variable changes its kind (%s %s: %s to %s)" % (v.kind, v.key, v.sort, classify(x)))
                    if v.step is not None:
                        cur = self.get(v, st, vals)
                        if self.diff(cur, x, v.sort, w) != v.step:
                            v.step = None
                            ok = False
            for v in deadv:
                if v in vars:
                    vars.remove(v)
                    self.dead.append(v.key)
            if ok and any(isinstance(n, NMap) for n in fields.values()):
                for f, n in list(fields.items()):
                    if isinstance(n, NMap) and not self.map_holds(f, n, st, backs):
                        e.fresh += 1
                        fields[f] = NBase("loopmem!%d" % e.fresh, f[1][1], [])
                        ok = False
            if ok and not mapped:
                mapped = True
                self.count_facts(vars, backs, log)
                for f, n in list(fields.items()):
                    m = self.closed_form(f, n, st0, st, vars, backs)
                    if m is not None:
                        fields[f] = m
                        ok = False
            if ok:
                break
        else:
            raise Unsupported("loop variables do not stabilise")
        return self.finish(st0, vals0, vars, fields, backs, log)

    # -- loops that write each element of an array at most once, one after the other ------------
    def written(self, node, base):
        """indices stored to since the header, or None"""
        out, todo, seen = [], [node], set()
        while todo:
            n = todo.pop()
            if n is base or id(n) in seen:
                continue
            seen.add(id(n))
            if isinstance(n, NStore):
                out.append(n.i)
                todo.append(n.prev)
            elif isinstance(n, NIte):
                todo += [n.a, n.b]
            else:
                return None
        return out

    def count_facts(self, vars, backs, log):
        """bounds of the iteration counter that are inductive on their own"""
        cs, K = [], self.K
        sub0 = [(K, z3.BitVecVal(0, 64))]
        bad = {x.f.get_id() for x in vars if x.f is not None}

        def cand(c):
            c = simp(bz(c))
            if not isinstance(c, bool) and not any(c.eq(x) for x in cs):
                if not any(x.get_id() in bad or fresh_no(x.decl().name()) > self.fresh0 and not x.eq(K) for x in decls_of(c)):
                    cs.append(c)
        for a, b, w in log[:100]:
            try:
                self.count_cands(a, b, w, cand, sub0)
            except Unsupported:
                pass
        for c in cs[:12]:
            if all(self.valid([bz(b_and(*b.st.guard)), c], z3.substitute(c, (K, K + 1))) for b in backs):
                self.kfacts.append(c)

    def valid(self, given, goal):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        e = self.e
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*(list(e.assumes) + list(e.axioms) + self.facts), z3.ULT(self.K, z3.BitVecVal(BIG, 64)), *self.kfacts, *given)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unknown:
            import prove
            return prove.external(["cvc5", "--solve-bv-as-int=sum", "--tlimit=6000"], "(set-logic ALL)\n" + s.to_smt2(), 6) == "unsat"
        return r == z3.unsat

    def closed_form(self, f, base, st0, st, vars, backs):
        """guess: after K iterations element idx0 + s*k holds V(k) for k < K, everything else is unchanged.  map_holds
        then checks that the body makes the step from K to K + 1."""
        e, K = self.e, self.K
        o, key = f
        if not isinstance(base, NBase):
            return None
        idx, nodes = None, []
        for b in backs:
            node = b.st.mem[o].fields[key]
            w = self.written(node, base)
            if w is None:
                return None
            for i in w:
                if idx is None:
                    idx = i
                elif not z3.is_true(z3.simplify(i == idx)):
                    return None
            nodes.append(node)
        if idx is None:
            return None
        idx0 = z3.simplify(z3.substitute(idx, (K, z3.BitVecVal(0, 64))))
        g = [bz(st0.g()), z3.Or(*[bz(b_and(*b.st.guard)) for b in backs])]
        step = 0
        for d in (1, -1):
            if self.valid(g, idx == idx0 + d * K):
                step = d
                break
        if step == 0:
            return None
        v = None
        ng = len(st.guard)
        for b, node in zip(backs, nodes):
            x = node.read(idx, e)
            v = x if v is None else z3.If(bz(b_and(*b.st.guard[ng:])), x, v)
        prev = self.e.arr_field(self.e.wcontent(st0, o), e.objs[o], *key)
        kk = z3.BitVec("kk!map", 64)
        sub = []
        for t in apps_of(v, base.fn.name()):
            r = t.arg(0)
            if not self.valid(g + [z3.ULT(kk, K)], idx0 + step * kk != r):
                return None
            sub.append((t, prev.read(r, e)))
        if sub:
            v = z3.substitute(v, *sub)
        v = z3.simplify(v)
        bad = {x.f.get_id() for x in vars if x.f is not None}
        for c in decls_of(z3.Concat(v, idx0)):
            if c.get_id() in bad or (fresh_no(c.decl().name()) > self.fresh0 and not c.eq(K)):
                return None
        return NMap(prev, K, K, idx0, step, v)

    def map_holds(self, f, m, st, backs):
        e, K = self.e, self.K
        o, key = f
        for b in backs:
            node = b.st.mem[o].fields[key]
            w = self.written(node, m)
            g = [bz(b_and(*b.st.guard))]
            if w is None:
                return False
            at = m.idx0 + m.step * K
            for i in w:
                if not self.valid(g, i == at):
                    return False
            if not self.valid(g, node.read(z3.simplify(at), e) == m.v):
                return False
        return True

    def note_mem(self, s0, s1, bykey, add, fields):
        cells, flds = self.changed_mem(s0, s1)
        for c in cells:
            if ("cell", c) in bykey:
                continue
            if any(c[0] == d[0] and d[1] <= c[1] and c[1] + c[2] <= d[1] + d[2] for d in self.dead):
                continue
            for k in list(bykey):
                if k[0] == "cell" and k[1][0] == c[0] and k[1][1] < c[1] + c[2] and c[1] < k[1][1] + k[1][2]:
                    raise Unsupported("loop changes overlapping cells")
            add("cell", c, self.e.flat_read(s0, *c), c[2])
        for f in flds:
            if f not in fields:
                self.e.fresh += 1
                fields[f] = NBase("loopmem!%d" % self.e.fresh, f[1][1], [])

    def finish(self, st0, vals0, vars, fields, backs, log):
        e, K = self.e, self.K
        g0 = st0.g()
        nofields = {n.fn.name() for n in fields.values() if isinstance(n, NBase)}
        z64 = z3.BitVecVal(0, 64)
        sub0 = [(K, z64)] + [(v.f, self.term_of(v, v.v0)) for v in vars if v.step is None]
        nexts = []
        for b in backs:
            nexts.append([(K, K + 1)] + [(v.f, self.term_of(v, self.get(v, b.st, b.phis)))
                                         for v in vars if v.step is None])
        # candidates
        cands, seen = [], set()
        subst0, substn = {}, {}
        self.inv_cands(st0, vals0, vars, fields, backs, cands, seen, subst0, substn)

        def cand(c):
            c = simp(bz(c))
            if isinstance(c, bool):
                return
            if c.get_id() in seen:
                return
            seen.add(c.get_id())
            if nofields and uses(c, nofields):
                return
            cands.append(c)
        cand(z3.ULT(K, z3.BitVecVal(BIG, 64)))
        pairs = []
        for a, b, w in log:
            pairs.append((a, b, w))
        for v in vars:
            if v.step is None and v.sort == "int":
                w = 8 * v.n if v.kind == "cell" else v.n
                pairs.append((v.f, e.i2bv(v.v0, w), w))
            if v.step is None and v.sort == "ptr":
                cand(v.f >= 0)
                cand(v.f <= 0)
                cand(z3.ULE(v.f, K))
                cand(v.f == K)
            if v.step is None and v.sort == "bool":
                cand(v.f == bz(v.v0))
            if v.step is None and v.sort == "int":
                w = 8 * v.n if v.kind == "cell" else v.n
                if w <= 64:
                    k = K if w == 64 else z3.Extract(w - 1, 0, K)
                    v0 = e.i2bv(v.v0, w)
                    cand(z3.ULE(v.f - v0, k))
                    for d in (v.f - v0, v0 - v.f):
                        cand(z3.ULE(K, d if w == 64 else z3.ZeroExt(64 - w, d)))
        ptrs = [self.value(v) for v in vars if v.sort == "ptr"]
        for i, p in enumerate(ptrs):
            for q in ptrs[i + 1:]:
                if p.obj == q.obj:
                    pairs.append((p, q, 64))
        for a, b, w in pairs[:200]:
            try:
                self.count_cands(a, b, w, cand, sub0)
                self.pair_cands(a, b, w, cand)
            except Unsupported:
                pass
        t0 = time.time()
        e.sync()
        base = list(e.assumes) + list(e.axioms)
        lim = z3.ULT(K, z3.BitVecVal(1 << 62, 64))   # no execution performs 2^62 iterations
        # on entry: every surviving candidate must hold
        init_s = z3.Solver()
        init_s.set("timeout", 10000)
        for x in base:
            init_s.add(x)
        init_s.add(bz(g0))
        live = []
        for c in cands:
            q = subst0[c.get_id()] if c.get_id() in subst0 else z3.substitute(c, *sub0)
            init_s.push()
            init_s.add(z3.Not(q))
            r = init_s.check()
            init_s.pop()
            if r == z3.unknown and c.get_id() in subst0 and one_shot(init_s.assertions(), q, True):
                r = z3.unsat
            if DEBUG and r != z3.unsat and c.get_id() in subst0:
                print("NOT ON ENTRY", r, str(c)[:200])
            if r == z3.unsat:
                live.append(c)
        backg = [bz(b_and(*b.st.guard)) for b in backs]
        # history facts at ghost points strengthen the induction hypothesis
        rounds = 0
        while True:
            rounds += 1
            removed = []
            # while the hypothesis is being established only candidates still alive may be assumed
            for bi, b in enumerate(backs):
                s = z3.Solver()
                s.set("timeout", 4000)
                for x in list(e.assumes) + list(e.axioms) + self.facts:
                    s.add(x)
                s.add(bz(g0), lim, backg[bi], *live)
                todo = list(live)
                while todo:
                    s.push()
                    nx = [(c, substn[c.get_id()][bi] if c.get_id() in substn else z3.substitute(c, *nexts[bi])) for c in todo]
                    s.add(z3.Not(z3.And(*[n for _, n in nx])))
                    r = s.check()
                    if r == z3.unsat:
                        s.pop()
                        break
                    if r == z3.sat:
                        m = s.model()
                        bad = [c for c, n in nx if z3.is_false(m.eval(n, model_completion=True))]
                        s.pop()
                        if not bad:
                            bad = todo
                    else:
                        s.pop()
                        bad = []
                        given = s.assertions()
                        for c, n in nx:
                            if not one_shot(given, n, c.get_id() in substn):
                                bad.append(c)
                        if not bad:
                            break
                    if DEBUG:
                        print("REMOVE", r, len(bad), [(str(c)[:80], "") for c in bad if c.get_id() in substn])
                    removed += bad
                    ids = {c.get_id() for c in bad}
                    todo = [c for c in todo if c.get_id() not in ids]
            if not removed:
                break
            ids = {c.get_id() for c in removed}
            live = [c for c in live if c.get_id() not in ids]
        # header facts
        facts = [lim] + live
        inst = self.history(vars, backg, live, g0, nofields, nexts, self.monotone(vars, backg, live, g0, nexts, lim))
        e.assumes.append(simp_b(z3.Implies(bz(g0), z3.And(*(facts + inst)))))
        st, vals = self.header(st0, vals0, vars, fields)
        if not e.in_dry:
            e.oblige(st, "loop terminates", "termination", z3.ULT(K, z3.BitVecVal(BIG, 64)))
            k = "%s@%s" % (e.short(self.fr.fn.name), self.h.name)
            e.loops_cut[k] = "%d variables, %d/%d candidate invariants proved inductive, %d history instances" % (
                len(vars), len(live), len(cands), len(inst))
        e.t_inv = getattr(e, "t_inv", 0.0) + time.time() - t0
        exits = e.run_region(self.fr, self.body, self.h, [self.arrival(st, vals)], self.h)
        return [(t, a) for t, a in exits if t is not self.h]

    def inv_cands(self, st0, vals0, vars, fields, backs, cands, seen, subst0, substn):
        """candidate invariants written in the contract (vc::invariant), evaluated in the state at the header, on entry
        and after one iteration"""
        e = self.e
        for fn in e.inv_fns:
            try:
                hst, _ = self.header(st0, vals0, vars, fields)
                h = e.pure_call(fn, hst)
                i0 = e.pure_call(fn, st0)
                nx = [e.pure_call(fn, b.st) for b in backs]
            except (Unsupported, DeadPath):
                continue
            h = simp(bz(h))
            if isinstance(h, bool) or h.get_id() in seen:
                continue
            seen.add(h.get_id())
            cands.append(h)
            subst0[h.get_id()] = bz(i0)
            substn[h.get_id()] = [bz(x) for x in nx]

    def pair_cands(self, a, b, w, cand):
        e = self.e
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if is_ptr(a) or is_ptr(b):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.obj != b.obj or a.obj == 0:
                return
            d = a.off.add(b.off, -1)
            if not d.t:
                return
            g = abs(sgn(d.c, 64))
            for x in d.coefs():
                g = math.gcd(g, abs(x))
            t = z3.simplify(idiv(d, g or 1).bv())
            cand(t <= 0)
            cand(t >= 0)
            # no wrap: relative to the iteration counter
            return
        x, y = e.i2bv(a, w), e.i2bv(b, w)
        if w == 1 or z3.is_bool(x):
            return
        cand(z3.ULE(x, y))
        cand(z3.UGE(x, y))
        cand(x <= y)
        cand(x >= y)

    def count_cands(self, a, b, w, cand, sub0):
        """bounds of the iteration counter from a comparison of a moving with another quantity"""
        e, K = self.e, self.K
        if isinstance(a, (PInt, Ptr, PSet)) or isinstance(b, (PInt, Ptr, PSet)):
            return
        x, y = e.i2bv(a, w), e.i2bv(b, w)
        if w == 1 or z3.is_bool(x) or w > 64:
            return
        d = z3.substitute(y - x, *sub0)
        if complex_term(d):
            return
        if w < 64:
            d1, d2 = z3.ZeroExt(64 - w, d), z3.ZeroExt(64 - w, -d)
        else:
            d1, d2 = d, -d
        cand(z3.ULE(K, d1))
        cand(z3.ULE(K, d2))

    def monotone(self, vars, backg, live, g0, nexts, lim):
        """accumulators: variables that every iteration changes along a reflexive and transitive relation only"""
        e = self.e
        out = []
        for v in vars:
            if v.step is not None or v.sort not in ("bool", "int") or v.f is None:
                continue
            if v.sort == "bool":
                rels = [lambda a, b: z3.Implies(b, a), lambda a, b: z3.Implies(a, b)]
            elif v.f.size() > 64:
                continue
            else:
                rels = [z3.UGE, z3.ULE, lambda a, b: a >= b, lambda a, b: a <= b, lambda a, b: a & b == b, lambda a, b: a | b == b]
            s = z3.Solver()
            s.set("timeout", 400)
            s.add(*(list(e.assumes) + list(e.axioms) + self.facts + [bz(g0), lim] + live))
            good = []
            for r in rels:
                for bi, nx in enumerate(nexts):
                    n = next(t for f, t in nx if f.eq(v.f))
                    if n.eq(v.f):
                        continue
                    s.push()
                    s.add(backg[bi], z3.Not(r(v.f, n)))
                    c = s.check()
                    s.pop()
                    if c != z3.unsat:
                        break
                else:
                    good.append(r)
            if good and len(good) < len(rels):
                out.append((v, good))
        return out

    def history(self, vars, backg, live, g0, nofields, nexts, mono):
        e, K = self.e, self.K
        after = []
        for v, _ in mono:
            e.fresh += 1
            after.append(z3.Const("N!%d" % e.fresh, v.f.sort()))
        ran = [z3.And(b, *[n == next(t for f, t in nx if f.eq(v.f)) for (v, _), n in zip(mono, after)]) for b, nx in zip(backg, nexts)]
        pts = []

        def pt(t):
            t = z3.simplify(t)
            if not any(t.eq(x) for x in pts):
                pts.append(t)
        pt(K - 1)
        pt(z3.BitVecVal(0, 64))
        for g in e.ghosts:
            for v in vars:
                if v.step is None or v.step == 0:
                    continue
                w = 8 * v.n if v.kind == "cell" else v.n
                if v.sort == "ptr":
                    s = v.stride
                    if v.step % s:
                        continue
                    m = v.step // s
                    if not divisible(v.v0.off, s):
                        continue
                    d = g - idiv(v.v0.off, s).bv()
                elif v.sort == "int":
                    m = v.step
                    gw = z3.Extract(w - 1, 0, g) if w < 64 else g
                    if w > 64:
                        continue
                    d = gw - e.i2bv(v.v0, w)
                    if m < 0:
                        d, m = -d, -m
                    if w < 64:
                        d = z3.ZeroExt(64 - w, d)
                else:
                    continue
                if m < 0:
                    d, m = -d, -m
                pt(d if m == 1 else z3.UDiv(d, z3.BitVecVal(m, 64)))
        # a loop may look at the element in front of or behind its counter
        near = [z3.simplify(k + d) for k in pts[2:8] for d in (z3.BitVecVal(M64, 64), z3.BitVecVal(1, 64))]
        pts = pts[:12] + [k for k in near if not any(k.eq(x) for x in pts)]
        out = []
        # everything that belongs to one iteration (memory written by the loop, results of inner loops and callees) is
        # existential: constants get a fresh copy per instance, conjuncts that mention a per-iteration function are dropped
        parts = [weaken(z3.And(*([z3.Or(*ran)] + live + self.facts)), nofields, self.fresh0)]
        body = z3.simplify(z3.And(*parts))
        local = [c for c in consts_of(body) if fresh_no(c.decl().name()) > self.fresh0]
        live_after = {c.get_id() for c in local}
        links = [z3.And(*[r(n, v.f) for r in good]) for (v, good), n in zip(mono, after) if n.get_id() in live_after]
        ends = [n == v.f for (v, _), n in zip(mono, after) if n.get_id() in live_after]
        for k in pts[:20]:
            sub = [(K, k)]
            for v in vars:
                if v.step is None and v.f is not None:
                    e.fresh += 1
                    if v.sort == "bool":
                        n = z3.Bool("H!%d" % e.fresh)
                    elif v.sort == "fp":
                        n = z3.FP("H!%d" % e.fresh, v.f.sort())
                    else:
                        n = z3.BitVec("H!%d" % e.fresh, v.f.size())
                    sub.append((v.f, n))
            for c in local:
                e.fresh += 1
                sub.append((c, z3.Const("H!%d" % e.fresh, c.sort())))
            t = z3.simplify(z3.substitute(body, *sub))
            if links:
                ns = [(a, b) for a, b in sub if a.get_id() in live_after]
                t = z3.And(t, *[z3.substitute(x, *ns) for x in links], z3.Implies(k == K - 1, z3.And(*[z3.substitute(x, *ns) for x in ends])))
            e.fire_hooks(t)
            out.append(z3.Implies(z3.ULT(k, K), t))
        return out


def one_shot(given, goal, hard):
    if hard:
        import prove
        r = prove.query(list(given) + [z3.Not(goal)], 40, model=DEBUG)
        if DEBUG and r[0] != "unsat":
            print("INVARIANT", r[:3], r[3], goal)
        return r[0] == "unsat"
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(given)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unknown:
        import prove
        return prove.external(["cvc5", "--solve-bv-as-int=sum", "--tlimit=3000"], "(set-logic ALL)\n" + s.to_smt2(), 3) == "unsat"
    return r == z3.unsat


def complex_term(t):
    """a product (other than by a power of two) or a large term: not the bound of a loop counter"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 60:
            return True
        if z3.is_app_of(x, z3.Z3_OP_BMUL):
            for c in x.children():
                if z3.is_bv_value(c):
                    v = c.as_long()
                    w = (1 << c.size()) - v
                    if v & (v - 1) and w & (w - 1):
                        return True
        st.extend(x.children())
    return False


def fresh_no(name):
    i = name.rfind("!")
    return int(name[i + 1:]) if i >= 0 and name[i + 1:].isdigit() else -1


def consts_of(t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def decls_of(t):
    """constants and applications of uninterpreted functions in t"""
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return out


def apps_of(t, name):
    return [x for x in decls_of(t) if x.num_args() and x.decl().name() == name]


def weaken(t, names, fresh0):
    """a consequence of t that mentions no per-iteration function"""
    bad = {}

    def isbad(x):
        r = bad.get(x.get_id())
        if r is not None:
            return r[0]
        st = [(x, False)]
        while st:
            y, done = st.pop()
            if y.get_id() in bad:
                continue
            if not done:
                st.append((y, True))
                st.extend((c, False) for c in y.children())
                continue
            b = any(bad[c.get_id()][0] for c in y.children())
            if not b and z3.is_app(y) and y.num_args() and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                b = y.decl().name() in names or fresh_no(y.decl().name()) > fresh0
            bad[y.get_id()] = (b, y)
        return bad[x.get_id()][0]

    def go(x):
        if not isbad(x):
            return x
        if z3.is_and(x):
            return z3.And(*[go(c) for c in x.children()])
        if z3.is_or(x):
            return z3.Or(*[go(c) for c in x.children()])
        return z3.BoolVal(True)
    return go(t)


def uses(t, names):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


def policy(e):
    """unroll while the trip count stays small; cut otherwise"""
    def f(fr, h):
        key = (fr.fn.name, h.name)
        if key in e.cut_loops:
            return lambda eng, fr2, h2, arr: Cut(eng, fr2, h2).run(arr)
        return None
    e.loop_policy = f
