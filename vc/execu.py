"""Instruction semantics, control flow, calls, builtins."""
import time
import z3
from llvmir import Val, Ty
import sym
import wide
from sym import *
from wide import wbit


def fp_order(a, b):
    """Operands of a commutative operation in a fixed order (equal terms for equal sums)."""
    return (a, b) if a.hash() <= b.hash() else (b, a)


class Arrival:
    __slots__ = ("st", "phis")

    def __init__(self, st, phis):
        self.st, self.phis = st, phis


class Engine(Exec):
    def __init__(self, mod, opts=None):
        super().__init__(mod, opts)
        self.ginit_mem = {}
        self.wides = []
        self.cut_loops = set()
        self.icmp_log = None
        self.n_cut_runs = 0
        self.inv_fns = []
        self.in_dry = False
        self.nodes = {}
        self.contracts = {}   # function name -> python handler(engine, frame, st, inst, args) -> value
        self.dem = {}

    # ------------------------------------------------------------ regions
    def run_fn(self, fn, args, st, depth):
        if depth > self.o["depth"]:
            raise Unsupported("call depth")
        fn = self.mod.fn(fn.name)
        self.executed_fns.add(fn.name)
        fr = Frame(fn, depth)
        for p, a in zip(fn.params, args):
            fr.env[p] = a
        self.callstack.append(self.short(fn.name))
        region = set(fn.rpo)
        self.run_region(fr, region, fn.blocks[0], [Arrival(st, {})], None)
        self.callstack.pop()
        if not fr.rets:
            raise DeadPath()
        # merge returns
        rets = fr.rets
        acc_s, acc_v = rets[-1]
        for s, v in reversed(rets[:-1]):
            cond, ns = self.merge2(s, acc_s)
            if v is not None:
                acc_v = ite_ty(cond, v, acc_v, self.retty(fn))
            acc_s = ns
        for a in fr.allocas:
            acc_s.mem.pop(a, None)
        return acc_v, acc_s

    def retty(self, fn):
        for b in fn.blocks:
            i = b.insts[-1]
            if i.op == "ret" and i.ops:
                return i.ops[0].ty
        return None

    def short(self, n):
        d = self.dem.get(n, n)
        return d.split("(")[0][-70:]

    def run_region(self, fr, region, entry, arrivals, header):
        fn = fr.fn
        pend = {entry: list(arrivals)}
        exits = []
        todo = sorted(region, key=lambda b: fn.rpo[b])
        for b in todo:
            arr = pend.pop(b, None)
            if not arr:
                continue
            if b in fn.loops and b is not header:
                outs = self.run_loop(fr, b, arr)
            else:
                outs = self.run_block(fr, b, arr)
            for tgt, a in outs:
                if tgt in region and tgt is not header:
                    pend.setdefault(tgt, []).append(a)
                else:
                    exits.append((tgt, a))
        return exits

    def run_loop(self, fr, h, arrivals):
        spec = self.loop_policy(fr, h)
        if spec is not None:
            return spec(self, fr, h, arrivals)
        body = fr.fn.loops[h]
        outs = []
        n = nsym = 0
        cuts0 = self.n_cut_runs
        while arrivals:
            n += 1
            if self.o["cut"] and (nsym > self.o["cut_after"] or nsym > 2 and self.n_cut_runs > cuts0 or nsym > 0 and n > 100):
                import loops
                raise loops.NeedCut((fr.fn.name, h.name))
            if n > self.o["unroll"]:
                for a in arrivals:
                    if self.feasible(a.st.g()):
                        self.oblige(a.st, "loop unwinding bound", "unwind", False)
                break
            ex = self.run_region(fr, body, h, arrivals, h)
            arrivals = []
            for tgt, a in ex:
                if tgt is h:
                    arrivals.append(a)
                else:
                    outs.append((tgt, a))
            if arrivals and len(ex) > len(arrivals):
                nsym += 1       # both leaving and staying are possible: the trip count is symbolic
            if arrivals and any(len(a.st.guard) for a in arrivals):
                arrivals = [a for a in arrivals if self.feasible(a.st.g())]
        k = "%s@%s" % (self.short(fr.fn.name), h.name)
        self.loops_unrolled[k] = max(self.loops_unrolled.get(k, 0), n)
        return outs

    def pure_call(self, fn, st):
        """value of a boolean function of the state (no obligations, the state is not changed)"""
        saved = (self.obls, self.covers, self.callstack[:], self.trivial, self.in_dry, self.icmp_log)
        self.obls, self.covers, self.in_dry = [], [], True
        try:
            v, _ = self.run_fn(fn, [], State(st.guard, dict(st.mem)), 1)
        finally:
            self.obls, self.covers, self.callstack, self.trivial, self.in_dry, self.icmp_log = saved
        return v

    def loop_policy(self, fr, h):
        return None

    # ------------------------------------------------------------ merging
    def merge2(self, a, b):
        """returns (cond selecting a, merged state)"""
        n = 0
        g1, g2 = a.guard, b.guard
        while n < len(g1) and n < len(g2) and g1[n].eq(g2[n]):
            n += 1
        r1 = b_and(*g1[n:])
        cond = simp(bz(r1)) if not isinstance(r1, bool) else r1
        if len(g1) == n and len(g2) > n:
            # a unconditional?  (overlap) select by not b
            r2 = b_and(*g2[n:])
            cond = b_not(simp(bz(r2)))
        g = merge_guards(g1, g2)
        st = State(g, None)
        st.mem = self.merge_mem(cond, a, b, st)
        return cond, st

    def merge_mem(self, cond, a, b, owner):
        if a.mem is b.mem:
            return dict(a.mem)
        out = {}
        for o, ca in a.mem.items():
            cb = b.mem.get(o)
            if cb is None or ca is cb:
                out[o] = ca
                continue
            if isinstance(ca, Flat) and isinstance(cb, Flat):
                out[o] = self.merge_flat(cond, ca, cb, owner)
            elif isinstance(ca, Arr) and isinstance(cb, Arr):
                f = {}
                for k in set(ca.fields) | set(cb.fields):
                    x, y = ca.fields.get(k), cb.fields.get(k)
                    if x is y or y is None:
                        f[k] = x
                    elif x is None:
                        f[k] = y
                    else:
                        f[k] = NIte(bz(cond), x, y)
                out[o] = Arr(f, owner)
            else:
                raise Unsupported("memory merge of different kinds")
        for o, cb in b.mem.items():
            if o not in out:
                out[o] = cb
        return out

    def merge_flat(self, cond, ca, cb, owner):
        cells = {}
        A, B = ca.cells, cb.cells
        if A is B:
            return ca
        same_layout = True
        for o, (m, v) in A.items():
            y = B.get(o)
            if y is None or y[0] != m:
                same_layout = False
                break
        if same_layout:
            for o, y in B.items():
                if o not in A:
                    same_layout = False
                    break
        if not same_layout:
            # refine both to common cuts
            cuts = set()
            for X in (A, B):
                for o, (m, _) in X.items():
                    cuts.add(o)
                    cuts.add(o + m)
            A, B = self.refine(A, cuts), self.refine(B, cuts)
        for o in set(A) | set(B):
            x, y = A.get(o), B.get(o)
            if x is None:
                cells[o] = y
            elif y is None:
                cells[o] = x
            elif x[1] is y[1]:
                cells[o] = x
            else:
                vx, vy = x[1], y[1]
                if is_ptr(vx) != is_ptr(vy):
                    # uninitialised / integer zero versus pointer
                    vx = self.as_ptr_cell(vx)
                    vy = self.as_ptr_cell(vy)
                fx = not isinstance(vx, (int, Lin, PInt, Ptr, PSet)) and z3.is_fp(vx)
                fy = not isinstance(vy, (int, Lin, PInt, Ptr, PSet)) and z3.is_fp(vy)
                if fx != fy:
                    srt = (vx if fx else vy).sort()
                    if fx:
                        vy = z3.fpBVToFP(bv(vy, 8 * x[0]), srt)
                    else:
                        vx = z3.fpBVToFP(bv(vx, 8 * x[0]), srt)
                cells[o] = (x[0], ite_w(cond, vx, vy, 8 * x[0]))
        return Flat(cells, owner)

    def as_ptr_cell(self, v):
        if is_ptr(v):
            return v
        if isinstance(v, (int, PInt)):
            return int2ptr(v)
        return Ptr(0, Lin(0xdead0000))

    def refine(self, X, cuts):
        R = {}
        cuts = sorted(cuts)
        import bisect
        for o, (m, v) in X.items():
            lo = bisect.bisect_right(cuts, o)
            inner = []
            while lo < len(cuts) and cuts[lo] < o + m:
                inner.append(cuts[lo])
                lo += 1
            if not inner:
                R[o] = (m, v)
                continue
            if isinstance(v, (Ptr, PSet, PInt, Lin)):
                v = toint(v)
            pts = [o] + inner + [o + m]
            for s, e in zip(pts, pts[1:]):
                R[s] = (e - s, self.extract(v, m, s - o, e - s))
        return R

    # ------------------------------------------------------------ blocks
    def merge_arrivals(self, b, arrivals):
        phis = []
        for i in b.insts:
            if i.op != "phi":
                break
            phis.append(i)
        a = arrivals[-1]
        st = a.st
        vals = dict(a.phis)
        for p in reversed(arrivals[:-1]):
            cond, ns = self.merge2(p.st, st)
            for i in phis:
                vals[i.id] = ite_ty(cond, p.phis[i.id], vals[i.id], i.ty)
            st = ns
        if len(arrivals) == 1:
            st = State(st.guard, dict(st.mem))
        return st, vals

    def fire_hooks(self, t):
        """on-read instances of array preconditions for index terms that appear in t"""
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 1:
                node = sym.NODES.get(x.decl().name())
                if node is not None and node.fn.eq(x.decl()):
                    node.read(x.arg(0), self)
                elif x.decl().name().startswith("udiv") and "_" in x.decl().name():
                    self.udiv_const(x.arg(0), int(x.decl().name().split("_")[1]), x.size())
            todo.extend(x.children())

    def run_block(self, fr, b, arrivals):
        env = fr.env
        phis = []
        for i in b.insts:
            if i.op != "phi":
                break
            phis.append(i)
        st, vals = self.merge_arrivals(b, arrivals)
        for i in phis:
            env[i.id] = vals[i.id]
        try:
            k = len(phis)
            for i in b.insts[k:]:
                r = self.step(fr, i, st)
                if isinstance(r, tuple) and r and r[0] == "state":
                    st = r[1]
                    if i.op == "invoke":
                        return [self.edge(fr, b, i.x[1], st)]
                elif r is not None:
                    return r
        except DeadPath:
            return []
        raise Unsupported("block fell through")

    def edge(self, fr, src, dst, st):
        vals = {}
        for i in dst.insts:
            if i.op != "phi":
                break
            for blk, v in i.x:
                if blk is src:
                    vals[i.id] = self.ev(fr, v, st)
                    break
            else:
                raise Unsupported("phi without incoming")
        return (dst, Arrival(st, vals))

    def ev(self, fr, v, st):
        if v.kind in ("inst", "arg"):
            return fr.env[v]
        return self.const(v, st)

    def prune(self, st, c):
        """feasible(guard & c)"""
        if isinstance(c, bool):
            return c
        for g in st.guard:
            if complementary(g, c):
                return False
        return self.feasible(b_and(st.g(), c))

    def step(self, fr, i, st):
        op = i.op
        env = fr.env
        ev = self.ev
        if op == "call" or op == "invoke":
            return self.call(fr, i, st)
        if op == "br":
            if not i.ops:
                return [self.edge(fr, i.block, i.x[0], st)]
            c = ev(fr, i.ops[0], st)
            if isinstance(c, bool):
                return [self.edge(fr, i.block, i.x[0] if c else i.x[1], st)]
            c = simp(c)
            if isinstance(c, bool):
                return [self.edge(fr, i.block, i.x[0] if c else i.x[1], st)]
            outs = []
            nc = b_not(c)
            for g in st.guard:
                if g.eq(c):
                    return [self.edge(fr, i.block, i.x[0], st)]
                if complementary(g, c):
                    return [self.edge(fr, i.block, i.x[1], st)]
            t = self.prune(st, c)
            f = self.prune(st, nc) if t else True
            if t and f:
                s1 = State(st.guard + (c,), dict(st.mem))
                s2 = State(st.guard + (nc,), dict(st.mem))
                return [self.edge(fr, i.block, i.x[0], s1), self.edge(fr, i.block, i.x[1], s2)]
            # the condition is implied by guard and assumptions
            return [self.edge(fr, i.block, i.x[0] if t else i.x[1], st)]
        if op == "switch":
            v = ev(fr, i.ops[0], st)
            w = i.ops[0].ty.width
            dflt, cases = i.x
            if isinstance(v, (int, bool)):
                for k, blk in cases:
                    if k == int(v):
                        return [self.edge(fr, i.block, blk, st)]
                return [self.edge(fr, i.block, dflt, st)]
            outs, cur = [], st
            # group cases with the same target
            groups = {}
            order = []
            for k, blk in cases:
                if blk not in groups:
                    groups[blk] = []
                    order.append(blk)
                groups[blk].append(k)
            vb = self.i2bv(v, w)
            for blk in order:
                c = simp(b_or(*[vb == z3.BitVecVal(k, w) for k in groups[blk]]))
                if blk is dflt:
                    continue
                if c is False:
                    continue
                if c is True:
                    outs.append(self.edge(fr, i.block, blk, cur))
                    return outs
                if self.prune(cur, c):
                    outs.append(self.edge(fr, i.block, blk, State(cur.guard + (c,), dict(cur.mem))))
                    cur = State(cur.guard + (b_not(c),), dict(cur.mem))
            if self.feasible(cur.g()):
                outs.append(self.edge(fr, i.block, dflt, cur))
            return outs
        if op == "ret":
            v = ev(fr, i.ops[0], st) if i.ops else None
            fr.rets.append((st, v))
            return []
        if op == "unreachable":
            self.oblige(st, "unreachable code is not reached", "unreachable", False)
            return []
        if op == "load":
            env[i.id] = self.load(st, ev(fr, i.ops[0], st), i.ty)
            return None
        if op == "store":
            self.store(st, ev(fr, i.ops[1], st), ev(fr, i.ops[0], st), i.ops[0].ty)
            return None
        if op == "getelementptr":
            p = ev(fr, i.ops[0], st)
            if not is_ptr(p):
                p = int2ptr(p)
            env[i.id] = self.gep(i.x, [p] + [ev(fr, o, st) for o in i.ops[1:]], [o.ty for o in i.ops])
            return None
        if op == "alloca":
            n = ev(fr, i.ops[0], st) if i.ops else 1
            if not isinstance(n, int):
                raise Unsupported("dynamic alloca")
            o = self.new_obj(st, "local:" + self.short(fr.fn.name), i.x.size * n)
            fr.allocas.append(o.id)
            env[i.id] = Ptr(o.id, Lin(0))
            return None
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = ev(fr, i.ops[0], st), ev(fr, i.ops[1], st)
            if i.ty.kind == "vector":
                w = i.ty.elems[0].width
                env[i.id] = [self.arith(op, x, y, w, i.flags) for x, y in zip(a, b)]
                return None
            w = i.ty.width
            if op in ("udiv", "sdiv", "urem", "srem"):
                nz = (b != 0) if isinstance(b, int) else z3.Not(self.i2bv(b, w) == 0)
                self.oblige(st, "no division by zero", "arith", nz)
            exact = bool(i.x) if op in ("lshr", "ashr", "udiv", "sdiv") else False
            env[i.id] = self.arith(op, a, b, w, i.flags, exact)
            return None
        if op == "icmp":
            a, b = ev(fr, i.ops[0], st), ev(fr, i.ops[1], st)
            t = i.ops[0].ty
            if t.kind == "vector":
                env[i.id] = [self.icmp(i.x, x, y, t.elems[0]) for x, y in zip(a, b)]
                return None
            if self.icmp_log is not None and not (isinstance(a, (int, bool)) and isinstance(b, (int, bool))):
                self.icmp_log.append((a, b, t.width or 64))
            env[i.id] = self.icmp(i.x, a, b, t)
            return None
        if op == "select":
            c = ev(fr, i.ops[0], st)
            a, b = ev(fr, i.ops[1], st), ev(fr, i.ops[2], st)
            if isinstance(c, list):
                env[i.id] = [ite_ty(cc, x, y, i.ty.elems[0]) for cc, x, y in zip(c, a, b)]
                return None
            env[i.id] = ite_ty(c, a, b, i.ty)
            return None
        if op in ("zext", "sext", "trunc"):
            v = ev(fr, i.ops[0], st)
            env[i.id] = self.vmap(lambda x, ft, tt: self.cast(op, x, ft, tt), v, i.ops[0].ty, i.ty)
            return None
        if op == "freeze":
            env[i.id] = ev(fr, i.ops[0], st)
            return None
        if op == "ptrtoint":
            v = ev(fr, i.ops[0], st)
            if i.ty.width == 64:
                env[i.id] = PInt(v) if not (isinstance(v, Ptr) and v.obj == 0) else norml(v.off)
            else:
                env[i.id] = norm(z3.simplify(z3.Extract(i.ty.width - 1, 0, toint(v))))
            return None
        if op == "inttoptr":
            env[i.id] = int2ptr(ev(fr, i.ops[0], st))
            return None
        if op == "extractvalue":
            v = ev(fr, i.ops[0], st)
            for k in i.x:
                v = v[k]
            env[i.id] = v
            return None
        if op == "insertvalue":
            v = ev(fr, i.ops[0], st)
            x = ev(fr, i.ops[1], st)

            def ins(a, idx):
                a = list(a)
                a[idx[0]] = x if len(idx) == 1 else ins(a[idx[0]], idx[1:])
                return a
            env[i.id] = ins(v, i.x)
            return None
        if op == "bitcast":
            v = ev(fr, i.ops[0], st)
            env[i.id] = self.bitcast(v, i.ops[0].ty, i.ty)
            return None
        if op == "extractelement":
            v, k = ev(fr, i.ops[0], st), ev(fr, i.ops[1], st)
            if not isinstance(k, int):
                raise Unsupported("extractelement symbolic")
            env[i.id] = v[k]
            return None
        if op == "insertelement":
            v, x, k = [ev(fr, o, st) for o in i.ops]
            v = list(v)
            v[k] = x
            env[i.id] = v
            return None
        if op == "shufflevector":
            import re
            a, b = ev(fr, i.ops[0], st), ev(fr, i.ops[1], st)
            ab = list(a) + list(b)
            m = i.text.rsplit(", <", 1)[1]
            if "zeroinitializer" in i.text.rsplit(", <", 1)[1]:
                mask = [0] * i.ty.n
            else:
                mask = [0 if "poison" in s or "undef" in s else int(s.split()[-1]) for s in
                        m[m.index("<") + 1:m.rindex(">")].split(",")] if "<" in m else [0] * i.ty.n
            env[i.id] = [ab[k] for k in mask]
            return None
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fcmp", "fptoui", "fptosi", "uitofp", "sitofp", "fptrunc",
                  "fpext", "frem"):
            env[i.id] = self.fp(fr, i, st)
            return None
        if op in ("resume", "landingpad"):
            return []
        if op == "fence":
            return None
        raise Unsupported("instruction " + op)

    def vmap(self, f, v, ft, tt):
        if ft.kind == "vector":
            return [f(x, ft.elems[0], tt.elems[0]) for x in v]
        return f(v, ft, tt)

    def cast(self, op, v, ft, tt):
        fw, tw = ft.width, tt.width
        if op == "trunc":
            if isinstance(v, int):
                v &= (1 << tw) - 1
                return bool(v) if tw == 1 else v
            v = self.i2bv(v, fw)
            if fw > 64 and tw <= 8:
                bits = [wbit(v, z3.BitVecVal(k, 64)) for k in range(tw)]
                if tw == 1:
                    return norm(bits[0])
                return norm(z3.simplify(z3.Concat(*[z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in reversed(bits)])))
            if tw == 1:
                return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
            return norm(z3.simplify(low_of_sext(z3.simplify(z3.Extract(tw - 1, 0, v)))))
        if fw == 1:
            one = (1 << tw) - 1 if op == "sext" else 1
            if isinstance(v, bool):
                return one if v else 0
            return z3.If(v, z3.BitVecVal(one, tw), z3.BitVecVal(0, tw))
        if isinstance(v, int):
            return v if op == "zext" else sgn(v, fw) & ((1 << tw) - 1)
        v = self.i2bv(v, fw)
        if z3.is_app_of(v, z3.Z3_OP_ITE) and ite_lits(v) is not None:
            return norm(z3.simplify(ite_map(v, lambda k: z3.BitVecVal(k if op == "zext" else sgn(k, fw), tw))))
        if tw > 64 and op == "zext":
            return z3.ZeroExt(tw - fw, v)
        return norm(z3.simplify((z3.ZeroExt if op == "zext" else z3.SignExt)(tw - fw, v)))

    def bitcast(self, v, ft, tt):
        if ft.kind == tt.kind and ft.kind in ("ptr", "int"):
            return v
        if ft.kind == "int" and tt.kind in ("float", "double"):
            return z3.simplify(z3.fpBVToFP(self.i2bv(v, ft.width), z3.Float32() if tt.kind == "float" else z3.Float64()))
        if tt.kind == "int" and ft.kind in ("float", "double"):
            return norm(z3.simplify(z3.fpToIEEEBV(v)))
        if ft.kind == "vector" and tt.kind == "int":
            w = ft.elems[0].width
            parts = [bv(x, w) for x in v]
            return norm(z3.simplify(z3.Concat(*reversed(parts))))
        if ft.kind == "int" and tt.kind == "vector":
            w = tt.elems[0].width
            x = self.i2bv(v, ft.width)
            r = [norm(z3.simplify(z3.Extract(w * k + w - 1, w * k, x))) for k in range(tt.n)]
            return [bool(y) if w == 1 and isinstance(y, int) else y for y in r]
        raise Unsupported("bitcast %r to %r" % (ft, tt))

    def fp(self, fr, i, st):
        op = i.op
        v = [self.ev(fr, o, st) for o in i.ops]
        rm = z3.RNE()
        srt = lambda t: z3.Float32() if t.kind == "float" else z3.Float64()
        if i.ty.kind == "vector" or (i.ops and i.ops[0].ty.kind == "vector"):
            raise Unsupported("vector floating point")
        if op == "fadd":
            return z3.simplify(z3.fpAdd(rm, *fp_order(v[0], v[1])))
        if op == "fsub":
            return z3.simplify(z3.fpSub(rm, v[0], v[1]))
        if op == "fmul":
            return z3.simplify(z3.fpMul(rm, *fp_order(v[0], v[1])))
        if op == "fdiv":
            return z3.simplify(z3.fpDiv(rm, v[0], v[1]))
        if op == "fneg":
            return z3.simplify(z3.fpNeg(v[0]))
        if op == "fcmp":
            a, b = v
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            p = i.x
            base = {"eq": z3.fpEQ(a, b), "gt": z3.fpGT(a, b), "ge": z3.fpGEQ(a, b), "lt": z3.fpLT(a, b),
                    "le": z3.fpLEQ(a, b), "ne": z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))}
            if p == "ord":
                return simp(z3.Not(un))
            if p == "uno":
                return simp(un)
            if p == "true":
                return True
            if p == "false":
                return False
            r = base[p[1:]]
            return simp(z3.Or(un, r) if p[0] == "u" else r)
        if op == "fptoui":
            return norm(z3.simplify(z3.fpToUBV(z3.RTZ(), v[0], z3.BitVecSort(i.ty.width))))
        if op == "fptosi":
            return norm(z3.simplify(z3.fpToSBV(z3.RTZ(), v[0], z3.BitVecSort(i.ty.width))))
        if op == "uitofp":
            return z3.simplify(z3.fpUnsignedToFP(rm, self.i2bv(v[0], i.ops[0].ty.width), srt(i.ty)))
        if op == "sitofp":
            return z3.simplify(z3.fpSignedToFP(rm, self.i2bv(v[0], i.ops[0].ty.width), srt(i.ty)))
        if op in ("fpext", "fptrunc"):
            return z3.simplify(z3.fpFPToFP(rm, v[0], srt(i.ty)))
        raise Unsupported("fp " + op)

    # ------------------------------------------------------------ calls
    def call(self, fr, i, st):
        callee, nd, ud = i.x
        if callee.kind == "asm":
            raise Unsupported("inline asm")
        if callee.kind == "func":
            name = callee.name
        else:
            p = self.nonnull(st, self.ev(fr, callee, st))
            if isinstance(p, PSet):
                # alternatives that the path excludes
                left = [(c, q) for c, q in alts_of(p) if self.feasible(b_and(st.g(), c))]
                if len(left) == 1:
                    p = left[0][1]
            if isinstance(p, Ptr) and p.obj and self.objs[p.obj].fn:
                name = self.objs[p.obj].fn
            else:
                raise Unsupported("indirect call")
        if name.startswith("llvm."):
            r = self.intrinsic(fr, i, st, name)
            return ("state", st) if nd is not None else r
        args = [self.ev(fr, o, st) for o in i.ops]
        h = self.contracts.get(name) or BUILTINS.get(name)
        if h is None and name in self.handlers:
            h = self.handlers[name]
        if h is not None:
            r = h(self, fr, st, i, args)
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State):
                fr.env[i.id] = r[0]
                return ("state", r[1])
            fr.env[i.id] = r
            return ("state", st)
        if name.startswith("_ZN4soro4utls12sassert_impl"):
            # a failing assertion of the project throws (its message is not modelled)
            ty = Ty()
            ty.kind, ty.width, ty.size, ty.store = "int", 8, 1, 1
            c = self.load(st, args[0], ty)
            c = c != 0 if isinstance(c, int) else simp(z3.Extract(0, 0, bv(c, 8)) == 1)
            ok = b_or(c, self.throw_ok)
            self.oblige(st, "assertion of the project holds", "assertion", ok)
            if c is False:
                raise DeadPath()
            if c is not True:
                self.assume(st, c)
            return ("state", st) if nd is not None else None
        fn = self.mod.fns.get(name)
        if fn is None or fn.decl:
            if any(name.startswith(x) for x in THROWERS):
                self.oblige(st, "no unexpected exception (%s)" % self.short(name), "exception", self.throw_ok)
                raise DeadPath()
            raise Unsupported("call to external function " + self.short(name))
        if any(name == x for x in self.stack_names(fr)):
            pass
        v, ns = self.run_fn(fn, args, st, fr.depth + 1)
        fr.env[i.id] = v
        return ("state", ns)

    def stack_names(self, fr):
        return ()

    def cstr(self, p, st):
        if not isinstance(p, Ptr):
            raise Unsupported("symbolic string name")
        c = self.content(st, p.obj)
        off = p.off.const()
        out = []
        while True:
            v = self.flat_read(st, p.obj, off, 1)
            if not isinstance(v, int):
                raise Unsupported("symbolic string")
            if v == 0:
                break
            out.append(v)
            off += 1
        return bytes(out).decode("latin1")

    def intrinsic(self, fr, i, st, name):
        p = name.split(".")
        k = p[1]
        if k in ("lifetime", "dbg", "assume", "experimental", "donothing", "invariant", "sideeffect", "stacksave",
                 "stackrestore", "prefetch"):
            if k == "experimental":
                pass
            return None
        if k in ("trap", "ubsantrap", "debugtrap"):
            self.oblige(st, "no undefined behaviour (overflow/shift/bounds)", "ub", False)
            raise DeadPath()
        if k in ("memcpy", "memmove", "memset"):
            args = [self.ev(fr, o, st) for o in i.ops]
            if k == "memset":
                self.memset(st, args[0], args[1], args[2])
            else:
                self.memcpy(st, args[0], args[1], args[2])
            return None
        a = [self.ev(fr, o, st) for o in i.ops]
        t = i.ty
        if t.kind == "vector":
            n = t.n
            fr.env[i.id] = [self.intr1(k, p, [x[j] if isinstance(x, list) else x for x in a], t.elems[0], i, st)
                            for j in range(n)]
            return None
        fr.env[i.id] = self.intr1(k, p, a, t, i, st)
        return None

    def intr1(self, k, p, a, t, i, st):
        w = t.width
        if k in ("umin", "umax", "smin", "smax"):
            pred = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[k]
            c = self.icmp(pred, a[0], a[1], t)
            return ite_w(c, a[0], a[1], w)
        if k == "abs":
            c = self.icmp("slt", a[0], 0, t)
            return ite_w(c, self.arith("sub", 0, a[0], w, 0), a[0], w)
        if k in ("expect",):
            return a[0]
        if k == "is":  # is.constant
            return False
        if k == "objectsize":
            return M64
        if k == "ctpop":
            if isinstance(a[0], int):
                return bin(a[0]).count("1")
            return popcount(self.i2bv(a[0], w), w)
        if k in ("cttz", "ctlz"):
            if isinstance(a[0], int):
                x = a[0]
                if x == 0:
                    return w
                return (x & -x).bit_length() - 1 if k == "cttz" else w - x.bit_length()
            x = self.i2bv(a[0], w)
            r = z3.BitVecVal(w, w)
            rng = range(w - 1, -1, -1) if k == "cttz" else range(w)
            for b in rng:
                r = z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal(b if k == "cttz" else w - 1 - b, w), r)
            return r
        if k == "bswap":
            x = self.i2bv(a[0], w)
            return norm(z3.simplify(z3.Concat(*[z3.Extract(8 * j + 7, 8 * j, x) for j in range(w // 8)])))
        if k == "bitreverse":
            x = self.i2bv(a[0], w)
            return norm(z3.simplify(z3.Concat(*[z3.Extract(j, j, x) for j in range(w)])))
        if k in ("fshl", "fshr"):
            x = z3.Concat(self.i2bv(a[0], w), self.i2bv(a[1], w))
            s = z3.URem(self.i2bv(a[2], w), z3.BitVecVal(w, w))
            s = z3.ZeroExt(w, s)
            if k == "fshl":
                return norm(z3.simplify(z3.Extract(2 * w - 1, w, x << s)))
            return norm(z3.simplify(z3.Extract(w - 1, 0, z3.LShR(x, s))))
        if k in ("uadd", "usub", "umul", "sadd", "ssub", "smul"):
            kind = p[2]
            signed = k[0] == "s"
            op = k[1:]
            ww = w if kind == "sat" else t.elems[0].width
            x, y = self.i2bv(a[0], ww), self.i2bv(a[1], ww)
            ext = z3.SignExt if signed else z3.ZeroExt
            e = ww if op == "mul" else 2
            X, Y = ext(e, x), ext(e, y)
            R = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op]
            lo = z3.Extract(ww - 1, 0, R)
            ovf = R != ext(e, lo)
            if kind == "with":
                return [self.arith(op, a[0], a[1], ww, 0), simp(ovf)]
            if kind == "sat":
                if signed:
                    mx, mn = z3.BitVecVal((1 << (ww - 1)) - 1, ww), z3.BitVecVal(1 << (ww - 1), ww)
                    return norm(z3.simplify(z3.If(ovf, z3.If(R < 0, mn, mx), lo)))
                return norm(z3.simplify(z3.If(ovf, z3.BitVecVal(0 if op == "sub" else (1 << ww) - 1, ww), lo)))
        if k == "vector" and p[2] == "reduce":
            op = p[3]
            vec = a[-1]
            et = i.ops[-1].ty.elems[0]
            r = vec[0]
            for x in vec[1:]:
                if op in ("add", "mul", "and", "or", "xor"):
                    r = self.arith(op, r, x, et.width, 0)
                else:
                    r = self.intr1(op, [None, op], [r, x], et, i, st)
            return r
        if k == "fabs":
            x = a[0]
            if z3.is_app_of(x, z3.Z3_OP_FPA_ADD):
                # |x + y| = |-x - y| (rounding to nearest is symmetric)
                n = fp_order(*[z3.simplify(z3.fpNeg(x.arg(k))) for k in (1, 2)])
                m = fp_order(x.arg(1), x.arg(2))
                if (n[0].hash(), n[1].hash()) < (m[0].hash(), m[1].hash()):
                    m = n
                x = z3.fpAdd(z3.RNE(), *m)
            return z3.simplify(z3.fpAbs(x))
        if k in ("floor", "ceil", "trunc", "rint", "nearbyint", "round", "roundeven"):
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": z3.RNE(), "nearbyint": z3.RNE(),
                  "round": z3.RNA(), "roundeven": z3.RNE()}[k]
            return z3.simplify(z3.fpRoundToIntegral(rm, a[0]))
        if k == "sqrt":
            return z3.simplify(z3.fpSqrt(z3.RNE(), a[0]))
        if k == "fmuladd":
            return z3.simplify(z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2]))
        if k in ("minnum", "maxnum"):
            return z3.simplify((z3.fpMin if k == "minnum" else z3.fpMax)(a[0], a[1]))
        if k == "eh":
            return 0
        if k == "ucmp" or k == "scmp":
            raise Unsupported(k)
        raise Unsupported("intrinsic " + ".".join(p))

    # ------------------------------------------------------------ mem intrinsics
    def single(self, p, st=None):
        if isinstance(p, Ptr):
            return p
        if st is not None and isinstance(p, PSet):
            ok = [(c, q) for c, q in alts_of(p) if self.feasible(b_and(st.g(), c))]
            if len(ok) == 1:
                return ok[0][1]
        raise Unsupported("bulk memory operation on ambiguous pointer")

    def nonnull(self, st, p):
        """drop null alternatives after recording an obligation"""
        if isinstance(p, PSet):
            keep = []
            for c, q in alts_of(p):
                if q.obj == 0:
                    self.oblige(st, "no null/invalid pointer dereference", "memory", b_not(c))
                else:
                    keep.append((c, q))
            if len(keep) == 1:
                return keep[0][1]
        return p

    def memcpy(self, st, d, s, n):
        n = norml(n) if isinstance(n, Lin) else n
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, (int, Lin)):
            n2 = simp(n)
            n = n2
        if isinstance(n, int) and (isinstance(d, PSet) or isinstance(s, PSet)):
            # word-wise
            self.memcpy_words(st, d, s, n)
            return
        d, s = self.single(d, st), self.single(s, st)
        if isinstance(n, int) and n == 0:
            return
        if d.obj == 0 or s.obj == 0:
            if isinstance(n, int):
                self.oblige(st, "no null/invalid pointer dereference", "memory", False)
                raise DeadPath()
            self.oblige(st, "no null/invalid pointer dereference", "memory", self.lin_zero(mklin(n)))
            return
        cs, cd = self.content(st, s.obj), self.content(st, d.obj)
        so, do = s.off.const(), d.off.const()
        if isinstance(n, int) and isinstance(cs, Flat) and isinstance(cd, Flat) and so is not None and do is not None:
            self.deref_alts(st, s, n, "memcpy source")
            self.deref_alts(st, d, n, "memcpy destination")
            cells = []
            for o, (m, v) in list(cs.cells.items()):
                if o < so + n and so < o + m:
                    if o >= so and o + m <= so + n:
                        cells.append((o - so, m, v))
                    else:
                        lo, hi = max(o, so), min(o + m, so + n)
                        cells.append((lo - so, hi - lo, self.flat_read(st, s.obj, lo, hi - lo)))
            w = self.wcontent(st, d.obj)
            # clear destination
            for o, (m, v) in list(w.cells.items()):
                if o < do + n and do < o + m:
                    if o >= do and o + m <= do + n:
                        del w.cells[o]
                    else:
                        lo, hi = max(o, do), min(o + m, do + n)
                        self.flat_write(st, d.obj, lo, hi - lo, 0)
                        del st.mem[d.obj].cells[lo]
                        w = st.mem[d.obj]
            for o, m, v in cells:
                w.cells[do + o] = (m, v)
            return
        si, di = self.objs[s.obj], self.objs[d.obj]
        if isinstance(cs, Arr) and isinstance(cd, Arr):
            self.adopt(di, st, d.obj, si, cs)
            self.adopt(si, st, s.obj, di, cd)
            cs, cd = self.content(st, s.obj), self.content(st, d.obj)
            if si.stride != di.stride:
                raise Unsupported("memcpy between different strides")
            cnt = self.divcount(n, si.stride)
            i1, f1 = self.arr_index(si, s.off)
            i2, f2 = self.arr_index(di, d.off)
            if f1 or f2:
                raise Unsupported("memcpy from mid-element")
            for info, ix, nm in ((si, i1, "source"), (di, i2, "destination")):
                ok = z3.Or(cnt == 0, z3.And(z3.ULE(ix, info.count), z3.ULE(cnt, info.count - ix)))
                self.oblige(st, "memcpy %s in bounds of %s" % (nm, info.name), "memory", simp(ok))
            w = self.wcontent(st, d.obj)
            for k, node in list(cs.fields.items()):
                old = w.fields.get(k) or self.arr_field(w, di, k[0], k[1])
                w.fields[k] = NCopy(old, i2, cnt, node, i1)
            return
        if isinstance(n, int):
            self.memcpy_words(st, d, s, n)
            return
        if isinstance(cd, Arr) and isinstance(cs, Flat) or isinstance(cs, Arr) and isinstance(cd, Flat):
            # symbolic count between a concrete-size buffer and an array: element by element under guards
            info = di if isinstance(cd, Arr) else si
            other = si if isinstance(cd, Arr) else di
            if info.stride is None:
                info.stride = 0
            raise Unsupported("symbolic memcpy between flat and array objects (%s,%s)" % (si.name, di.name))
        if isinstance(cs, Flat) and isinstance(cd, Flat):
            # symbolic length copy between flat objects: enumerate unit-wise
            self.memcpy_symlen(st, d, s, n)
            return
        raise Unsupported("memcpy with symbolic size")

    def memcpy_symlen(self, st, d, s, n):
        l = mklin(n)
        g = 0
        for x in [sgn(l.c, 64)] + l.coefs():
            g = math.gcd(g, abs(x))
        for x in [sgn(s.off.c, 64)] + s.off.coefs() + [sgn(d.off.c, 64)] + d.off.coefs():
            g = math.gcd(g, abs(x))
        u = 8
        while g % u:
            u //= 2
        si, di = self.objs[s.obj], self.objs[d.obj]
        mx = min(si.size, di.size)
        nt = l.bv()
        for (p, info, nm) in ((s, si, "source"), (d, di, "destination")):
            ok = z3.Or(nt == 0, z3.And(z3.ULE(p.off.bv(), info.size), z3.ULE(nt, z3.BitVecVal(info.size, 64) - p.off.bv())))
            self.oblige(st, "memmove %s in bounds of %s" % (nm, info.name), "memory", simp(ok))
        if mx // u > 1024:
            raise Unsupported("symbolic memmove too large")
        from llvmir import Ty
        ty = Ty()
        ty.kind, ty.width, ty.size, ty.store = "int", 8 * u, u, u
        # read everything first (memmove semantics)
        vals = []
        g0 = st.guard
        for o in range(0, mx, u):
            c = simp(z3.ULT(z3.BitVecVal(o, 64), nt))
            if c is False:
                break
            if not isinstance(c, bool) and not self.feasible(b_and(st.g(), c)):
                break
            try:
                v = self.load1(st, self.padd(s, o), u, ty) if True else None
            except DeadPath:
                break
            vals.append((o, c, v))
        for o, c, v in vals:
            q = self.padd(d, o)
            co = q.off.const()
            try:
                if co is not None:
                    if co + u > di.size:
                        break
                    old = self.flat_read(st, d.obj, co, u)
                    self.flat_write(st, d.obj, co, u, self.ite_cell(c, v, old, 8 * u))
                else:
                    ot = q.off.bv()
                    for k in self.cand(di, q.off, u):
                        old = self.flat_read(st, d.obj, k, u)
                        cc = b_and(c, z3.simplify(ot == z3.BitVecVal(k, 64)))
                        self.flat_write(st, d.obj, k, u, self.ite_cell(cc, v, old, 8 * u))
            except DeadPath:
                break

    def ite_cell(self, c, v, old, w):
        if is_ptr(v) != is_ptr(old):
            v, old = self.as_ptr_cell(v), self.as_ptr_cell(old)
        return ite_w(c, v, old, w)

    def divcount(self, n, stride):
        l = mklin(n)
        if all(x % stride == 0 for x in [sgn(l.c, 64)] + l.coefs()):
            return z3.simplify(Lin(sgn(l.c, 64) // stride, {k: ((sgn(co, 64) // stride) & M64, t)
                                                            for k, (co, t) in l.t.items()}).bv())
        raise Unsupported("size not a multiple of the element size")

    def adopt(self, info, st, oid, other, ocont):
        if info.stride is None and other.stride is not None:
            info.stride = other.stride
            l = info.size
            info.count = self.divcount(l, info.stride)

    def memcpy_words(self, st, d, s, n):
        from llvmir import Ty
        vals = []
        # granularity from the flat side if any
        o = 0
        units = None
        for q in (s, d):
            if isinstance(q, Ptr) and q.obj:
                c = self.content(st, q.obj)
                if isinstance(c, Arr) and c.fields:
                    info = self.objs[q.obj]
                    _, f0 = self.arr_index(info, q.off)
                    units = []
                    pos = 0
                    flds = sorted(c.fields)
                    while pos < n:
                        at = (f0 + pos) % info.stride
                        m = [k for k in flds if k[0] == at]
                        if not m:
                            units.append((pos, 1))
                            pos += 1
                        else:
                            units.append((pos, m[0][1]))
                            pos += m[0][1]
                    break
        if units is None:
            # use cell layout of a flat source when it is concrete
            q = s
            if isinstance(q, PSet):
                q = alts_of(q)[-1][1]
                for c, x in alts_of(s):
                    if x.obj:
                        q = x
            units = []
            c = self.content(st, q.obj) if q.obj else None
            if isinstance(c, Flat) and q.off.const() is not None:
                so = q.off.const()
                pos = 0
                while pos < n:
                    cell = c.cells.get(so + pos)
                    if cell and cell[0] + pos <= n and cell[0] in (1, 2, 4, 8, 64):
                        units.append((pos, cell[0]))
                        pos += cell[0]
                    else:
                        u = 8
                        while (so + pos) % u or pos + u > n or any((so + pos + k) in c.cells for k in range(1, u)):
                            u //= 2
                        units.append((pos, u))
                        pos += u
            else:
                pos = 0
                while pos < n:
                    u = 8
                    while pos % u or pos + u > n:
                        u //= 2
                    units.append((pos, u))
                    pos += u
        for pos, u in units:
            ty = Ty()
            ty.kind, ty.width, ty.size, ty.store = "int", 8 * u, u, u
            alts = self.deref_alts(st, self.padd(s, pos), u, "memcpy load")
            r = None
            for c, q in reversed(alts):
                v = self.load1(st, q, u, ty)
                r = v if r is None else self.ite_cell(c, v, r, 8 * u)
            vals.append((pos, ty, r))
        for pos, ty, v in vals:
            if is_ptr(v):
                pt = Ty()
                pt.kind, pt.width, pt.size, pt.store = "ptr", 64, 8, 8
                self.store_prim(st, self.padd(d, pos), v, pt)
            else:
                self.store_prim(st, self.padd(d, pos), v, ty)

    def memset(self, st, d, v, n):
        n = norml(n) if isinstance(n, Lin) else (n if isinstance(n, int) else simp(n))
        if isinstance(n, int) and n == 0:
            return
        d = self.single(d, st)
        if d.obj == 0:
            self.oblige(st, "no null/invalid pointer dereference", "memory",
                        False if isinstance(n, int) else self.lin_zero(mklin(n)))
            return
        info = self.objs[d.obj]
        c = self.content(st, d.obj)
        if isinstance(c, Flat):
            do = d.off.const()
            if isinstance(n, int) and do is not None:
                self.deref_alts(st, d, n, "memset")
                pos = 0
                while pos < n:
                    cell = c.cells.get(do + pos)
                    if cell and pos + cell[0] <= n:
                        u = cell[0]
                    else:
                        u = 8
                        while (do + pos) % u or pos + u > n:
                            u //= 2
                    self.flat_write(st, d.obj, do + pos, u, self.rep(v, u))
                    c = st.mem[d.obj]
                    pos += u
                return
            nt = mklin(n).bv()
            ot = d.off.bv()
            ok = z3.Or(nt == 0, z3.And(z3.ULE(ot, info.size), z3.ULE(nt, z3.BitVecVal(info.size, 64) - ot)))
            self.oblige(st, "memset in bounds of %s" % info.name, "memory", simp(ok))
            l = mklin(n)
            g = 8
            for x in [sgn(l.c, 64)] + l.coefs() + [sgn(d.off.c, 64)] + d.off.coefs():
                g = math.gcd(g, abs(x))
            for pos in range(0, info.size - g + 1, g):
                p = z3.BitVecVal(pos, 64)
                cc = simp(z3.And(z3.UGE(p, ot), z3.ULT(p - ot, nt)))
                if cc is False:
                    continue
                old = self.flat_read(st, d.obj, pos, g)
                self.flat_write(st, d.obj, pos, g, self.ite_cell(cc, self.rep(v, g), old, 8 * g))
            return
        if info.stride is None:
            l = mklin(info.size)
            g = 0
            for x in [sgn(l.c, 64)] + l.coefs():
                g = math.gcd(g, abs(x))
            info.stride = g
            info.count = self.divcount(info.size, g)
        cnt = self.divcount(n, info.stride)
        ix, fo = self.arr_index(info, d.off)
        ok = z3.Or(cnt == 0, z3.And(z3.ULE(ix, info.count), z3.ULE(cnt, info.count - ix)))
        self.oblige(st, "memset in bounds of %s" % info.name, "memory", simp(ok))
        w = self.wcontent(st, d.obj)
        if not w.fields:
            s = info.stride
            u = 8
            while s % u:
                u //= 2
            for k in range(0, s, u):
                self.arr_field(w, info, k, u)
        for k in list(w.fields):
            w.fields[k] = NFill(w.fields[k], ix, cnt, bv(self.rep(v, k[1]), 8 * k[1]))

    def rep(self, v, u):
        if isinstance(v, int):
            r = 0
            for k in range(u):
                r |= v << (8 * k)
            return r
        return norm(z3.simplify(z3.Concat(*[v] * u))) if u > 1 else v


def popcount(x, w):
    n = w.bit_length()
    parts = [z3.ZeroExt(n - 1, z3.Extract(k, k, x)) for k in range(w)]
    while len(parts) > 1:
        nxt = []
        for k in range(0, len(parts) - 1, 2):
            nxt.append(parts[k] + parts[k + 1])
        if len(parts) % 2:
            nxt.append(parts[-1])
        parts = nxt
    return z3.ZeroExt(w - n, parts[0]) if w > n else z3.Extract(w - 1, 0, parts[0])


THROWERS = ["_ZSt9terminate", "_ZSt20__throw", "_ZSt19__throw", "_ZSt17__throw", "_ZSt24__throw", "_ZSt28__throw",
            "_ZSt16__throw", "_ZSt18__throw", "_ZSt21__throw", "_ZSt22__throw", "_ZSt23__throw", "_ZSt25__throw",
            "__cxa_throw", "__cxa_rethrow", "abort", "__assert_fail", "__clang_call_terminate", "_ZSt26__throw",
            "_ZSt27__throw", "_ZSt29__throw", "_ZSt15__throw", "exit", "_exit"]


# ---------------------------------------------------------------- builtins
BUILTINS = {}


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


@builtin("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t")
def bi_new(e, fr, st, i, a):
    n = a[0]
    if isinstance(n, Lin):
        n = norml(n)
    if not isinstance(n, (int, Lin)):
        n = mklin(simp(n))
        n = norml(n)
    if isinstance(n, int):
        o = e.new_obj(st, "heap", n)
    else:
        o = e.new_obj(st, "heap", n, Arr({}, None))
        g = 0
        for x in [sgn(n.c, 64)] + n.coefs():
            g = math.gcd(g, abs(x))
        o.stride = g
        o.count = e.divcount(n, g)
        # allocations succeed and size computations do not wrap (assumption, listed in the evidence)
        e.assume(st, z3.ULT(o.count, z3.BitVecVal(1 << 40, 64)))
    o.heap = True
    return Ptr(o.id, Lin(0))


@builtin("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t")
def bi_delete(e, fr, st, i, a):
    return None


@builtin("memcpy", "memmove")
def bi_memcpy(e, fr, st, i, a):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@builtin("memset")
def bi_memset(e, fr, st, i, a):
    e.memset(st, a[0], a[1] if not isinstance(a[1], int) else a[1] & 255, a[2])
    return a[0]


@builtin("strlen")
def bi_strlen(e, fr, st, i, a):
    return len(e.cstr(a[0], st))


@builtin("memcmp", "bcmp")
def bi_memcmp(e, fr, st, i, a):
    n = a[2]
    if not isinstance(n, int):
        raise Unsupported("memcmp with symbolic size")
    from llvmir import Ty
    ty = Ty()
    ty.kind, ty.width, ty.size, ty.store = "int", 8, 1, 1
    r = 0
    res = None
    xs = [(e.load(st, e.padd(a[0], k), ty), e.load(st, e.padd(a[1], k), ty)) for k in range(n)]
    r = z3.BitVecVal(0, 32)
    for x, y in reversed(xs):
        x, y = bv(x, 8), bv(y, 8)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
    return norm(z3.simplify(r))


@builtin("strlen")
def bi_strlen(e, fr, st, i, a):
    """length of a string whose terminator is at a concrete position"""
    ty = Ty()
    ty.kind, ty.width, ty.size, ty.store = "int", 8, 1, 1
    for k in range(4096):
        v = e.load(st, e.padd(a[0], k), ty)
        if isinstance(v, int):
            if v == 0:
                return k
            continue
        z = simp(bv(v, 8) == 0)
        if z is True:
            return k
        if z is not False and e.feasible(b_and(st.g(), z)):
            raise Unsupported("strlen of a string with an unknown length")
    raise Unsupported("strlen of a long string")


@builtin("__cxa_allocate_exception")
def bi_cxa_alloc(e, fr, st, i, a):
    return Ptr(e.new_obj(st, "exception", 256).id, Lin(0))


@builtin("__cxa_throw", "abort", "__assert_fail", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_rethrow")
def bi_throw(e, fr, st, i, a):
    e.oblige(st, "no unexpected exception or abort", "exception", e.throw_ok)
    raise DeadPath()


@builtin("__cxa_guard_acquire")
def bi_guard_acq(e, fr, st, i, a):
    return 1


@builtin("__cxa_guard_release", "__cxa_atexit", "__cxa_free_exception", "_ZNSt8ios_base4InitC1Ev",
         "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt16invalid_argumentC1EPKc",
         "_ZNSt12out_of_rangeC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE")
def bi_nop(e, fr, st, i, a):
    return 0


@builtin("sqrt")
def bi_sqrt(e, fr, st, i, a):
    return z3.simplify(z3.fpSqrt(z3.RNE(), a[0]))


@builtin("pow")
def bi_pow(e, fr, st, i, a):
    v = [z3.simplify(x) for x in a]
    if not all(z3.is_fp_value(x) and not (x.isNaN() or x.isInf()) for x in v):
        raise Unsupported("pow of symbolic numbers")
    f = [float(eval(str(z3.simplify(z3.fpToReal(x)).as_fraction().numerator)) / z3.simplify(z3.fpToReal(x)).as_fraction().denominator) for x in v]
    return z3.FPVal(f[0] ** f[1], v[0].sort())


@builtin("floor", "ceil")
def bi_round(e, fr, st, i, a):
    return z3.simplify(z3.fpRoundToIntegral(z3.RTN() if i.x[0].name == "floor" else z3.RTP(), a[0]))


@builtin("vc_nondet")
def bi_nondet(e, fr, st, i, a):
    name = e.cstr(a[0], st)
    bits = a[1]
    n = e.input_index.get(name, 0)
    e.input_index[name] = n + 1
    t = z3.BitVec("in:%s#%d" % (name, n), bits)
    e.inputs.append((name, bits, t))
    if bits < 64:
        return z3.ZeroExt(64 - bits, t)
    return t


@builtin("vc_result")
def bi_result(e, fr, st, i, a):
    # an unspecified value returned by a callee that is used through its contract
    t = e.freshbv(a[0], "callee")
    return z3.ZeroExt(64 - a[0], t) if a[0] < 64 else t


@builtin("vc_wide_raw")
def bi_wide(e, fr, st, i, a):
    name = e.cstr(a[0], st)
    bits = a[2]
    n = e.input_index.get(name, 0)
    assert n == 0, "wide input used twice"
    W = wide.register("in:%s" % name, bits)
    e.wides.append((name, bits, W))
    e.input_index[name] = bits // 64
    q = e.single(a[1])
    e.flat_write(st, q.obj, q.off.const(), bits // 8, W)
    return None


@builtin("vc_nondet_double")
def bi_nondet_d(e, fr, st, i, a):
    name = e.cstr(a[0], st)
    n = e.input_index.get(name, 0)
    e.input_index[name] = n + 1
    t = z3.BitVec("in:%s#%d" % (name, n), 64)
    e.inputs.append((name, 64, t))
    return z3.fpBVToFP(t, z3.Float64())


@builtin("vc_assume")
def bi_assume(e, fr, st, i, a):
    c = a[0]
    if isinstance(c, bool):
        if not c:
            raise DeadPath()
        return None
    c = simp(c)
    e.assume(st, c)
    if c is False:
        raise DeadPath()
    return None


@builtin("vc_assert")
def bi_assert(e, fr, st, i, a):
    name = e.cstr(a[1], st)
    c = a[0]
    e.oblige(st, name, "contract", c)
    e.returned.append(name)
    if isinstance(c, bool) and not c:
        pass
    return None


@builtin("vc_cover")
def bi_cover(e, fr, st, i, a):
    name = e.cstr(a[0], st)
    c = a[1] if len(a) > 1 else True
    e.covers.append((name, b_and(st.g(), c), len(e.assumes)))
    return None


@builtin("vc_throws_only_if")
def bi_throws(e, fr, st, i, a):
    e.throw_ok = a[0] if isinstance(a[0], bool) else bz(a[0])
    return None


@builtin("vc_ghost")
def bi_ghost(e, fr, st, i, a):
    t = e.i2bv(a[0], 64)
    if not z3.is_bv_value(t):
        e.ghosts.append(t)
    return None


@builtin("vc_symbolic")
def bi_symbolic(e, fr, st, i, a):
    return True


@builtin("vc_array_raw")
def bi_array(e, fr, st, i, a):
    """void* vc_array_raw(name, stride, uint64_t* n_out, uint64 maxn): array of symbolic length and contents"""
    from llvmir import Ty
    name = e.cstr(a[0], st)
    stride = a[1]
    n = z3.BitVec("len:" + name, 64)
    cap = a[3]
    lim = z3.BitVecVal(cap if isinstance(cap, int) and cap else (1 << 40), 64)
    e.assumes.append(z3.ULE(n, lim))
    o = e.new_obj(st, name, Lin(0, {n.get_id(): (stride, n)}), Arr({}, None))
    o.stride, o.count = stride, n
    ty = Ty()
    ty.kind, ty.width, ty.size, ty.store = "int", 64, 8, 8
    e.store(st, a[2], n, ty)
    e.arrays.append((name, o.id, n, stride, st.mem[o.id]))
    return Ptr(o.id, Lin(0))


def field_of(e, st, oid, fo, w):
    return e.content(st, oid)


@builtin("vc_array_field")
def bi_array_field(e, fr, st, i, a):
    """declares a field (offset,width) of a symbolic array"""
    p = e.single(a[0])
    info = e.objs[p.obj]
    w = e.wcontent(st, p.obj)
    fo, n = a[1], a[2]
    node = NBase("arr:%s@%d" % (info.name, fo), n, [])
    w.fields[(fo, n)] = node
    for k, t in enumerate(e.arrays):
        if t[1] == p.obj:
            e.arrays[k] = t[:4] + (w,)
    return None


@builtin("vc_invariant")
def bi_invariant(e, fr, st, i, a):
    """candidate loop invariant: bool f()"""
    fn = e.mod.fns[e.objs[e.single(a[0]).obj].fn]
    if fn not in e.inv_fns:
        e.inv_fns.append(fn)
    return None


@builtin("vc_forall_elem")
def bi_forall1(e, fr, st, i, a):
    """void vc_forall_elem(arr, bool(*pred)(const void* elem, void* ctx), ctx): precondition on every element"""
    p = e.single(a[0])
    fnp = e.single(a[1])
    fn = e.mod.fns[e.objs[fnp.obj].fn]
    info = e.objs[p.obj]
    content = e.content(st, p.obj)
    snap = State(st.guard, dict(st.mem))
    busy = [False]
    done = set()

    def hook(idx):
        k = idx.get_id()
        if k in done:
            return
        done.add(k)
        hook.keep.append(idx)
        saved = (e.obls, e.callstack[:], e.trivial)
        e.obls = []
        s = State((), dict(snap.mem))
        lin = mklin(idx).mul(info.stride)
        v, _ = e.run_fn(fn, [Ptr(p.obj, lin), a[2]], s, fr.depth + 1)
        e.obls, e.callstack, e.trivial = saved
        e.axioms.append(z3.Implies(z3.ULT(idx, info.count), bz(v)))
    hook.keep = []
    for node in content.fields.values():
        node.hooks.append(hook)
        for idx in list(node.memo.values()):
            hook(idx)
    return None


@builtin("vc_forall_pair")
def bi_forall2(e, fr, st, i, a):
    """void vc_forall_pair(arr, pred(const void* x, const void* y, ctx), ctx): holds for all elements x before y"""
    p = e.single(a[0])
    fnp = e.single(a[1])
    fn = e.mod.fns[e.objs[fnp.obj].fn]
    info = e.objs[p.obj]
    content = e.content(st, p.obj)
    snap = State(st.guard, dict(st.mem))
    seen = []
    done = set()

    def inst(x, y):
        saved = (e.obls, e.callstack[:], e.trivial)
        e.obls = []
        s = State((), dict(snap.mem))
        v, _ = e.run_fn(fn, [Ptr(p.obj, mklin(x).mul(info.stride)), Ptr(p.obj, mklin(y).mul(info.stride)), a[2]], s,
                        fr.depth + 1)
        e.obls, e.callstack, e.trivial = saved
        e.axioms.append(z3.Implies(z3.And(z3.ULT(x, y), z3.ULT(y, info.count)), bz(v)))

    def hook(idx):
        k = idx.get_id()
        if k in done:
            return
        done.add(k)
        for o in seen:
            inst(o, idx)
            inst(idx, o)
        seen.append(idx)
    for node in content.fields.values():
        node.hooks.append(hook)
        for idx in list(node.memo.values()):
            hook(idx)
    return None
