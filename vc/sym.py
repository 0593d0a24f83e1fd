"""Verification-condition generator: symbolic evaluation of LLVM IR with guards and state merging.

Integers are exact machine integers (bit vectors).  Every memory access, trap, unreachable
point, escaping exception and vc_assert is recorded as a proof obligation.
"""
import math
import time
import z3
from llvmir import Val
from wide import wbit

M64 = (1 << 64) - 1
# keep comparisons and sign extensions in the shape the program has
z3.set_param("rewriter.bv_le2extract", False)
z3.set_param("rewriter.elim_sign_ext", False)


def ite_lits(v, depth=6):
    """[(cond, literal)] of an if-then-else tree over literals, else None"""
    if z3.is_bv_value(v):
        return [(True, v.as_long())]
    if depth and z3.is_app_of(v, z3.Z3_OP_ITE):
        c = v.arg(0)
        a, b = ite_lits(v.arg(1), depth - 1), ite_lits(v.arg(2), depth - 1)
        if a is None or b is None or len(a) + len(b) > 12:
            return None
        return [(b_and(c, x), l) for x, l in a] + [(b_and(b_not(c), x), l) for x, l in b]
    return None


def ite_map(v, f):
    if z3.is_bv_value(v):
        return f(v.as_long())
    return z3.If(v.arg(0), ite_map(v.arg(1), f), ite_map(v.arg(2), f))


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- values
def bv(v, w):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), w)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, (Lin, Ptr)):
        return toint(v)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def bz(v):
    """to z3 Bool"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def norm(t):
    """z3 term -> python constant when literal"""
    if isinstance(t, (int, bool)):
        return t
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def simp(t):
    if isinstance(t, (int, bool)):
        return t
    return norm(z3.simplify(t))


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        r.append(x)
    if not r:
        return True
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def b_or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        r.append(x)
    if not r:
        return False
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


class Lin:
    """const + sum coef*term, mod 2^64"""
    # pd: the value is a difference of two pointers into one object (or a sum of such), hence never wraps
    __slots__ = ("c", "t", "pd")

    def __init__(self, c=0, t=None, pd=False):
        self.c = c & M64
        self.t = t or {}
        self.pd = pd

    def setpd(self):
        self.pd = True
        return self

    def small(self):
        return self.pd or not self.t

    def const(self):
        return self.c if not self.t else None

    def add(self, o, sign=1):
        t = dict(self.t)
        for k, (co, term) in o.t.items():
            if k in t:
                n = (t[k][0] + sign * co) & M64
                if n:
                    t[k] = (n, term)
                else:
                    del t[k]
            else:
                t[k] = ((sign * co) & M64, term)
        return Lin(self.c + sign * o.c, t, self.small() and o.small())

    def mul(self, k):
        k &= M64
        if k == 0:
            return Lin(0)
        t = {}
        for i, (co, term) in self.t.items():
            n = (co * k) & M64
            if n:
                t[i] = (n, term)
        return Lin(self.c * k, t, self.pd)

    def key(self):
        return (self.c, tuple(sorted((k, v[0]) for k, v in self.t.items())))

    def same(self, o):
        return self.key() == o.key()

    def bv(self):
        if not self.t:
            return z3.BitVecVal(self.c, 64)
        r = None
        for k in sorted(self.t):
            co, term = self.t[k]
            if co == 1:
                x = term
            else:
                x = term * z3.BitVecVal(co, 64)
            r = x if r is None else r + x
        if self.c:
            r = r + z3.BitVecVal(self.c, 64)
        return r

    def coefs(self):
        return [sgn(co, 64) for co, _ in self.t.values()]

    def __repr__(self):
        return "Lin(%d%s)" % (sgn(self.c, 64), "".join(" + %d*%s" % (sgn(c, 64), str(t)[:40]) for c, t in self.t.values()))


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def mklin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, (int, bool)):
        return Lin(int(v))
    v = norm(v)
    if isinstance(v, int):
        return Lin(v)
    # structural decomposition of sums / constant multiples / shifts
    d = v.decl().kind()
    if d == z3.Z3_OP_BADD:
        r = Lin(0)
        for i in range(v.num_args()):
            r = r.add(mklin(v.arg(i)))
        return r
    if d == z3.Z3_OP_BMUL and v.num_args() == 2:
        if z3.is_bv_value(v.arg(0)):
            return mklin(v.arg(1)).mul(v.arg(0).as_long())
        if z3.is_bv_value(v.arg(1)):
            return mklin(v.arg(0)).mul(v.arg(1).as_long())
    if d == z3.Z3_OP_BSHL and z3.is_bv_value(v.arg(1)):
        return mklin(v.arg(0)).mul(1 << min(64, v.arg(1).as_long()))
    if d == z3.Z3_OP_BSUB and v.num_args() == 2:
        return mklin(v.arg(0)).add(mklin(v.arg(1)), -1)
    return Lin(0, {v.get_id(): (1, v)})


LOWSEXT = {}


def low_of_sext(t):
    """the low bits of a sign extension are those of its operand (z3's simplifier misses this one)"""
    r = LOWSEXT.get(t.get_id())
    if r is not None:
        return r[0]
    if not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        ch = [low_of_sext(c) for c in t.children()]
        if z3.is_app_of(t, z3.Z3_OP_EXTRACT):
            hi, lo = t.params()
            x = ch[0]
            while lo == 0 and z3.is_app_of(x, z3.Z3_OP_SIGN_EXT) and hi < x.arg(0).size():
                x = x.arg(0)
            r = x if lo == 0 and hi + 1 == x.size() else z3.Extract(hi, lo, x)
        elif all(a.eq(b) for a, b in zip(ch, t.children())):
            r = t
        else:
            r = z3.substitute(t, *[(b, a) for a, b in zip(ch, t.children()) if not a.eq(b)])
    LOWSEXT[t.get_id()] = (r, t)
    return r


def has_wide(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bv(x) and x.size() > 128:
            return True
        st.extend(x.children())
    return False


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)


NULL = Ptr(0, Lin(0))


class PSet:
    """guarded pointer: list of (cond, Ptr), last one is the default"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "PSet%s" % [p for _, p in self.alts]


class PInt:
    """ptrtoint of a Ptr"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


def is_ptr(v):
    return isinstance(v, (Ptr, PSet))


def toint(v):
    if isinstance(v, Lin):
        return v.bv()
    if isinstance(v, PInt):
        v = v.p
    if isinstance(v, Ptr):
        # object base addresses are concrete, well separated, 4GB-aligned numbers
        if v.obj == 0:
            return v.off.bv()
        return Lin((v.obj << 44)).add(v.off).bv()
    if isinstance(v, PSet):
        r = toint(v.alts[-1][1])
        for c, p in reversed(v.alts[:-1]):
            r = z3.If(bz(c), toint(p), r)
        return r
    raise Unsupported("toint %r" % (v,))


def ptr_same(a, b):
    return a.obj == b.obj and a.off.same(b.off)


def mkset(alts):
    """alts: list of (cond, Ptr) evaluated in order"""
    out = []
    for c, p in alts:
        if isinstance(c, bool) and not c:
            continue
        out.append((c, p))
        if isinstance(c, bool) and c:
            break
    # merge duplicates with neighbours
    res = []
    for c, p in out:
        if res and ptr_same(res[-1][1], p):
            res[-1] = (b_or(res[-1][0], c), p)
        else:
            res.append((c, p))
    if len(res) == 1:
        return res[0][1]
    return PSet(res)


def alts_of(v):
    """list of (exact cond, Ptr)"""
    if isinstance(v, Ptr):
        return [(True, v)]
    r, neg = [], []
    for i, (c, p) in enumerate(v.alts):
        if i == len(v.alts) - 1:
            r.append((b_and(*[b_not(n) for n in neg]), p))
        else:
            r.append((b_and(*([b_not(n) for n in neg] + [c])), p))
            neg.append(c)
    return r


def ite(c, a, b):
    """c: bool or z3 Bool"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_ptr(a) or is_ptr(b):
        if not is_ptr(a):
            a = int2ptr(a)
        if not is_ptr(b):
            b = int2ptr(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and ptr_same(a, b):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj != 0:
            t = simp(z3.If(c, a.off.bv(), b.off.bv()))
            return Ptr(a.obj, ite_lin(c, a.off, b.off))
        if isinstance(a, Ptr):
            alts = [(c, a)]
            if isinstance(b, Ptr):
                alts.append((True, b))
            else:
                alts += b.alts[:-1] + [(True, b.alts[-1][1])]
            return mkset_merge(alts)
        else:
            ex = alts_of(a)
            alts = [(b_and(c, g), p) for g, p in ex]
            alts += (b.alts[:-1] + [(True, b.alts[-1][1])]) if isinstance(b, PSet) else [(True, b)]
            return mkset_merge(alts)
    if isinstance(a, PInt) or isinstance(b, PInt):
        if isinstance(a, PInt) and isinstance(b, PInt):
            r = ite(c, a.p, b.p)
            return PInt(r)
        return ite(c, toint(a) if isinstance(a, PInt) else a, toint(b) if isinstance(b, PInt) else b)
    if isinstance(a, Lin) or isinstance(b, Lin):
        return norml(ite_lin(c, mklin(a), mklin(b)))
    if isinstance(a, (list, tuple)):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, bool) or isinstance(b, bool) or (not isinstance(a, int) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else (c if a else b_not(c))
        if isinstance(a, bool):
            return b_or(c, b) if a else b_and(b_not(c), b)
        if isinstance(b, bool):
            return b_or(b_not(c), a) if b else b_and(c, a)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        raise IteConst(a, b)
    if isinstance(a, int):
        a = z3.BitVecVal(a, b.size()) if z3.is_bv(b) else a
    if isinstance(b, int):
        b = z3.BitVecVal(b, a.size()) if z3.is_bv(a) else b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class IteConst(Exception):
    pass


def ite_lin(c, a, b):
    """keeps the common linear part (alignment!) outside of the ite"""
    if a.same(b):
        return a
    d = b.add(a, -1)
    # a + ite(c,0,d) = a + g*ite(c, 0, d/g)
    cs = [sgn(d.c, 64)] + d.coefs()
    g = 0
    for x in cs:
        g = math.gcd(g, abs(x))
    if g & (g - 1):
        g = g & (-g) if g else 1  # keep the power of two only
    if g > 1:
        dd = Lin(sgn(d.c, 64) // g, {k: ((sgn(co, 64) // g) & M64, t) for k, (co, t) in d.t.items()})
    else:
        dd, g = d, 1
    t = z3.If(c, z3.BitVecVal(0, 64), dd.bv())
    r = a.add(Lin(0, {t.get_id(): (g, t)}))
    r.pd = a.small() and b.small()
    return r


def norml(l):
    if isinstance(l, Lin):
        if not l.t:
            return l.c
    return l


def ite_w(c, a, b, w):
    try:
        return ite(c, a, b)
    except IteConst:
        return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))


def ite_ty(c, a, b, ty):
    if isinstance(c, bool):
        return a if c else b
    if ty.kind in ("struct",):
        return [ite_ty(c, x, y, t) for x, y, t in zip(a, b, ty.elems)]
    if ty.kind in ("array", "vector"):
        return [ite_ty(c, x, y, ty.elems[0]) for x, y in zip(a, b)]
    return ite_w(c, a, b, ty.width)


def mkset_merge(alts):
    # merge alternatives of equal pointer
    res = []
    for c, p in alts:
        res.append((c, p))
    # group: if the same object shows up, merge offsets with ite
    ex, neg = [], []
    for i, (c, p) in enumerate(res):
        if i == len(res) - 1:
            g = b_and(*[b_not(n) for n in neg])
        else:
            g = b_and(*([b_not(n) for n in neg] + [c]))
            neg.append(c)
        ex.append((g, p))
    order, groups = [], {}
    for g, p in ex:
        if isinstance(g, bool) and not g:
            continue
        if p.obj not in groups:
            groups[p.obj] = []
            order.append(p.obj)
        groups[p.obj].append((g, p))
    out = []
    for o in order:
        gs = groups[o]
        cond = b_or(*[g for g, _ in gs])
        off = gs[-1][1].off
        for g, p in reversed(gs[:-1]):
            off = ite_lin(g, p.off, off) if not isinstance(g, bool) else p.off
        out.append((cond, Ptr(o, off)))
    if len(out) == 1:
        return out[0][1]
    return PSet(out)


def int2ptr(v):
    if isinstance(v, PInt):
        return v.p
    if isinstance(v, Lin):
        v = norml(v)
    if isinstance(v, int):
        if v == 0:
            return NULL
        if v >> 44 and v & (1 << 43) == 0:
            return Ptr(v >> 44, Lin(v & ((1 << 44) - 1)))  # an address taken apart and put together again (see toint)
        return Ptr(0, Lin(v))
    raise Unsupported("inttoptr of symbolic integer")


# ---------------------------------------------------------------- memory
class Flat:
    """object of concrete size; cells: off -> (nbytes, value)"""
    __slots__ = ("cells", "owner")

    def __init__(self, cells, owner):
        self.cells, self.owner = cells, owner


class Arr:
    """array object: fields (off,width bytes) -> Node"""
    __slots__ = ("fields", "owner")

    def __init__(self, fields, owner):
        self.fields, self.owner = fields, owner


NODES = {}


class NBase:
    __slots__ = ("fn", "w", "name", "memo", "hooks")

    def __init__(self, name, w, hooks=None):
        self.name, self.w = name, w
        self.fn = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8 * w))
        self.memo = {}
        self.hooks = hooks if hooks is not None else []
        NODES[name] = self

    def read(self, i, ex):
        t = self.fn(i)
        k = i.get_id()
        if k not in self.memo:
            self.memo[k] = i
            for h in self.hooks:
                h(i)
        return t


class Derived:
    """a memory node derived from others; reads are shared (nodes form a DAG)"""
    __slots__ = ("memo",)

    def read(self, i, ex):
        k = i.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (i, self.read1(i, ex))
        return r[1]


class NStore(Derived):
    __slots__ = ("prev", "i", "v")

    def __init__(self, prev, i, v):
        self.prev, self.i, self.v, self.memo = prev, i, v, {}

    def read1(self, i, ex):
        c = simp(self.i == i)
        if isinstance(c, bool):
            return self.v if c else self.prev.read(i, ex)
        return z3.If(c, self.v, self.prev.read(i, ex))


class NIte(Derived):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.memo = c, a, b, {}

    def read1(self, i, ex):
        x, y = self.a.read(i, ex), self.b.read(i, ex)
        return x if x.eq(y) else z3.If(self.c, x, y)


class NCopy(Derived):
    """[lo, lo+n) replaced with src[i - lo + so]"""
    __slots__ = ("prev", "lo", "n", "src", "so")

    def __init__(self, prev, lo, n, src, so):
        self.prev, self.lo, self.n, self.src, self.so, self.memo = prev, lo, n, src, so, {}

    def read1(self, i, ex):
        c = simp(z3.ULT(i - self.lo, self.n))
        if isinstance(c, bool):
            return self.src.read(z3.simplify(i - self.lo + self.so), ex) if c else self.prev.read(i, ex)
        return z3.If(c, self.src.read(z3.simplify(i - self.lo + self.so), ex), self.prev.read(i, ex))


class NFill(Derived):
    __slots__ = ("prev", "lo", "n", "v")

    def __init__(self, prev, lo, n, v):
        self.prev, self.lo, self.n, self.v, self.memo = prev, lo, n, v, {}

    def read1(self, i, ex):
        c = simp(z3.ULT(i - self.lo, self.n))
        if isinstance(c, bool):
            return self.v if c else self.prev.read(i, ex)
        return z3.If(c, self.v, self.prev.read(i, ex))


class NMap(Derived):
    """after n iterations of a loop: element idx0 + step*k (step is 1 or -1) holds v[k] for k < n"""
    __slots__ = ("prev", "k", "n", "idx0", "step", "v")

    def __init__(self, prev, k, n, idx0, step, v):
        self.prev, self.k, self.n, self.idx0, self.step, self.v, self.memo = prev, k, n, idx0, step, v, {}

    def read1(self, i, ex):
        k = z3.simplify(i - self.idx0 if self.step == 1 else self.idx0 - i)
        c = simp(z3.ULT(k, self.n))
        if isinstance(c, bool) and not c:
            return self.prev.read(i, ex)
        x = z3.simplify(z3.substitute(self.v, (self.k, k)))
        ex.fire_hooks(x)
        return x if isinstance(c, bool) else z3.If(c, x, self.prev.read(i, ex))


class NConst:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def read(self, i, ex):
        return self.v


class ObjInfo:
    __slots__ = ("id", "name", "size", "stride", "count", "ro", "fn", "heap")

    def __init__(self, id, name, size):
        self.id, self.name, self.size = id, name, size
        self.stride, self.count, self.ro, self.fn, self.heap = None, None, False, None, False


class State:
    __slots__ = ("guard", "mem")

    def __init__(self, guard, mem):
        self.guard = guard  # tuple of z3 Bools
        self.mem = mem

    def fork(self):
        return State(self.guard, dict(self.mem))

    def add(self, c):
        if isinstance(c, bool):
            if c:
                return self
            raise Unsupported("add false guard")
        return State(self.guard + (c,), self.mem)

    def g(self):
        return b_and(*self.guard)


def complementary(a, b):
    if z3.is_not(a) and a.arg(0).eq(b):
        return True
    if z3.is_not(b) and b.arg(0).eq(a):
        return True
    return False


def merge_guards(g1, g2):
    n = 0
    while n < len(g1) and n < len(g2) and g1[n].eq(g2[n]):
        n += 1
    p, r1, r2 = g1[:n], g1[n:], g2[n:]
    if not r1 or not r2:
        return p
    if len(r1) == 1 and len(r2) == 1 and complementary(r1[0], r2[0]):
        return p
    # a | (~a & x) = a | x
    a, b = b_and(*r1), b_and(*r2)
    if len(r1) == 1 and complementary(r1[0], r2[0]):
        b = b_and(*r2[1:])
    elif len(r2) == 1 and complementary(r1[0], r2[0]):
        a = b_and(*r1[1:])
    return p + (z3.Or(bz(a), bz(b)),)


class Obligation:
    __slots__ = ("name", "guard", "cond", "nassume", "kind", "where", "axlist")

    def __init__(self, name, kind, guard, cond, nassume, where):
        self.name, self.kind, self.guard, self.cond = name, kind, guard, cond
        self.nassume, self.where = nassume, where


class Frame:
    __slots__ = ("fn", "env", "rets", "depth", "allocas")

    def __init__(self, fn, depth):
        self.fn, self.env, self.rets, self.depth = fn, {}, [], depth
        self.allocas = []


class Exec:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(unroll=700, cut_after=40, cut=True, depth=200, candidates=4096, check_mem=True, time=600)
        self.o.update(opts or {})
        self.objs = {}
        self.next_obj = 1
        self.assumes = []      # z3 Bools (in order)
        self.axioms = []       # always-valid facts
        self.obls = []
        self.covers = []
        self.inputs = []       # (name, width, term)
        self.arrays = []       # (name, obj, count term, fields)
        self.fresh = 0
        self.gobj = {}
        self.throw_ok = False
        self.handlers = {}
        self.callstack = []
        self.trace_calls = set()
        self.solver = z3.Solver()
        self.models = []
        self.feas_timeout = 600
        self.solver.set("timeout", self.feas_timeout)
        self.nsolver_assume = 0
        self.nsolver_ax = 0
        self.t_solver = 0.0
        self.n_feas = 0
        self.deadline = time.time() + self.o["time"]
        self.loop_specs = []
        self.ghosts = []
        self.atoms = []
        self.terms = []
        self.assumed_contracts = set()
        self.executed_fns = set()
        self.loops_unrolled = {}
        self.loops_cut = {}
        self.quot = {}
        self.wideeq = {}
        self.quiet_obl = 0
        self.where_hint = ""
        self.trivial = 0
        self.input_index = {}
        self.divs = {}
        self.returned = []

    # ---- utilities
    def freshbv(self, w, name="u"):
        self.fresh += 1
        if w == 1:
            return z3.Bool("%s!%d" % (name, self.fresh))
        return z3.BitVec("%s!%d" % (name, self.fresh), w)

    def freshval(self, ty, name="u"):
        if ty.kind == "int":
            return self.freshbv(ty.width, name)
        if ty.kind == "ptr":
            return Ptr(0, Lin(0xdead0000))
        if ty.kind in ("float", "double"):
            self.fresh += 1
            return z3.FP("%s!%d" % (name, self.fresh), z3.Float32() if ty.kind == "float" else z3.Float64())
        if ty.kind == "struct":
            return [self.freshval(t, name) for t in ty.elems]
        if ty.kind in ("array", "vector"):
            return [self.freshval(ty.elems[0], name) for _ in range(ty.n)]
        raise Unsupported("fresh " + ty.kind)

    def new_obj(self, st, name, size, content=None):
        o = ObjInfo(self.next_obj, name, size)
        self.next_obj += 1
        self.objs[o.id] = o
        if content is None:
            content = Flat({}, None)
        st.mem[o.id] = content
        return o

    def oblige(self, st, name, kind, cond):
        if isinstance(cond, bool) and cond:
            self.trivial += 1
            return
        c = simp(bz(cond))
        if isinstance(c, bool) and c:
            self.trivial += 1
            return
        self.obls.append(Obligation(name, kind, st.g(), c, len(self.assumes), self.loc()))

    def loc(self):
        return " < ".join(reversed(self.callstack[-4:])) + ((" " + self.where_hint) if self.where_hint else "")

    def assume(self, st, cond):
        g = st.g()
        if isinstance(cond, bool) and cond:
            return
        self.assumes.append(simp_b(z3.Implies(bz(g), bz(cond)) if not isinstance(g, bool) else bz(cond)))

    def feasible(self, g):
        if isinstance(g, bool):
            return g
        if time.time() > self.deadline:
            raise Unsupported("generation time limit")
        t = time.time()
        self.sync()
        if self.by_model(g):
            self.t_solver += time.time() - t
            return True
        self.n_feas += 1
        r = self.solver.check(g)
        self.t_solver += time.time() - t
        if r == z3.sat and not self.in_dry:
            self.models.insert(0, [self.solver.model(), len(self.assumes), len(self.axioms)])
            del self.models[5:]
        if r == z3.unknown:
            # arithmetic is out of reach here: treat paths as feasible (sound) without spending time on every branch
            self.n_unknown = getattr(self, "n_unknown", 0) + 1
            if self.n_unknown in (4, 20):
                self.feas_timeout = 150 if self.n_unknown == 4 else 40
                self.solver.set("timeout", self.feas_timeout)
        return r != z3.unsat

    def by_model(self, g):
        """a known model of the assumptions that also satisfies g"""
        for m in list(self.models):
            ok = True
            for l, k in ((self.assumes, 1), (self.axioms, 2)):
                if m[k] > len(l):
                    ok = False
                    break
                while m[k] < len(l):
                    if not z3.is_true(m[0].eval(l[m[k]], model_completion=True)):
                        ok = False
                        break
                    m[k] += 1
                if not ok:
                    break
            if not ok:
                if not self.in_dry:
                    self.models.remove(m)
                continue
            if z3.is_true(m[0].eval(g, model_completion=True)):
                return True
        return False

    def sync(self):
        while self.nsolver_assume < len(self.assumes):
            self.solver.add(self.assumes[self.nsolver_assume])
            self.nsolver_assume += 1
        while self.nsolver_ax < len(self.axioms):
            self.solver.add(self.axioms[self.nsolver_ax])
            self.nsolver_ax += 1

    # ---- constants
    def const(self, v, st):
        k = v.kind
        t = v.ty
        if k == "cint":
            return bool(v.data) if t.width == 1 else v.data
        if k == "cfp":
            s = z3.Float32() if t.kind == "float" else z3.Float64()
            return z3.FPVal(v.data, s)
        if k == "null":
            return NULL
        if k in ("undef", "poison"):
            return self.freshval(t, "undef")
        if k == "zeroagg":
            return self.zero(t)
        if k == "agg":
            return [self.const(x, st) for x in v.data]
        if k == "gvar":
            return Ptr(self.global_obj(v.name, st), Lin(0))
        if k == "func":
            key = "fn:" + v.name
            if key not in self.gobj:
                o = self.new_obj(st, key, 1)
                o.fn = v.name
                o.ro = True
                self.gobj[key] = o.id
            return Ptr(self.gobj[key], Lin(0))
        if k == "cexpr":
            op, ops, x = v.data
            vals = [self.const(o, st) for o in ops]
            if op == "getelementptr":
                return self.gep(x, vals, [o.ty for o in ops])
            if op == "ptrtoint":
                return PInt(vals[0])
            if op == "inttoptr":
                return int2ptr(vals[0])
            if op in ("add", "sub"):
                return self.arith(op, vals[0], vals[1], t.width, 0)
            if op == "trunc":
                raise Unsupported("const trunc")
        raise Unsupported("constant kind %s" % k)

    def zero(self, t):
        if t.kind == "int":
            return False if t.width == 1 else 0
        if t.kind == "ptr":
            return NULL
        if t.kind == "float":
            return z3.FPVal(0.0, z3.Float32())
        if t.kind == "double":
            return z3.FPVal(0.0, z3.Float64())
        if t.kind == "struct":
            return [self.zero(x) for x in t.elems]
        if t.kind in ("array", "vector"):
            return [self.zero(t.elems[0]) for _ in range(t.n)]
        raise Unsupported("zero " + t.kind)

    def global_obj(self, name, st):
        if name in self.gobj:
            return self.gobj[name]
        ty, init, isconst = self.mod.ginit(name)
        o = ObjInfo(self.next_obj, "@" + name, ty.size)
        self.next_obj += 1
        self.objs[o.id] = o
        self.gobj[name] = o.id
        cells = {}
        o.ro = isconst
        self.ginit_mem[o.id] = Flat(cells, None)
        if init is not None:
            self.init_cells(cells, 0, ty, init, st)
        return o.id

    def init_cells(self, cells, off, ty, v, st):
        if v.kind == "zeroagg" or v.kind == "null":
            if ty.kind == "struct":
                for t, o in zip(ty.elems, ty.offs):
                    self.init_cells(cells, off + o, t, v, st)
            elif ty.kind in ("array", "vector"):
                e = ty.elems[0]
                for i in range(ty.n):
                    self.init_cells(cells, off + i * e.size, e, v, st)
            else:
                z = self.zero(ty)
                cells[off] = (ty.store, 0 if z is False else z)
            return
        if v.kind in ("undef", "poison"):
            return
        if v.kind == "agg":
            if ty.kind == "struct":
                for x, t, o in zip(v.data, ty.elems, ty.offs):
                    self.init_cells(cells, off + o, t, x, st)
            else:
                e = ty.elems[0]
                for i, x in enumerate(v.data):
                    self.init_cells(cells, off + i * e.size, e, x, st)
            return
        c = self.const(v, st)
        if isinstance(c, bool):
            c = int(c)
        cells[off] = (ty.store, c)

    # ---- memory access
    def content(self, st, oid):
        c = st.mem.get(oid)
        if c is None:
            c = self.ginit_mem.get(oid)
            if c is None:
                raise Unsupported("access to dead object %s" % self.objs[oid].name)
            st.mem[oid] = c
        return c

    def wcontent(self, st, oid):
        c = self.content(st, oid)
        if isinstance(c, Flat):
            n = Flat(dict(c.cells), st) if c.owner is not st else c
        else:
            n = Arr(dict(c.fields), st) if c.owner is not st else c
        st.mem[oid] = n
        return n

    def to_store(self, v, ty):
        """python value -> cell value"""
        if ty.kind == "int":
            if ty.width == 1:
                return ite_w(v, 1, 0, 8) if not isinstance(v, bool) else int(v)
            w = ty.store * 8
            if w != ty.width:
                if isinstance(v, int):
                    return v
                return z3.ZeroExt(w - ty.width, bv(v, ty.width))
            return v
        return v

    def from_load(self, v, ty, st):
        if ty.kind == "int":
            if isinstance(v, (Ptr, PSet)):
                v = PInt(v)
            if not isinstance(v, (int, Lin, PInt)) and z3.is_fp(v):
                v = z3.fpToIEEEBV(v)
            if ty.width == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                v = simp(v)
                if isinstance(v, int):
                    return bool(v & 1)
                if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                    a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
                    if a == b:
                        return bool(a)
                    return v.arg(0) if a else b_not(v.arg(0))
                return simp(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
            w = ty.store * 8
            if w != ty.width and not isinstance(v, int):
                return simp(z3.Extract(ty.width - 1, 0, bv(v, w)))
            return v
        if ty.kind == "ptr":
            if is_ptr(v):
                return v
            if isinstance(v, int) or isinstance(v, (PInt, Lin)):
                return int2ptr(v)
            if z3.is_bv(v) and str(v.decl()).startswith("undef") or z3.is_bv(v):
                # symbolic pointer: only uninitialised memory
                return Ptr(0, Lin(0xdead0000))
            raise Unsupported("load ptr from %s" % type(v))
        if ty.kind in ("float", "double"):
            if isinstance(v, int):
                v = z3.BitVecVal(v, ty.width)
            if z3.is_fp(v):
                return v
            if not z3.is_bv(v):
                v = bv(toint(v), ty.width)
            return z3.simplify(z3.fpBVToFP(v, z3.Float32() if ty.kind == "float" else z3.Float64()))
        return v

    def cell_bytes(self, n, v):
        """-> list of n byte values (python int / BV8)"""
        if isinstance(v, (Ptr, PSet, PInt, Lin)):
            if isinstance(v, Ptr) and v.obj == 0 and v.off.const() is not None:
                v = v.off.const()
            else:
                v = toint(v)
        if isinstance(v, int):
            return [(v >> (8 * i)) & 0xff for i in range(n)]
        if z3.is_fp(v):
            v = z3.fpToIEEEBV(v)
        return [norm(z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))) for i in range(n)]

    def flat_read(self, st, oid, off, n):
        c = self.content(st, oid)
        got = c.cells.get(off)
        if got is not None and got[0] == n:
            return got[1]
        # assemble
        bs = [None] * n
        for o, (m, v) in list(c.cells.items()):
            if o < off + n and off < o + m:
                lo, hi = max(o, off), min(o + m, off + n)
                if isinstance(v, (int,)) or (not isinstance(v, (Ptr, PSet, PInt, Lin))):
                    x = self.extract(v, m, lo - o, hi - lo)
                    bs[lo - off] = (hi - lo, x)
                    for k in range(lo + 1, hi):
                        bs[k - off] = 0
                else:
                    cb = self.cell_bytes(m, v)
                    for k in range(lo, hi):
                        bs[k - off] = (1, cb[k - o])
        parts, k = [], 0
        miss = False
        while k < n:
            if bs[k] is None:
                j = k
                while j < n and bs[j] is None:
                    j += 1
                parts.append((j - k, None, k))
                miss = True
                k = j
            else:
                parts.append((bs[k][0], bs[k][1], k))
                k += bs[k][0]
        if miss:
            wc = self.wcontent(st, oid)
            np = []
            for m, v, k in parts:
                if v is None:
                    v = self.freshbv(8 * m, "undef")
                    wc.cells[off + k] = (m, v)
                np.append((m, v, k))
            parts = np
        if len(parts) == 1:
            return parts[0][1]
        if all(isinstance(v, int) for _, v, _ in parts):
            r = 0
            for m, v, k in parts:
                r |= v << (8 * k)
            return r
        return norm(z3.simplify(z3.Concat(*[bv(v, 8 * m) for m, v, _ in reversed(parts)])))

    def extract(self, v, m, lo, n):
        if lo == 0 and n == m:
            return v
        if isinstance(v, int):
            return (v >> (8 * lo)) & ((1 << (8 * n)) - 1)
        if z3.is_fp(v):
            v = z3.fpToIEEEBV(v)
        return norm(z3.simplify(z3.Extract(8 * (lo + n) - 1, 8 * lo, v)))

    def flat_write(self, st, oid, off, n, v, guard=None):
        c = self.wcontent(st, oid)
        cells = c.cells
        got = cells.get(off)
        if got is None or got[0] != n:
            # split overlapping
            for o, (m, x) in list(cells.items()):
                if o < off + n and off < o + m:
                    del cells[o]
                    if o < off or o + m > off + n:
                        if o < off:
                            if isinstance(x, (Ptr, PSet, PInt, Lin)):
                                x = toint(x)
                            cells[o] = (off - o, self.extract(x, m, 0, off - o))
                        if o + m > off + n:
                            if isinstance(x, (Ptr, PSet, PInt, Lin)):
                                x = toint(x)
                            cells[off + n] = (o + m - off - n, self.extract(x, m, off + n - o, o + m - off - n))
        cells[off] = (n, v)

    def inb(self, info, off, n):
        """in-bounds condition of access [off, off+n)"""
        size = info.size
        co = off.const()
        if isinstance(size, int):
            if co is not None:
                return co + n <= size
            if size < n:
                return False
            return z3.ULE(off.bv(), z3.BitVecVal(size - n, 64))
        idx, fo = self.arr_index(info, off)
        if fo + n <= info.stride:
            return z3.ULT(idx, info.count)
        raise Unsupported("array access across elements")

    def arr_index(self, info, off):
        s = info.stride
        cs = off.coefs()
        if s is None:
            raise Unsupported("array object without stride")
        fo = sgn(off.c, 64) % s
        for c in cs:
            if c % s:
                # try: element-relative symbolic offset
                raise Unsupported("misaligned symbolic offset in %s (stride %d, coef %d)" % (info.name, s, c))
        l = Lin((sgn(off.c, 64) - fo) // s, {k: ((sgn(co, 64) // s) & M64, t) for k, (co, t) in off.t.items()})
        return z3.simplify(l.bv()), fo

    def deref_alts(self, st, p, n, what):
        """checks validity; returns list of (cond, Ptr) of feasible alternatives"""
        if not is_ptr(p):
            p = int2ptr(p)
        res = []
        for c, q in alts_of(p):
            if isinstance(c, bool) and not c:
                continue
            if q.obj == 0:
                if isinstance(c, bool):
                    if not self.feasible(st.g()):
                        raise DeadPath()
                    self.oblige(st, "no null/invalid pointer dereference", "memory", False)
                    raise DeadPath()
                cc = simp(c)
                if cc is False:
                    continue
                if not self.feasible(b_and(st.g(), cc)):
                    continue
                self.oblige(st, "no null/invalid pointer dereference", "memory", b_not(c))
                continue
            info = self.objs[q.obj]
            if info.fn:
                raise Unsupported("data access to function")
            ok = self.inb(info, q.off, n)
            self.oblige(st, "%s in bounds of %s" % (what, info.name), "memory", b_or(b_not(c), ok))
            if isinstance(ok, bool) and not ok:
                if isinstance(c, bool):
                    raise DeadPath()
                continue
            res.append((c, q))
        if not res:
            raise DeadPath()
        return res

    def load_prim(self, st, p, ty):
        n = ty.store
        alts = self.deref_alts(st, p, n, "load")
        r = None
        for c, q in reversed(alts):
            v = self.load1(st, q, n, ty)
            v = self.from_load(v, ty, st)
            r = v if r is None else ite_ty(c, v, r, ty)
        return r

    def load1(self, st, q, n, ty):
        info = self.objs[q.obj]
        content = self.content(st, q.obj)
        if isinstance(content, Arr):
            idx, fo = self.arr_index(info, q.off)
            return self.arr_read(content, info, idx, fo, n)
        co = q.off.const()
        if co is not None:
            return self.flat_read(st, q.obj, co, n)
        offs = self.cand(info, q.off, n)
        ot = q.off.bv()
        res = None
        for o in offs:
            v = self.from_load(self.flat_read(st, q.obj, o, n), ty, st)
            if ty.kind == "int" and ty.width == 1:
                v = self.to_store(v, ty)
            if res is None:
                res = v
            else:
                res = ite_w(z3.simplify(ot == z3.BitVecVal(o, 64)), v, res, 8 * n)
        if res is None:
            raise DeadPath()
        return res

    def cand(self, info, off, n):
        g = 0
        for c in off.coefs():
            g = math.gcd(g, abs(c))
        if g & (g - 1):
            pass
        size = info.size
        base = off.c % g if g else off.c
        if g and (g & (g - 1)) != 0:
            # wrap-around may break residues; only trust the power-of-two part unless small
            base = sgn(off.c, 64) % g
        r = list(range(base, size - n + 1, g or 1))
        if len(r) > self.o["candidates"]:
            raise Unsupported("too many candidate offsets in %s" % info.name)
        return r

    def arr_field(self, content, info, fo, n):
        f = content.fields.get((fo, n))
        if f is not None:
            return f
        for (o, m) in content.fields:
            if o < fo + n and fo < o + m:
                raise Unsupported("overlapping array field access %s %s in %s" % ((o, m), (fo, n), info.name))
        # uninitialised / unknown field
        self.fresh += 1
        node = NBase("%s.f%d_%d!%d" % (info.name, fo, n, self.fresh), n)
        content.fields[(fo, n)] = node
        return node

    def arr_read(self, content, info, idx, fo, n):
        key = (fo, n)
        if key not in content.fields:
            # composed of smaller/larger fields?
            for (o, m) in list(content.fields):
                if o <= fo and fo + n <= o + m:
                    v = content.fields[(o, m)].read(idx, self)
                    return self.extract(v, m, fo - o, n)
            subs = sorted(k for k in content.fields if k[0] >= fo and k[0] + k[1] <= fo + n)
            if subs and sum(k[1] for k in subs) == n:
                return norm(z3.simplify(z3.Concat(*[content.fields[k].read(idx, self) for k in reversed(subs)])))
        return self.arr_field(content, info, fo, n).read(idx, self)

    def store_prim(self, st, p, v, ty):
        n = ty.store
        v = self.to_store(v, ty)
        alts = self.deref_alts(st, p, n, "store")
        for c, q in alts:
            info = self.objs[q.obj]
            content = self.content(st, q.obj)
            if isinstance(content, Arr):
                w = self.wcontent(st, q.obj)
                idx, fo = self.arr_index(info, q.off)
                if is_ptr(v):
                    raise Unsupported("pointer stored into symbolic array")
                vv = bv(v, 8 * n) if not (not isinstance(v, (int, Lin, PInt)) and z3.is_fp(v)) else z3.fpToIEEEBV(v)
                node = self.arr_field(w, info, fo, n)
                new = NStore(node, idx, vv)
                w.fields[(fo, n)] = new if isinstance(c, bool) else NIte(c, new, node)
                continue
            co = q.off.const()
            if co is not None:
                if not isinstance(c, bool):
                    old = self.from_load(self.flat_read(st, q.obj, co, n), ty, st)
                    old = self.to_store(old, ty) if ty.kind == "int" else old
                    nv = ite_w(c, v, old, 8 * n)
                else:
                    nv = v
                self.flat_write(st, q.obj, co, n, nv)
            else:
                ot = q.off.bv()
                for o in self.cand(info, q.off, n):
                    old = self.from_load(self.flat_read(st, q.obj, o, n), ty, st)
                    old = self.to_store(old, ty) if ty.kind == "int" else old
                    cc = z3.simplify(ot == z3.BitVecVal(o, 64))
                    if not isinstance(c, bool):
                        cc = z3.And(c, cc)
                    self.flat_write(st, q.obj, o, n, ite_w(cc, v, old, 8 * n))

    def load(self, st, p, ty):
        if ty.kind == "struct":
            return [self.load(st, self.padd(p, o), t) for t, o in zip(ty.elems, ty.offs)]
        if ty.kind in ("array", "vector"):
            e = ty.elems[0]
            return [self.load(st, self.padd(p, i * e.size), e) for i in range(ty.n)]
        return self.load_prim(st, p, ty)

    def store(self, st, p, v, ty):
        if ty.kind == "struct":
            for x, t, o in zip(v, ty.elems, ty.offs):
                self.store(st, self.padd(p, o), x, t)
            return
        if ty.kind in ("array", "vector"):
            e = ty.elems[0]
            for i in range(ty.n):
                self.store(st, self.padd(p, i * e.size), v[i], e)
            return
        self.store_prim(st, p, v, ty)

    def padd(self, p, lin):
        if isinstance(lin, int):
            lin = Lin(lin)
        if isinstance(p, Ptr):
            return Ptr(p.obj, p.off.add(lin))
        if isinstance(p, PSet):
            return PSet([(c, Ptr(q.obj, q.off.add(lin))) for c, q in p.alts])
        if isinstance(p, PInt):
            return self.padd(p.p, lin)
        raise Unsupported("padd %r" % (p,))

    def gep(self, ty, vals, tys):
        p = vals[0]
        off = Lin(0)
        cur = ty
        for k, (v, t) in enumerate(zip(vals[1:], tys[1:])):
            if k == 0:
                off = off.add(self.idx64(v, t).mul(cur.size))
            elif cur.kind == "struct":
                i = v if isinstance(v, int) else int(v)
                off = off.add(Lin(cur.offs[i]))
                cur = cur.elems[i]
            else:
                cur = cur.elems[0]
                off = off.add(self.idx64(v, t).mul(cur.size))
        return self.padd(p, off)

    def idx64(self, v, t):
        if isinstance(v, PInt):
            v = toint(v)
        if isinstance(v, Lin):
            return v
        if isinstance(v, int):
            return Lin(sgn(v, t.width))
        if t.width < 64:
            v = z3.simplify(z3.SignExt(64 - t.width, v))
        return mklin(v)

    # ---- arithmetic
    def arith(self, op, a, b, w, flags, exact=False):
        mask = (1 << w) - 1
        if w == 1:
            if op in ("xor", "add", "sub"):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if isinstance(b, bool):
                    return b_not(a) if b else a
                if isinstance(a, bool):
                    return b_not(b) if a else b
                return z3.Xor(a, b)
            if op == "and" or op == "mul":
                return b_and(a, b)
            if op == "or":
                return b_or(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            if op == "add":
                return (a + b) & mask
            if op == "sub":
                return (a - b) & mask
            if op == "mul":
                return (a * b) & mask
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & mask if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sa >> min(b, w - 1)) & mask
            if b != 0:
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                if op == "sdiv":
                    q = abs(sa) // abs(sb)
                    return (q if (sa < 0) == (sb < 0) else -q) & mask
                if op == "srem":
                    q = abs(sa) % abs(sb)
                    return (q if sa >= 0 else -q) & mask
        if w == 64 and op in ("add", "sub", "mul", "shl", "ashr", "lshr", "sdiv", "udiv", "and"):
            r = self.lin_arith(op, a, b, exact)
            if r is not None:
                return r
        a, b = self.i2bv(a, w), self.i2bv(b, w)
        if op in ("udiv", "urem", "sdiv", "srem") and z3.is_bv_value(b) and w <= 64:
            r = self.const_div(op, a, b.as_long(), w)
            if r is not None:
                return norm(z3.simplify(r))
        f = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
             "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b),
             "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b),
             "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]
        if w > 64:
            if op == "and":
                for x, y in ((a, b), (b, a)):
                    if z3.is_bv_value(y) and y.as_long() == 1:
                        t = wbit(x, z3.BitVecVal(0, 64))
                        return norm(z3.ZeroExt(w - 1, z3.If(t, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))))
            # kept in the shape the program has: see wide.py
            if op in ("shl", "lshr") and z3.is_bv_value(b) and b.as_long() == 0:
                return norm(a)
            return norm(f())
        return norm(z3.simplify(f()))

    def i2bv(self, v, w):
        if isinstance(v, (Lin, PInt)):
            return toint(v)
        return bv(v, w)

    def lin_arith(self, op, a, b, exact):
        if isinstance(a, PInt) and isinstance(b, PInt) and op == "sub":
            if isinstance(a.p, Ptr) and isinstance(b.p, Ptr) and a.p.obj == b.p.obj:
                return norml(a.p.off.add(b.p.off, -1).setpd())
            # guarded pointers: combine
            r = None
            pairs = []
            for c1, p1 in alts_of(a.p):
                for c2, p2 in alts_of(b.p):
                    c = simp(bz(b_and(c1, c2)))
                    if c is False:
                        continue
                    if p1.obj == p2.obj:
                        pairs.append((c, p1.off.add(p2.off, -1).setpd()))
                    else:
                        pairs.append((c, mklin(z3.simplify(toint(p1) - toint(p2)))))
            r = pairs[-1][1]
            for c, l in reversed(pairs[:-1]):
                r = ite_lin(c, l, r) if not isinstance(c, bool) else l
            return norml(r)
        if isinstance(a, PInt) and op in ("add", "sub") and not isinstance(b, PInt):
            l = self.lin_of(b)
            return PInt(self.padd(a.p, l if op == "add" else Lin(0).add(l, -1)))
        if isinstance(b, PInt) and op == "add":
            return PInt(self.padd(b.p, self.lin_of(a)))
        if isinstance(a, PInt) or isinstance(b, PInt):
            return None
        if not (isinstance(a, Lin) or isinstance(b, Lin)):
            if op in ("add", "sub") or (op in ("mul", "shl") and isinstance(b, int)):
                pass
            else:
                return None
        if op == "add":
            return norml(self.lin_of(a).add(self.lin_of(b)))
        if op == "sub":
            return norml(self.lin_of(a).add(self.lin_of(b), -1))
        if op == "mul":
            if isinstance(b, int):
                return norml(self.lin_of(a).mul(b))
            if isinstance(a, int):
                return norml(self.lin_of(b).mul(a))
            return None
        if op == "shl" and isinstance(b, int) and 24 <= b < 64 and not (isinstance(a, Lin) and a.pd):
            # packing fields into a word, not pointer arithmetic
            x = self.i2bv(a, 64)
            return norm(z3.simplify(z3.Concat(z3.Extract(63 - b, 0, x), z3.BitVecVal(0, b))))
        if op == "shl" and isinstance(b, int) and b < 64:
            return norml(self.lin_of(a).mul(1 << b))
        if op == "and" and isinstance(b, int) and isinstance(a, Lin):
            # clearing low bits that are known to be zero
            low = (~b) & M64
            if low and (low & (low + 1)) == 0:
                if all(x % (low + 1) == 0 for x in [sgn(a.c, 64)] + a.coefs()):
                    return a
            if b and (b & (b + 1)) == 0 and all(x % (b + 1) == 0 for x in [sgn(a.c, 64)] + a.coefs()):
                return 0
            return None
        if op in ("ashr", "sdiv", "lshr", "udiv") and isinstance(b, int) and isinstance(a, Lin):
            k = (1 << b) if op in ("ashr", "lshr") else b
            if k and all(x % k == 0 for x in [sgn(a.c, 64)] + a.coefs()):
                # a = k*m as an integer; |m*k| stays far below 2^63 for pointer differences (object sizes < 2^44)
                if exact or (a.pd and op in ("ashr", "sdiv")):
                    return norml(Lin(sgn(a.c, 64) // k, {i: ((sgn(co, 64) // k) & M64, t) for i, (co, t) in a.t.items()}, a.pd))
        return None

    def const_div(self, op, a, c, w):
        """division by a constant: a quotient function pinned down by q*c <= x < q*c + c (exact, total)"""
        if op[0] == "s":
            if c >> (w - 1) or c == 0:
                return None
            if not top_zero(a):
                if c & (c - 1) == 0:
                    return None
                neg = a < 0
                m = z3.If(neg, -a, a)
                q = self.udiv_const(z3.simplify(m), c, w)
                q = z3.If(neg, -q, q)
                return q if op == "sdiv" else a - q * z3.BitVecVal(c, w)
        if c == 0 or c & (c - 1) == 0:
            return None
        q = self.udiv_const(a, c, w)
        return q if op in ("udiv", "sdiv") else a - q * z3.BitVecVal(c, w)

    def udiv_const(self, a, c, w):
        # narrow to the significant bits, so that equal quotients at different widths are the same term
        n = w
        if z3.is_app_of(a, z3.Z3_OP_CONCAT) and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
            rest = a.children()[1:]
            x = rest[0] if len(rest) == 1 else z3.Concat(*rest)
            if c < (1 << x.size()) and x.size() >= 8:
                return z3.ZeroExt(w - x.size(), self.udiv_const(x, c, x.size()))
            if c >= (1 << x.size()):
                return z3.BitVecVal(0, w)
        y = self.exact_quotient(a, c, w)
        if y is not None:
            return y
        f = z3.Function("udiv%d_%d" % (w, c), z3.BitVecSort(w), z3.BitVecSort(w))
        q = f(a)
        if q.get_id() not in self.divs:
            self.divs[q.get_id()] = q
            cc = z3.BitVecVal(c, w)
            self.axioms.append(z3.And(z3.ULE(q, z3.BitVecVal(((1 << w) - 1) // c, w)), z3.ULE(q * cc, a),
                                      z3.ULT(a - q * cc, cc)))
        return q

    def exact_quotient(self, a, c, w):
        """a == k*y + r with c | k, r < c and no overflow (proved, under the assumptions only): a / c == (k/c)*y"""
        key = (a.get_id(), c, len(self.assumes))
        if key in self.quot:
            return self.quot[key][0]
        out = None
        parts = list(a.children()) if z3.is_app_of(a, z3.Z3_OP_BADD) else [a]
        for n, p in enumerate(parts):
            if z3.is_app_of(p, z3.Z3_OP_BMUL) and p.num_args() == 2 and z3.is_bv_value(p.arg(0)) and \
                    p.arg(0).as_long() % c == 0:
                k, y = p.arg(0).as_long(), p.arg(1)
                rest = parts[:n] + parts[n + 1:]
                r = z3.BitVecVal(0, w)
                for x in rest:
                    r = r + x
                M = (1 << w) - 1
                ok = z3.And(z3.ULE(y, z3.BitVecVal(M // k, w)), z3.ULT(r, z3.BitVecVal(c, w)),
                            z3.ULE(r, z3.BitVecVal(M, w) - z3.BitVecVal(k, w) * y))
                t = time.time()
                self.sync()
                res = self.solver.check(z3.Not(ok))
                self.t_solver += time.time() - t
                if res == z3.unsat:
                    out = z3.simplify(z3.BitVecVal(k // c, w) * y)
                break
        self.quot[key] = (out, a)
        return out

    def lin_of(self, v):
        if isinstance(v, Lin):
            return v
        return mklin(v)

    def icmp(self, pred, a, b, ty):
        if ty.kind == "ptr" or isinstance(a, (PInt, Ptr, PSet)) or isinstance(b, (PInt, Ptr, PSet)):
            return self.pcmp(pred, a, b)
        w = ty.width
        if w == 1:
            a, b = (bz(a), bz(b)) if not (isinstance(a, bool) and isinstance(b, bool)) else (a, b)
            if pred == "eq":
                return a == b if isinstance(a, bool) else simp(a == b)
            if pred == "ne":
                return a != b if isinstance(a, bool) else simp(z3.Xor(a, b))
            if isinstance(a, bool):
                a, b = bz(a), bz(b)
            d = {"ult": lambda: z3.And(z3.Not(a), b), "ugt": lambda: z3.And(a, z3.Not(b)),
                 "ule": lambda: z3.Or(z3.Not(a), b), "uge": lambda: z3.Or(a, z3.Not(b)),
                 "sgt": lambda: z3.And(z3.Not(a), b), "slt": lambda: z3.And(a, z3.Not(b)),
                 "sge": lambda: z3.Or(z3.Not(a), b), "sle": lambda: z3.Or(a, z3.Not(b))}
            return simp(d[pred]())
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            return {"eq": a == b, "ne": a != b, "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b,
                    "sgt": sa > sb, "sge": sa >= sb, "slt": sa < sb, "sle": sa <= sb}[pred]
        if (isinstance(a, Lin) or isinstance(b, Lin)) and pred in ("eq", "ne"):
            d = self.lin_of(a).add(self.lin_of(b), -1)
            r = self.lin_zero(d) if d.small() else simp(d.bv() == z3.BitVecVal(0, 64))
            return r if pred == "eq" else b_not(r)
        if isinstance(a, Lin) and isinstance(b, (int, Lin)) or isinstance(b, Lin) and isinstance(a, int):
            r = self.lin_cmp(pred, a, b)
            if r is not None:
                return r
        a, b = self.i2bv(a, w), self.i2bv(b, w)
        for x, y, sw in ((a, b, False), (b, a, True)):
            if z3.is_bv_value(y) and z3.is_app_of(x, z3.Z3_OP_ITE):
                l = ite_lits(x)
                if l is not None:
                    yv = y.as_long()
                    return simp(b_or(*[c for c, k in l if (self.icmp(pred, yv, k, ty) if sw else self.icmp(pred, k, yv, ty))]))
        if w > 128 and pred in ("eq", "ne"):
            r = self.wide_eq(a, b)
            if r is not None:
                return r if pred == "eq" else b_not(r)
        f = {"eq": lambda: a == b, "ne": lambda: a != b, "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b),
             "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "sgt": lambda: a > b, "sge": lambda: a >= b,
             "slt": lambda: a < b, "sle": lambda: a <= b}[pred]
        return simp(f())

    def wide_eq(self, a, b):
        """equality of wide words by extensionality: a witness bit if they differ, instances at the ghost points and
        at all other witnesses if they are equal"""
        import wide
        d = simp(a == b)
        if isinstance(d, bool) or not self.wides:
            return d if isinstance(d, bool) else None
        if not has_wide(d):
            return d
        key = (a.get_id(), b.get_id())
        if key in self.wideeq:
            return self.wideeq[key][0]
        w = a.size()
        E = self.freshbv(1, "wideeq")
        sk = self.freshbv(64, "bitdiff")
        inst = lambda x, y, i: wide.wbit(x, i) == wide.wbit(y, i)
        self.axioms.append(z3.Or(E, z3.And(z3.ULT(sk, z3.BitVecVal(w, 64)), z3.Not(inst(a, b, sk)))))
        for g in self.ghosts + [x[3] for x in self.wideeq.values()]:
            self.axioms.append(z3.Implies(E, inst(a, b, g)))
        for E2, a2, b2, sk2 in self.wideeq.values():
            self.axioms.append(z3.Implies(E2, inst(a2, b2, sk)))
        self.wideeq[key] = (E, a, b, sk)
        return E

    def lin_zero(self, d):
        """d == 0, dividing out the common power of two (pointer differences never wrap)"""
        if not d.t:
            return d.c == 0
        g = abs(sgn(d.c, 64))
        for x in d.coefs():
            g = math.gcd(g, abs(x))
        g = g or 1
        l = Lin(sgn(d.c, 64) // g, {i: ((sgn(co, 64) // g) & M64, t) for i, (co, t) in d.t.items()})
        return simp(l.bv() == z3.BitVecVal(0, 64))

    def lin_cmp(self, pred, a, b):
        """ordered comparison of byte quantities with a common factor: divide it out.
        Sound because byte offsets/sizes are below 2^44 in magnitude (checked when objects are made)."""
        la, lb = self.lin_of(a), self.lin_of(b)
        g = 0
        for l in (la, lb):
            g = math.gcd(g, abs(sgn(l.c, 64)))
            for x in l.coefs():
                g = math.gcd(g, abs(x))
        if g <= 1 or pred[0] == "u" or not (la.small() and lb.small()):
            return None
        f = lambda l: z3.simplify(Lin(sgn(l.c, 64) // g, {i: ((sgn(co, 64) // g) & M64, t)
                                                       for i, (co, t) in l.t.items()}).bv())
        x, y = f(la), f(lb)
        return simp({"sgt": x > y, "sge": x >= y, "slt": x < y, "sle": x <= y}[pred])

    def pcmp(self, pred, a, b):
        def p(v):
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, (int, Lin)):
                return int2ptr(v)
            if not is_ptr(v):
                raise Unsupported("pointer/int comparison")
            return v
        a, b = p(a), p(b)
        r = None
        terms = []
        for c1, p1 in alts_of(a):
            for c2, p2 in alts_of(b):
                c = b_and(c1, c2)
                if isinstance(c, bool) and not c:
                    continue
                terms.append((c, self.pcmp1(pred, p1, p2)))
        r = terms[-1][1]
        for c, v in reversed(terms[:-1]):
            r = ite(c, v, r)
        return r if isinstance(r, bool) else simp(r)

    def pcmp1(self, pred, p1, p2):
        if p1.obj == p2.obj:
            d = p1.off.add(p2.off, -1)
            if pred == "eq":
                return self.lin_zero(d)
            if pred == "ne":
                return b_not(self.lin_zero(d))
            # ordering inside an object: signed compare of the (small) difference
            if not d.t:
                s = sgn(d.c, 64)
                return {"ugt": s > 0, "uge": s >= 0, "ult": s < 0, "ule": s <= 0,
                        "sgt": s > 0, "sge": s >= 0, "slt": s < 0, "sle": s <= 0}[pred]
            g = abs(sgn(d.c, 64))
            for x in d.coefs():
                g = math.gcd(g, abs(x))
            t = Lin(sgn(d.c, 64) // g, {i: ((sgn(co, 64) // g) & M64, tt) for i, (co, tt) in d.t.items()}).bv()
            z = z3.BitVecVal(0, 64)
            return simp({"ugt": t > z, "uge": t >= z, "ult": t < z, "ule": t <= z,
                         "sgt": t > z, "sge": t >= z, "slt": t < z, "sle": t <= z}[pred])
        if pred == "eq":
            return False
        if pred == "ne":
            return True
        s = {"u": p1.obj < p2.obj, "s": p1.obj < p2.obj}[pred[0]]
        return s if pred[1] == "l" else not s


def top_zero(a):
    """the sign bit is zero, syntactically"""
    if z3.is_bv_value(a):
        return not (a.as_long() >> (a.size() - 1))
    if z3.is_app_of(a, z3.Z3_OP_CONCAT):
        return top_zero(a.arg(0))
    if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT):
        return True
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        return top_zero(a.arg(1)) and top_zero(a.arg(2))
    return False


class DeadPath(Exception):
    pass


def simp_b(t):
    r = z3.simplify(t)
    return r
