"""Bit tests on wide bit vectors (e.g. a 512-bit set), pushed through shifts and bitwise operations to the inputs.
wbit(T, i): bit i of T (False when i >= width), by structural recursion - an equivalence, not an abstraction."""
import z3


def lit64(v):
    return z3.BitVecVal(v, 64)


def low64(s):
    """(64-bit term, wide 'high part is zero' known) for a wide shift amount"""
    w = s.size()
    if w <= 64:
        return (z3.ZeroExt(64 - w, s) if w < 64 else s), True
    if z3.is_bv_value(s):
        v = s.as_long()
        return lit64(min(v, 1 << 62)), True
    k = s.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        return low64(s.arg(0))
    if k == z3.Z3_OP_CONCAT:
        hi = s.arg(0)
        if z3.is_bv_value(hi) and hi.as_long() == 0 and s.num_args() == 2:
            return low64(s.arg(1))
    return None, False


def narrow_shift(s):
    t, ok = low64(s)
    if ok:
        return z3.simplify(t)
    t, h = z3.simplify(z3.Extract(63, 0, s)), z3.simplify(z3.Extract(s.size() - 1, 64, s))
    return z3.simplify(z3.If(h == 0, t, lit64((1 << 62))))


def wbit(T, i, memo=None):
    if memo is None:
        memo = {}
    key = (T.get_id(), i.get_id())
    if key in memo:
        return memo[key][0]
    r = wbit1(T, i, memo)
    memo[key] = (r, T, i)
    return r


def sand(*xs):
    return z3.simplify(z3.And(*xs))


def wbit1(T, i, memo):
    W = T.size()
    if z3.is_bv_value(i):
        iv = i.as_long()
        if iv >= W:
            return z3.BoolVal(False)
    if z3.is_bv_value(T):
        v = T.as_long()
        if v == 0:
            return z3.BoolVal(False)
        if v == (1 << W) - 1:
            return z3.simplify(z3.ULT(i, lit64(W)))
        # runs of ones
        runs, k = [], 0
        while v >> k:
            if (v >> k) & 1:
                s = k
                while (v >> k) & 1:
                    k += 1
                runs.append((s, k))
            else:
                k += 1
        if len(runs) <= 16:
            return z3.simplify(z3.Or(*[i == lit64(a) if b == a + 1 else z3.And(z3.UGE(i, lit64(a)), z3.ULT(i, lit64(b)))
                                       for a, b in runs]))
        return leaf(T, i)
    k = T.decl().kind()
    if k == z3.Z3_OP_BAND:
        return sand(*[wbit(a, i, memo) for a in T.children()])
    if k == z3.Z3_OP_BOR:
        return z3.simplify(z3.Or(*[wbit(a, i, memo) for a in T.children()]))
    if k == z3.Z3_OP_BXOR:
        r = wbit(T.arg(0), i, memo)
        for a in T.children()[1:]:
            r = z3.Xor(r, wbit(a, i, memo))
        return z3.simplify(r)
    if k == z3.Z3_OP_BNOT:
        return sand(z3.ULT(i, lit64(W)), z3.Not(wbit(T.arg(0), i, memo)))
    if k == z3.Z3_OP_ITE:
        return z3.simplify(z3.If(T.arg(0), wbit(T.arg(1), i, memo), wbit(T.arg(2), i, memo)))
    if k == z3.Z3_OP_BSHL:
        s = narrow_shift(T.arg(1))
        return sand(z3.ULE(s, i), z3.ULT(i, lit64(W)), wbit(T.arg(0), z3.simplify(i - s), memo))
    if k == z3.Z3_OP_BLSHR:
        s = narrow_shift(T.arg(1))
        return sand(z3.ULT(s, lit64(W)), z3.ULT(i, lit64(W)), wbit(T.arg(0), z3.simplify(i + s), memo))
    if k == z3.Z3_OP_CONCAT:
        pos, out = 0, z3.BoolVal(False)
        parts = list(reversed(T.children()))
        rs = []
        for p in parts:
            n = p.size()
            rs.append((pos, n, p))
            pos += n
        for pos, n, p in reversed(rs):
            b = wbit(p, z3.simplify(i - lit64(pos)), memo) if not (z3.is_bv_value(p) and p.as_long() == 0) else z3.BoolVal(False)
            out = z3.If(z3.ULT(i, lit64(pos + n)), b, out)
        return z3.simplify(out)
    if k == z3.Z3_OP_ZERO_EXT:
        p = T.arg(0)
        return sand(z3.ULT(i, lit64(p.size())), wbit(p, i, memo))
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = T.params()
        return sand(z3.ULT(i, lit64(W)), wbit(T.arg(0), z3.simplify(i + lit64(lo)), memo))
    if k == z3.Z3_OP_BADD and T.num_args() == 2:
        for a, b in ((T.arg(0), T.arg(1)), (T.arg(1), T.arg(0))):
            if z3.is_bv_value(a) and a.as_long() == (1 << W) - 1 and b.decl().kind() == z3.Z3_OP_BSHL and \
                    z3.is_bv_value(b.arg(0)) and b.arg(0).as_long() == 1:
                # (1 << n) - 1
                n = narrow_shift(b.arg(1))
                return sand(z3.ULT(i, lit64(W)), z3.ULT(i, n))
    if k == z3.Z3_OP_BSUB and z3.is_bv_value(T.arg(1)) and T.arg(1).as_long() == 1:
        b = T.arg(0)
        if b.decl().kind() == z3.Z3_OP_BSHL and z3.is_bv_value(b.arg(0)) and b.arg(0).as_long() == 1:
            n = narrow_shift(b.arg(1))
            return sand(z3.ULT(i, lit64(W)), z3.ULT(i, n))
    return leaf(T, i)


WIDE = {}   # term id -> (term, bit function, [instances])


def register(name, bits):
    W = z3.BitVec(name, bits)
    f = z3.Function("bit:" + name, z3.BitVecSort(64), z3.BoolSort())
    WIDE[W.get_id()] = (W, f, [])
    return W


def reset():
    WIDE.clear()


def links(parts):
    """definition of the bit functions for those wide inputs that also occur as a whole in the query"""
    seen, out = set(), []
    st = list(parts)
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if k in WIDE:
            W, f, inst = WIDE[k]
            w = W.size()
            for i in inst:
                out.append(z3.Implies(z3.ULT(i, lit64(w)),
                                      f(i) == (z3.Extract(0, 0, z3.LShR(W, z3.ZeroExt(w - 64, i))) == z3.BitVecVal(1, 1))))
        st.extend(t.children())
    return out


def leaf(T, i):
    W = T.size()
    reg = WIDE.get(T.get_id())
    if reg is not None:
        reg[2].append(i)
        return z3.And(z3.ULT(i, lit64(W)), reg[1](i)) if not z3.is_bv_value(i) else reg[1](i)
    if z3.is_bv_value(i):
        k = i.as_long()
        return z3.simplify(z3.Extract(k, k, T) == z3.BitVecVal(1, 1))
    s = z3.ZeroExt(W - 64, i) if W > 64 else (z3.Extract(W - 1, 0, i) if W < 64 else i)
    t = z3.Extract(0, 0, z3.LShR(T, s)) == z3.BitVecVal(1, 1)
    return z3.And(z3.ULT(i, lit64(W)), t)
