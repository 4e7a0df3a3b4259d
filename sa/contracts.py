"""Integer contracts of the multi-word unsigned integers (U128, UInt<..>).

A U256 is one integer, not two words: the operators of `f256::big_uint` are
replaced by exact integer operations on polynomials while the floating point
layer is analysed.  That the operator bodies really compute these integers is
an obligation of its own, discharged body by body by bigint.py (a body is
analysed with the contracts of the next smaller word type in force).
"""
import re
from interp import *

UTY = r"(?:f256::big_uint::)?(?:\w+::)*(?:U128|UInt<[\w:<>]+>)"


def leaves(v):
    if isinstance(v, BV):
        return [v] if v.w == 128 else None
    if isinstance(v, Agg):
        out = []
        for x in v.f:
            y = leaves(x)
            if y is None:
                return None
            out += y
        return out
    return None


class Big:
    """view of a U128 / UInt value: limb list most significant first"""

    def __init__(self, m, s, v):
        self.ptr = None
        while isinstance(v, Ptr):
            self.ptr = v
            v = m.load(s, v)
        self.v = v
        self.l = leaves(v)
        self.n = len(self.l) if self.l else 0
        self.w = 128 * self.n

    def bv(self, F):
        p = ()
        for x in reversed(self.l):
            p = p + tuple(bits(x, F).p)
        return mk(self.w, p)

    def u(self, F):
        return U(self.bv(F), F)


def build(bvw, n, bare=False):
    """nested value of n limbs from a BV of 128*n bits"""
    if n == 1:
        b = bvw if bvw.w == 128 else mk(128, slice_pieces(bvw.p, 0, 128))
        return Agg(0, (b,))
    if n == 6:
        return Agg(0, tuple(build(mk(256, slice_pieces(bvw.p, k, 256)), 2) for k in (512, 256, 0)))
    h = n // 2
    lo = mk(128 * h, slice_pieces(bvw.p, 0, 128 * h))
    hi = mk(128 * h, slice_pieces(bvw.p, 128 * h, 128 * h))
    return Agg(0, (build(hi, h), build(lo, h)))


SIZES = {1, 2, 4, 6}
EXACT_REM = [False]


def big(m, s, v):
    b = Big(m, s, v)
    return b if b.n in SIZES else None


def num(m, s, v, F):
    """poly of an integer or big operand, and its width"""
    while isinstance(v, Ptr):
        v = m.load(s, v)
    if isinstance(v, BV):
        return U(v, F)
    b = Big(m, s, v)
    if not b.n:
        return None
    return b.u(F)


def fits(Q, w, F):
    l, h = F.prange(Q)
    return l >= 0 and h >> w == 0


def none_some(m, v):
    return Agg(1, (v,))


# --- the operations; each returns a value or NOSUM ------------------------

BELOW = []


def unwrapped(Q, w, F):
    """a polynomial congruent to Q modulo 2^w that provably lies in [0, 2^w),
    and below the given divisor, if there is one"""
    from prove import prove, in_range
    M = (1 << w) - 1
    # drop the carries out of the word
    V = Poly({m: c for m, c in Q.t.items() if c & M or not (len(m) == 1 and BASIS[m[0]][1])}, Q.c)
    from poly import lp_range
    for b in sorted({b for m in V.t for b in m}):
        if BASIS[b][0].kind == "div":
            q = Poly({(b,): 1}, 0)
            about = [(Poly(dict(k), 0), r[0], r[1]) for k, r in F.prng.items()
                     if any(len(m) == 2 and b in m for m, _ in k)]
            F.assume_range(q, *lp_range(F, q, extra=about))
    if prove(in_range(V, 0, None), F.copy(), 3, [V]) is not None:
        return Q
    for y in BELOW:
        D = padd(V, y, -1)
        if prove(in_range(D, None, -1), F.copy(), 3, [D]) is None:
            F.assume_range(V, 0, M)
            F.assume_range(D, None, -1)
            return V
    return Q


def op_bin(kind, wrapping=False):
    def h(m, s, a, b):
        F = s.F
        x = big(m, s, a)
        y = num(m, s, b, F)
        if x is None or y is None:
            return NOSUM
        u = x.u(F)
        Q = padd(u, y) if kind == "add" else padd(u, y, -1) if kind == "sub" else pmul(u, y)
        if not wrapping and not fits(Q, x.w, F):
            return NOSUM
        if wrapping and BELOW:
            Q = unwrapped(Q, x.w, F)
        return build(from_poly(Q, x.w, F), x.n)
    return h


def op_shift(left):
    def h(m, s, a, b):
        F = s.F
        x = big(m, s, a)
        if x is None or not isinstance(b, BV):
            return NOSUM
        n = amount(b, F, "shift amount")
        if n >= x.w:
            return NOSUM
        bb = x.bv(F)
        return build(shl(bb, n, F) if left else shr(bb, n, F), x.n)
    return h


def op_bit(op):
    def h(m, s, a, b):
        x, y = big(m, s, a), big(m, s, b)
        if x is None or y is None or x.n != y.n:
            return NOSUM
        return build(bitop(op, x.bv(s.F), y.bv(s.F), s.F), x.n)
    return h


def assign(op):
    def h(m, s, a, b):
        if not isinstance(a, Ptr):
            return NOSUM
        r = op(m, s, a, b)
        if r is NOSUM:
            return r
        m.store_ptr(s, a, r)
        return UNIT
    return h


def cmp_(f):
    def h(m, s, a, b):
        F = s.F
        x, y = big(m, s, a), big(m, s, b)
        if x is None or y is None or x.n != y.n:
            return NOSUM
        return f(x.u(F), y.u(F), F)
    return h


def _cmp(u, v, F):
    d = padd(u, v, -1)
    if decide(lt0(d, F), F, "cmp"):
        return Agg(0, ())
    return Agg(1, ()) if decide(eq0(d, F), F, "cmp") else Agg(2, ())


def _partial(m, s, a, b):
    r = cmp_(_cmp)(m, s, a, b)
    return r if r is NOSUM else Agg(1, (r,))


CMP = {
    "eq": cmp_(lambda u, v, F: eq0(padd(u, v, -1), F)),
    "ne": cmp_(lambda u, v, F: bnot(eq0(padd(u, v, -1), F))),
    "lt": cmp_(lambda u, v, F: lt0(padd(u, v, -1), F)),
    "gt": cmp_(lambda u, v, F: lt0(padd(v, u, -1), F)),
    "le": cmp_(lambda u, v, F: bnot(lt0(padd(v, u, -1), F))),
    "ge": cmp_(lambda u, v, F: bnot(lt0(padd(u, v, -1), F))),
    "cmp": cmp_(_cmp),
    "partial_cmp": _partial,
}


def is_zero(m, s, a):
    x = big(m, s, a)
    return NOSUM if x is None else eq0(x.u(s.F), s.F)


def low_bit(neg):
    def h(m, s, a):
        x = big(m, s, a)
        if x is None:
            return NOSUM
        b = mk(1, slice_pieces(x.bv(s.F).p, 0, 1))
        return bnot(b) if neg else b
    return h


def lz(m, s, a):
    x = big(m, s, a)
    return NOSUM if x is None else clz(x.bv(s.F), s.F)


def tz(m, s, a):
    x = big(m, s, a)
    return NOSUM if x is None else ctz(x.bv(s.F), s.F)


def msb(m, s, a):
    x = big(m, s, a)
    if x is None:
        return NOSUM
    c = S(cast(clz(x.bv(s.F), s.F), 32, False, s.F), s.F)
    Q = padd(pconst(x.w - 1), c, -1)
    if not fits(Q, 32, s.F):
        return NOSUM
    return from_poly(Q, 32, s.F)


def incr(k, cond=False):
    def h(m, s, a, *c):
        F = s.F
        x = big(m, s, a)
        if x is None or x.ptr is None:
            return NOSUM
        d = U(c[0], F) if cond else pconst(1)
        m.store_ptr(s, x.ptr, build(from_poly(padd(x.u(F), d, k), x.w, F), x.n))
        return UNIT
    return h


def ovf(kind, ncarry=False):
    def h(m, s, a, b, *c):
        F = s.F
        x, y = big(m, s, a), big(m, s, b)
        if x is None or y is None:
            return NOSUM
        u, v = x.u(F), y.u(F)
        Q = padd(u, v) if kind == "add" else padd(u, v, -1) if kind == "sub" else pmul(u, v)
        if ncarry:
            Q = padd(Q, U(c[0], F), 1 if kind == "add" else -1)
        fl = overflow(Q, x.w, False, F) if kind != "mul" else bnot(
            lt0(padd(Q, pconst(1 << x.w), -1), F))
        return Agg(0, (build(from_poly(Q, x.w, F), x.n), fl))
    return h


def wide_mul(which):
    def h(m, s, a, b, *c):
        F = s.F
        x, y = big(m, s, a), big(m, s, b)
        if x is None or y is None:
            return NOSUM
        Q = pmul(x.u(F), y.u(F))
        if which == "carry":
            z = big(m, s, c[0])
            Q = padd(Q, z.u(F))
        w = x.w
        l, h_ = F.prange(Q)
        if l < 0 or h_ >> (2 * w):
            F.assume_range(Q, 0, (1 << (2 * w)) - 1)
        t = from_poly(Q, 2 * w, F)
        lo = build(mk(w, slice_pieces(t.p, 0, w)), x.n)
        hi = build(mk(w, slice_pieces(t.p, w, w)), x.n)
        if which == "hi":
            return hi
        if which == "lo":
            return lo
        return Agg(0, (lo, hi))
    return h


def wide_shift(left, carry):
    def h(m, s, a, n, *c):
        F = s.F
        x = big(m, s, a)
        if x is None:
            return NOSUM
        n = amount(n, F, "shift amount")
        if n >= x.w or (carry and n == 0):
            return NOSUM
        b = x.bv(F)
        w = x.w
        r = shl(b, n, F) if left else shr(b, n, F)
        o = const(w, 0) if n == 0 else shr(b, w - n, F) if left else shl(b, w - n, F)
        if carry:
            y = big(m, s, c[0])
            r = bitop("or", r, y.bv(F), F)
        return Agg(0, (build(r, x.n), build(o, x.n)))
    return h


def rem_pow2(m, s, a, n):
    F = s.F
    x = big(m, s, a)
    if x is None:
        return NOSUM
    n = amount(n, F, "rem_pow2")
    if n >= x.w:
        return build(x.bv(F), x.n)
    b = x.bv(F)
    if n == 0:
        return build(const(x.w, 0), x.n)
    return build(mk(x.w, tuple(slice_pieces(b.p, 0, n)) + ((None, 0, x.w - n, False),)), x.n)


def round_pow2(m, s, a, n):
    F = s.F
    x = big(m, s, a)
    if x is None:
        return NOSUM
    n = amount(n, F, "rounding_div_pow2")
    if n >= x.w:
        return NOSUM
    b = x.bv(F)
    if n == 0:
        return build(b, x.n)
    up = round_up_flag(b, n, F)
    q = U(shr(b, n, F), F)
    return build(from_poly(padd(q, U(up, F)), x.w, F), x.n)


def round_up_flag(b, n, F):
    """round-half-even increment of b >> n as a 1-bit value"""
    half = 1 << (n - 1)
    rem = psimp(upoly(mk(n, slice_pieces(b.p, 0, n))), F)
    gt = lt0(padd(pconst(half), rem, -1), F)
    eq = eq0(padd(rem, pconst(half), -1), F)
    odd = mk(1, slice_pieces(b.p, n, 1))
    return bitop("or", gt, bitop("and", eq, odd, F), F)


def div_rem(which, special=False):
    def h(m, s, a, b):
        F = s.F
        x = big(m, s, a)
        y = num(m, s, b, F)
        if x is None or y is None:
            return NOSUM
        l, hh = F.prange(y)
        if l <= 0:
            return NOSUM
        bv_ = b
        while isinstance(bv_, Ptr):
            bv_ = m.load(s, bv_)
        if x.n > 1 and isinstance(bv_, Agg) and len(leaves(bv_)) == x.n:
            # dividend and divisor of the same width: the estimate of the quotient
            # needs a spare bit, unless the divisor has half the width
            if hh >> (x.w // 2) and F.prange(x.u(F))[1] >> (x.w - 1):
                return NOSUM
        if x.n == 4 and isinstance(bv_, Agg) and len(leaves(bv_)) == 2 and not special:
            if hh >> 128 and F.prange(x.u(F))[1] >> 511:
                return NOSUM
        if which == "rem":
            r = udivrem(x.u(F), y, x.w, F)[1] if EXACT_REM[0] else umod(x.u(F), y, x.w, F)
            if isinstance(bv_, BV):
                return from_poly(r, bv_.w, F)
            ny = Big(m, s, bv_).n
            return build(from_poly(r, 128 * ny, F), ny)
        q, r = udivrem(x.u(F), y, x.w, F)
        qv = build(from_poly(q, x.w, F), x.n)
        if isinstance(bv_, BV):
            rv = from_poly(r, bv_.w, F)
        else:
            ny = Big(m, s, bv_).n
            rv = build(from_poly(r, 128 * ny, F), ny)
        if which == "div":
            return qv
        return Agg(0, (qv, rv))
    return h


def shift_left_const(m, s, a, n):
    return op_shift(True)(m, s, a, n)


ADD, SUB, MUL = op_bin("add"), op_bin("sub"), op_bin("mul")
SHL, SHR = op_shift(True), op_shift(False)
OPS = {
    "add": ADD, "sub": SUB, "mul": MUL, "shl": SHL, "shr": SHR,
    "bitor": op_bit("or"), "bitand": op_bit("and"), "bitxor": op_bit("xor"),
    "add_assign": assign(ADD), "sub_assign": assign(SUB), "mul_assign": assign(MUL),
    "shl_assign": assign(SHL), "shr_assign": assign(SHR),
    "bitor_assign": assign(op_bit("or")), "bitand_assign": assign(op_bit("and")),
    "div": div_rem("div"), "rem": div_rem("rem"), "div_rem": div_rem("both"),
    "is_zero": is_zero, "is_odd": low_bit(False), "is_even": low_bit(True),
    "leading_zeros": lz, "trailing_zeros": tz, "msb": msb,
    "incr": incr(1), "decr": incr(-1), "incr_if": incr(1, True), "decr_if": incr(-1, True),
    "overflowing_add": ovf("add"), "overflowing_sub": ovf("sub"), "overflowing_mul": ovf("mul"),
    "carrying_add": ovf("add", True), "borrowing_sub": ovf("sub", True),
    "wrapping_add": op_bin("add", True), "wrapping_sub": op_bin("sub", True),
    "widening_mul": wide_mul("both"), "carrying_mul": wide_mul("carry"),
    "truncating_mul": wide_mul("hi"), "wrapping_mul": wide_mul("lo"),
    "widening_shl": wide_shift(True, False), "carrying_shl": wide_shift(True, True),
    "widening_shr": wide_shift(False, False), "carrying_shr": wide_shift(False, True),
    "rem_pow2": rem_pow2, "rounding_div_pow2": round_pow2,
    "shift_left": shift_left_const, "div_rem_subuint_special": div_rem("both", True),
}
OPS.update(CMP)


def widened(m, s, u, n):
    """u * 2^512 >> n, the bits shifted out collected in the lowest bit"""
    F = s.F
    x = big(m, s, u)
    if x is None or x.n != 2 or not isinstance(n, BV):
        return NOSUM
    k = amount(n, F, "shift amount")
    if k >= 768:
        return NOSUM
    b = x.bv(F)
    if k <= 512:
        return build(mk(768, ((None, 0, 512 - k, False),) + tuple(b.p) + ((None, 0, k, False),)), 6)
    k -= 512
    lost = bnot(eq0(U(mk(k, slice_pieces(b.p, 0, k)), F), F))
    q = mk(256, slice_pieces(b.p, k, 256 - k) + [(None, 0, k, False)])
    low = bitop("or", mk(1, slice_pieces(q.p, 0, 1)), lost, F)
    return build(mk(768, tuple(low.p) + tuple(slice_pieces(q.p, 1, 255)) + ((None, 0, 512, False),)), 6)


U768 = {"iadd": assign(ADD), "isub": assign(SUB), "shl_assign": assign(SHL), "leading_zeros": lz,
        "from_u256_shifted": widened, **CMP}

_RE1 = re.compile(r"^<" + UTY + r" as (?:f256::big_uint::BigUInt|f256::big_uint::DivRem(?:<.*>)?|"
                  r"std::ops::\w+(?:<[^>]*>)?|std::cmp::\w+(?:<.*>)?)>::(\w+)$")
_RE2 = re.compile(r"^f256::big_uint::(?:\w+::)*<impl (?:std::ops::\w+|f256::big_uint::DivRem)(?:<.*>)? for &?(?:mut )?" + UTY + r">::(\w+)$")
_RE3 = re.compile(r"^f256::big_uint::(?:\w+::)*UInt::<" + UTY + r">::(\w+)$")
_RE4 = re.compile(r"^std::cmp::impls::<impl std::cmp::\w+(?:<.*>)? for &(?:mut )?" + UTY + r">::(\w+)$")


_RE5 = re.compile(r"^(?:f256::fused_ops::fma::u768|<f256::fused_ops::fma::u768 as std::(?:ops|cmp)::\w+(?:<.*>)?>)::(\w+)$")
OPS.update({"u768::" + k: v for k, v in U768.items()})


def contract_of(name):
    """method name if the function is a contracted big integer operation"""
    if "u768" in name:
        r = _RE5.match(name)
        return "u768::" + r.group(1) if r and r.group(1) in U768 else None
    if "f256::big_uint" not in name:
        return None
    for r in (_RE1, _RE2, _RE3, _RE4):
        m = r.match(name)
        if m:
            return m.group(1) if m.group(1) in OPS else None
    return None


def handler(name, used=None, maxlimbs=8):
    op = contract_of(name)
    if op is None:
        return None
    f = OPS[op]

    def h(m, s, fr, args, t):
        if op in ("lt", "le", "gt", "ge", "eq", "ne") and name.startswith("std::cmp::impls"):
            pass
        if maxlimbs < 8:
            b = Big(m, s, args[0])
            if b.n > maxlimbs:
                return NOSUM
        try:
            r = f(m, s, *args)
        except TypeError:
            raise
        if r is not NOSUM and used is not None:
            used.add(name)
        return r
    return h
