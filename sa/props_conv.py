"""Rounding to integral values, conversions, scaling, ulp, parts."""
from spec import *
from prove import *
from props_arith import (rounded, sel, absbits, is_nan, is_exact, msb_range, Q0)


def region(c, F, *fs):
    """apply the assumptions; False when the region is empty"""
    try:
        for f in fs:
            f()
        return True
    except Contradiction:
        return False


# ----------------------------------------------------------- integer sources
def j_int(c, w, signed, j, neg):
    """j: position of the top bit of the magnitude, None for zero"""
    F = Facts()
    a = new_atom(w, "i")
    b = atom_bv(a)
    A = upoly(b)
    name = ("from_i" if signed else "from_u") + str(w)
    what = f"{name}({'zero' if j is None else ('-' if neg else '') + '2^%d..' % j})"
    if j is None:
        F.assume_range(A, 0, 0)
    elif neg:
        F.assume_range(A, (1 << w) - (2 << j) + 1 if j < w - 1 else 1 << (w - 1), (1 << w) - (1 << j))
    else:
        F.assume_range(A, 1 << j, (2 << j) - 1)
    T = padd(pconst(1 << w), A, -1) if neg else A
    for o in c.explore(name, [b], F):
        if j is None:
            is_exact(c, what, o, pconst(0))
        else:
            rounded(c, what, o, T, pconst(-Q0), pconst(int(neg)))


def int_jobs(tier):
    J = []
    for w in (8, 16, 32, 64, 128):
        for sg in (0, 1):
            nm = ("i" if sg else "u") + str(w)
            J.append(Job(f"from_{nm}/zero", j_int, w, sg, None, 0))
            for j in range(w):
                if not sg or j < w - 1:
                    J.append(Job(f"from_{nm}/+ bit {j}", j_int, w, sg, j, 0))
                if sg:
                    J.append(Job(f"from_{nm}/- bit {j}", j_int, w, sg, j, 1))
    return J


# --------------------------------------------------------------- f32 and f64
def j_float(c, w, kind, j=None):
    fb = 23 if w == 32 else 52
    eb = w - 1 - fb
    bias = (1 << (eb - 1)) - 1
    F = Facts()
    f, e, s = new_atom(fb, "f"), new_atom(eb, "e"), new_atom(1, "s")
    v = mk(w, ((f, 0, fb, False), (e, 0, eb, False), (s, 0, 1, False)))
    Fp, E, S_ = upoly(atom_bv(f)), upoly(atom_bv(e)), upoly(atom_bv(s))
    name = f"from_f{w}"
    top = (1 << eb) - 1
    if kind == "norm":
        F.assume_range(E, 1, top - 1)
    elif kind in ("zero", "sub"):
        F.assume_range(E, 0, 0)
    else:
        F.assume_range(E, top, top)
    if kind in ("zero", "inf"):
        F.assume_range(Fp, 0, 0)
    elif kind == "sub":
        F.assume_range(Fp, 1 << j, (2 << j) - 1)
    elif kind == "nan":
        F.assume_range(Fp, 1, None)
    what = f"{name}({kind})"
    for o in c.explore(name, [v], F):
        if kind == "nan":
            is_nan(c, what, o)
        elif kind == "inf":
            is_exact(c, what, o, padd(pconst(INF), S_, SIGN))
        elif kind == "zero":
            is_exact(c, what, o, pscale(S_, SIGN))
        elif kind == "norm":
            rounded(c, what, o, padd(Fp, pconst(1 << fb)), padd(E, pconst(-bias - fb - Q0)), S_)
        else:
            rounded(c, what, o, Fp, pconst(1 - bias - fb - Q0), S_)


def float_jobs(tier):
    J = []
    for w in (32, 64):
        for k in ("zero", "norm", "inf", "nan"):
            J.append(Job(f"from_f{w}/{k}", j_float, w, k))
        for j in range(23 if w == 32 else 52):
            J.append(Job(f"from_f{w}/sub bit {j}", j_float, w, "sub", j))
    return J


# ------------------------------------------------------------ powers of two
def nbv(F, p=None):
    if p is None:
        return atom_bv(new_atom(32, "n"))
    l, h = F.prange(p)
    if l == h:
        return const(32, l)
    return from_poly(p, 32, F)


def j_pow2_special(c, op, cls):
    F = Facts()
    x = FX(F, "x", cls)
    for o in c.explore(op, [x.val] if op[-1] == "2" and op[:-1] in ("mul", "div") else [x.val, nbv(F)], F):
        what = f"{op}({cls})"
        if x.base == "nan":
            is_nan(c, what, o)
        else:
            is_exact(c, what, o, x.bits)


def j_scale(c, op, cls, j=None, n=None, lo=None, hi=None, rel=None):
    """n: the exponent when fixed; lo..hi: range of the result's exponent
    minus that of the operand; rel: n - e fixed"""
    F = Facts()
    x = FX(F, "x", cls)
    if j is not None:
        msb_range(F, x, j)
    fixed = op in ("mul2", "div2")
    if fixed:
        nv, N = None, pconst(1)
    elif n is not None:
        nv, N = const(32, n), pconst(n)
    elif rel is not None:
        N = padd(x.e, pconst(rel))
        F.assume_range(N, 0, None)
        nv = nbv(F, N)
    else:
        nv = nbv(F)
        N = U(nv, F)
    sgn = 1 if op.startswith("mul") else -1
    X = padd(padd(x.be, N, sgn), pconst(-1))
    if lo is not None or hi is not None:
        if region(c, F, lambda: F.assume_range(X, lo, hi)) is False:
            return
    for o in c.explore(op, [x.val] if fixed else [x.val, nv], F):
        rounded(c, f"{op}({cls})", o, x.m, X, x.S)


def scale_jobs(tier):
    J = []
    for op in ("mul_pow2", "mul2", "div_pow2", "div2"):
        for k in ("nanh", "nanl", "inf", "zero"):
            J.append(Job(f"{op}/{k}", j_pow2_special, op, k))
    a = lambda name, *p, **k: J.append(Job(name, j_scale, *p, **k))
    bits = sel(range(236), (0, 1, 126, 127, 128, 129, 234, 235), tier, 51, 40)
    # the result is infinite from X >= EMAX - 1 on (normal operand)
    a("mul_pow2/norm finite", "mul_pow2", "norm", hi=EMAX - 2)
    a("mul_pow2/norm overflow", "mul_pow2", "norm", lo=EMAX - 1)
    a("mul2/norm", "mul2", "norm")
    a("div2/norm e > 1", "div2", "norm", lo=0)
    a("div2/norm e = 1", "div2", "norm", hi=-1)
    a("div_pow2/norm normal", "div_pow2", "norm", lo=0)
    for d in sel(range(0, 238), (0, 1, 107, 108, 109, 127, 128, 234, 235, 236, 237), "thorough", 52, 20):
        a(f"div_pow2/norm by 2^(e+{d})", "div_pow2", "norm", rel=d)
    a("div_pow2/norm tiny", "div_pow2", "norm", hi=-239)
    for j in bits:
        a(f"mul2/sub bit {j}", "mul2", "sub", j)
        a(f"div2/sub bit {j}", "div2", "sub", j)
        a(f"mul_pow2/sub bit {j} normal", "mul_pow2", "sub", j, lo=237 - j, hi=EMAX + 235 - j - 1)
        a(f"mul_pow2/sub bit {j} overflow", "mul_pow2", "sub", j, lo=EMAX + 236 - j - 1)
        for n in sel(range(0, 237 - j), (0, 1, 236 - j, 235 - j), tier, 53 + j, 12):
            a(f"mul_pow2/sub bit {j} by 2^{n}", "mul_pow2", "sub", j, n=n)
        for n in sel(range(0, j + 3), (0, 1, j, j + 1, j + 2), tier, 54 + j, 12):
            a(f"div_pow2/sub bit {j} by 2^{n}", "div_pow2", "sub", j, n=n)
        a(f"div_pow2/sub bit {j} tiny", "div_pow2", "sub", j, hi=-j - 3)
    return J


# ----------------------------------------------------------------------- ulp
def j_ulp(c, cls, e=None):
    F = Facts()
    x = FX(F, "x", cls)
    if e is not None:
        F.assume_range(x.e, *e)
    what = f"ulp({cls})"
    for o in c.explore("ulp", [x.val], F):
        if not x.finite:
            is_nan(c, what, o)
        elif x.base != "norm":
            is_exact(c, what, o, pconst(1))
        elif e[0] == e[1]:
            is_exact(c, what, o, pconst(1 << (e[0] - 1)))
        else:
            is_exact(c, what, o, pscale(padd(x.e, pconst(-236)), NORM))


def ulp_jobs(tier):
    J = [Job(f"ulp/{k}", j_ulp, k) for k in ("zero", "subh", "subl", "inf", "nanh", "nanl")]
    for e in range(1, 238):
        J.append(Job(f"ulp/norm exponent {e}", j_ulp, "norm", (e, e)))
    J.append(Job("ulp/norm", j_ulp, "norm", (238, EMAX - 1)))
    return J


# --------------------------------------------------------------------- parts
def j_decode(c, op, cls, z=None):
    """z: number of trailing zero bits of the significand"""
    F = Facts()
    x = FX(F, "x", cls)
    if z is not None and not region(c, F, lambda: low_zero(F, x, z)):
        return
    what = f"{op}({cls})"
    for o in c.explore(op, [x.val], F):
        F_ = o.F
        if op == "rt_ses":
            is_exact(c, what + " recombines to the same value", o, x.bits)
            continue
        s, t, cc = o.val.f
        C = padd(U(cc.f[1], F_), U(cc.f[0], F_), 1 << 128)
        d = padd(U(s, F_), x.S, -1)
        c.check(what + ": sign", is_zero(d), o, 5, [d])
        if x.base == "zero":
            c.check(what + ": significand", is_zero(C), o, 5, [C])
            continue
        Z = padd(S(t, F_), padd(x.be, pconst(Q0 - 1)), -1)
        zl, zh = F_.prange(Z)
        if zl != zh:
            c.oblige(what + ": quantum exponent of the operand", F_, o, [Z])
            continue
        d = padd(pscale(C, 1 << zl), x.m, -1) if zl >= 0 else padd(C, pscale(x.m, 1 << -zl), -1)
        c.check(what + ": exact value", is_zero(d), o, 5, [d])


def low_zero(F, x, z):
    """the integral significand has exactly z trailing zeros"""
    if z:
        F.assume_range(U(mk(z, slice_pieces(bits(x_frac(x), F).p, 0, z)), F), 0, 0)
    if z < 236:
        F.assume_bit(slice_pieces(bits(x_frac(x), F).p, z, 1)[0], 1)


def x_frac(x):
    return atom_bv(x.fa)


def j_encode(c, j, sgn, t=None, tl=None):
    """c in 2^j .. 2^(j+1)-1; the quantum exponent t = Q0 + t0, fixed or a
    range of exactly representable values"""
    F = Facts()
    a = new_atom(max(237, j + 1), "c")
    A = upoly(atom_bv(a))
    F.assume_range(A, 1 << j, (2 << j) - 1)
    if t is not None:
        ts, X = const(32, (Q0 + t) & 0xffffffff), pconst(t)
    else:
        b = new_atom(19, "t")
        X = upoly(atom_bv(b))
        F.assume_range(X, *tl)
        # a 32-bit two's complement number Q0 + X
        top = -Q0
        neg = tl[1] < top
        p = padd(X, pconst(Q0 + ((1 << 32) if neg else 0)))
        ts = from_poly(p, 32, F)
    lo = mk(128, slice_pieces(((a, 0, a.w, False),), 0, 128))
    pad = ((None, 0, 256 - a.w, False),) if a.w < 256 else ()
    hi = mk(128, tuple(slice_pieces(((a, 0, a.w, False),), 128, a.w - 128)) + pad)
    what = f"from_sign_exp_signif(significand 2^{j}..)"
    for o in c.explore("from_ses", [const(32, sgn), ts, Agg(0, (hi, lo))], F):
        rounded(c, what, o, A, X, pconst(sgn))


def j_encode_special(c, sgn, t):
    """a zero significand stands for a zero with t = 0 and for an infinity
    with t above the greatest exponent"""
    F = Facts()
    z = const(128, 0)
    for o in c.explore("from_ses", [const(32, sgn), const(32, t), Agg(0, (z, z))], F):
        d = padd(fbits(o.val, o.F), pconst(sgn * SIGN + (INF if t else 0)), -1)
        c.check(f"from_sign_exp_signif({sgn}, {t}, 0)", is_zero(d), o, 5, [d])


def parts_jobs(tier):
    J = [Job(f"decode/{op} {k}", j_decode, op, k) for op in ("as_ses", "rt_ses") for k in ("zero",)]
    zs = (0, 1, 2, 107, 108, 127, 128, 129, 234, 235)
    for z in sel(range(237), zs + (236,), "thorough", 61, 12):
        J.append(Job(f"decode/norm {z} zeros", j_decode, "as_ses", "norm", z))
        J.append(Job(f"decode and encode/norm {z} zeros", j_decode, "rt_ses", "norm", z))
        if z < 236:
            J.append(Job(f"decode/sub {z} zeros", j_decode, "as_ses", "sub", z))
    J = J + [Job(f"encode/{s} zero significand t {t}", j_encode_special, s, t) for s in (0, 1) for t in (0, 262144)]
    for j in sel(range(256), zs + (236,), "thorough", 62, 12):
        for s in (0, 1):
            # normal results: X + j >= 236
            # a wider significand may be rounded up to the next binade
            lo, hi = 236 - j, EMAX - 1 + 235 - j - (j > 236)
            J.append(Job(f"encode/{s} bit {j} t < 0", j_encode, j, s, tl=(lo, -Q0 - 1)))
            J.append(Job(f"encode/{s} bit {j} t >= 0", j_encode, j, s, tl=(-Q0, hi)))
        if j > 236:
            continue
        for t in sel(range(0, 237 - j), (0, 1, 235 - j, 236 - j), tier, 63 + j, 6):
            J.append(Job(f"encode/sub bit {j} t {t}", j_encode, j, t & 1, t=t))
    return J


# --------------------------------------------------------- integral rounding
ROUND = ("trunc", "floor", "ceil", "round", "round_tie_even")


def j_round(c, op, sgn, k):
    """operands with exponent k: 2^k <= |x| < 2^(k+1)"""
    n = 236 - k if k >= 0 else 237
    for case in ("exact", "below", "tie even", "tie odd", "above"):
        F = Facts()
        x = FX(F, "x", "norm", sgn)
        F.assume_range(x.e, BIAS + k, BIAS + k)
        fr = bits(atom_bv(x.fa), F).p
        if k >= 0:
            r = upoly(mk(n, slice_pieces(fr, 0, n)))
            half = 1 << (n - 1)
            rng = {"exact": (0, 0), "below": (1, half - 1), "above": (half + 1, None)}.get(case, (half, half))
            if rng[1] is not None and rng[1] < rng[0]:
                continue
            if not region(c, F, lambda: F.assume_range(r, *rng)):
                continue
            if case.startswith("tie"):
                odd = case == "tie odd"
                if k == 0:
                    if not odd:
                        continue
                else:
                    if not region(c, F, lambda: F.assume_bit(slice_pieces(fr, n, 1)[0], int(odd))):
                        continue
            down = padd(x.absbits, r, -1)
            up = padd(down, pconst(1 << n))
        else:
            # 1/2 <= |x| < 1
            if case in ("exact", "below", "tie odd"):
                continue
            if not region(c, F, lambda: F.assume_range(x.f, *((0, 0) if case == "tie even" else (1, None)))):
                continue
            down, up = pconst(0), pconst(BIAS << 236)
        away = {"trunc": False, "floor": sgn == 1, "ceil": sgn == 0,
                "round": case in ("tie even", "tie odd", "above"),
                "round_tie_even": case in ("tie odd", "above")}[op]
        if case == "exact":
            away = False
        want = padd(up if away else down, pconst(SIGN * sgn))
        for o in c.explore(op, [x.val], F):
            is_exact(c, f"{op}({'-' if sgn else ''}2^{k}.., {case})", o, want)


def j_round_range(c, op, sgn, kind):
    F = Facts()
    cls = {"tiny": "norm", "huge": "norm", "subh": "subh", "subl": "subl"}.get(kind, kind)
    x = FX(F, "x", cls, sgn)
    if kind == "tiny":
        F.assume_range(x.e, 1, BIAS - 2)
    elif kind == "huge":
        F.assume_range(x.e, BIAS + 236, EMAX - 1)
    small = kind in ("tiny", "subh", "subl")
    for o in c.explore(op, [x.val], F):
        what = f"{op}({'-' if sgn else ''}{kind})"
        if kind.startswith("nan"):
            is_nan(c, what, o)
        elif small:
            away = op == "floor" and sgn or op == "ceil" and not sgn
            is_exact(c, what, o, pconst((BIAS << 236 if away else 0) + SIGN * sgn))
        else:
            is_exact(c, what, o, x.bits)


def frac_of(c, op, o):
    """[(value, F)]: the fractional part in the result of fract or split"""
    if op == "fract":
        return o
    q = Outcome("ret", o.val.f[1], o.F, None, None)
    q.notes = o.notes
    return q


def j_fract(c, op, sgn, k, j):
    """2^k <= |x| < 2^(k+1), the fraction's top bit is j (None: integral)"""
    F = Facts()
    x = FX(F, "x", "norm", sgn)
    F.assume_range(x.e, BIAS + k, BIAS + k)
    n = 236 - k
    r = upoly(mk(n, slice_pieces(bits(atom_bv(x.fa), F).p, 0, n)))
    F.assume_range(r, *((0, 0) if j is None else (1 << j, (2 << j) - 1)))
    what = f"{op}({'-' if sgn else ''}2^{k}..)"
    for o in c.explore(op, [x.val], F):
        fo = frac_of(c, op, o)
        if op == "split":
            io = Outcome("ret", o.val.f[0], o.F, None, None)
            io.notes = o.notes
            is_exact(c, what + " integral part", io, padd(x.bits, r, -1))
        if j is None:
            ab = absbits(fo)
            c.check(what + ": fraction is zero", is_zero(ab), fo, 5, [ab])
        else:
            rounded(c, what + " fraction", fo, r, pconst(BIAS + k - 1), pconst(sgn))


def j_fract_range(c, op, sgn, kind):
    F = Facts()
    cls = {"small": "norm", "huge": "norm"}.get(kind, kind)
    x = FX(F, "x", cls, sgn)
    if kind == "small":
        F.assume_range(x.e, 1, BIAS - 1)
    elif kind == "huge":
        F.assume_range(x.e, BIAS + 236, EMAX - 1)
    what = f"{op}({'-' if sgn else ''}{kind})"
    for o in c.explore(op, [x.val], F):
        fo = frac_of(c, op, o)
        if op == "split":
            io = Outcome("ret", o.val.f[0], o.F, None, None)
            io.notes = o.notes
            if x.base == "nan":
                is_nan(c, what + " integral part", io)
            else:
                is_exact(c, what + " integral part", io,
                         pconst(SIGN * sgn) if kind in ("small", "subh", "subl", "zero") else x.bits)
        if x.base in ("nan", "inf"):
            is_nan(c, what, fo)
        elif kind in ("huge", "zero"):
            ab = absbits(fo)
            c.check(what + ": fraction is zero", is_zero(ab), fo, 5, [ab])
        else:
            is_exact(c, what, fo, x.bits)


def round_jobs(tier):
    J = []
    ks = range(-1, 236)
    for s in (0, 1):
        for op in ROUND:
            for k in ks:
                J.append(Job(f"{op}/{'-' if s else '+'}2^{k}", j_round, op, s, k))
            for kind in ("tiny", "huge", "subh", "subl", "zero", "inf", "nanh", "nanl"):
                J.append(Job(f"{op}/{'-' if s else '+'}{kind}", j_round_range, op, s, kind))
        for op in ("fract", "split"):
            for kind in ("small", "huge", "subh", "subl", "zero", "inf", "nanh", "nanl"):
                J.append(Job(f"{op}/{'-' if s else '+'}{kind}", j_fract_range, op, s, kind))
            for k in [k for k in ks if k >= 0]:
                J.append(Job(f"{op}/{'-' if s else '+'}2^{k} integral", j_fract, op, s, k, None))
                js = range(236 - k)
                js = sel(js, (0, 235 - k), tier, 73 + k, 2)
                for j in js:
                    J.append(Job(f"{op}/{'-' if s else '+'}2^{k} bit {j}", j_fract, op, s, k, j))
    return J


# -------------------------------------------------------------------- angles
# 180/pi and pi/180 scaled by 2**SC, floor: enclosures from Machin's formula
SC = 400


def pi_scaled(k):
    """floor of pi * 2**k, up to 2 units"""
    g = k + 64

    def atan_inv(n):
        t = (1 << g) // n
        s, i, q = 0, 1, t
        while q:
            s += (q // i) * (1 if i % 4 == 1 else -1)
            q //= n * n
            i += 2
        return s
    return (16 * atan_inv(5) - 4 * atan_inv(239)) >> (g - k)


def factor(op):
    p = pi_scaled(SC + 64)
    return (180 << (2 * SC + 64)) // p if op == "to_degrees" else p // (180 << 64)


def j_angle_special(c, op, cls):
    F = Facts()
    x = FX(F, "x", cls)
    for o in c.explore(op, [x.val], F):
        what = f"{op}({cls})"
        if x.base == "nan":
            is_nan(c, what, o)
        else:
            is_exact(c, what, o, x.bits)


def j_angle(c, op, cls, j=None, lo=None, hi=None):
    """|result - x * factor| <= 0.51 units in the last place for to_radians,
    1.1 units for to_degrees (whose constant is documented by the test suite
    to have 237 significant bits)"""
    F = Facts()
    x = FX(F, "x", cls)
    if j is not None:
        msb_range(F, x, j)
    X = padd(x.be, pconst(-1))
    if not region(c, F, lambda: F.assume_range(X, lo, hi)):
        return
    for o in c.explore(op, [x.val], F):
        near(c, f"{op}({cls})", o, pscale(x.m, factor(op)), padd(X, pconst(-SC)), x.S,
             (51, 100) if op == "to_radians" else (110, 100))


def near(c, what, o, T, X, sgn, tol=(51, 100), depth=6):
    """the result is within tol units in the last place of
    (-1)**sgn * T * 2**(X+Q0), up to the choice of the binade at its edge"""
    F0 = o.F
    try:
        tl, th = F0.prange(T)
        P = padd(fbits(o.val, F0), sgn, -SIGN)
    except Contradiction:
        return
    for L in range(max(tl, 1).bit_length(), th.bit_length() + 1):
        k = L - 237
        G0 = F0.copy()
        try:
            G0.assume_range(T, 1 << (L - 1), (1 << L) - 1)
            Eb = padd(X, pconst(k + 1))
            el, eh = G0.prange(Eb)
        except Contradiction:
            continue
        if eh >= EMAX:
            G = G0.copy()
            try:
                G.assume_range(Eb, EMAX, None)
                c.oblige(what + ": overflow gives infinity",
                         prove(in_range(P, INF, INF), G, depth, [P]), o, [P])
            except Contradiction:
                pass
        for sub in (0, 1):
            G = G0.copy()
            try:
                G.assume_range(Eb, *((None, 0) if sub else (1, EMAX - 1)))
                xl, xh = G.prange(X)
                if sub and -xh > L:
                    c.oblige(what + ": underflow gives zero",
                             prove(in_range(P, 0, 0), G, depth, [P]), o, [P])
                    continue
                if sub and xl != xh:
                    raise Imprecise("region does not fix the scale of a subnormal result")
                # the result may lie in the binade below that of the exact
                # product when the product is just above the boundary
                D = padd(P, pscale(Eb, NORM), -1)
                for low in ((0,) if sub else (0, 1)):
                    H = G.copy()
                    try:
                        if not sub:
                            H.assume_range(D, *((None, -1) if low else (0, None)))
                        kk = -xl if sub else k - low
                        R = P if sub else padd(P, padd(Eb, pconst(1 + low), -1), -NORM)
                        E = padd(pscale(R, 1 << kk), T, -1)
                        b = (tol[0] << kk) // tol[1]
                        c.oblige(what + (": subnormal" if sub else ": normal") + " result near the exact product",
                                 prove(in_range(E, -b, b), H, depth, [R, E]), o, [R, E])
                    except Contradiction:
                        pass
            except Contradiction:
                pass


def angle_jobs(tier):
    J = []
    for op, up in (("to_degrees", 5), ("to_radians", -6)):
        for k in ("nanh", "nanl", "inf", "zero"):
            J.append(Job(f"{op}/{k}", j_angle_special, op, k))
        a = lambda name, *p, **k: J.append(Job(f"{op}/{name}", j_angle, op, *p, **k))
        a("norm", "norm", lo=10)
        for e in range(0, 10):
            a(f"norm exponent {e + 1}", "norm", lo=e, hi=e)
        for j in range(236):
            a(f"sub bit {j}", "sub", j)
    return J
