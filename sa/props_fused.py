"""Correct rounding of the fused operations and of the square root."""
import witness
from props_arith import *
from props_arith import sel, rounded, is_nan, is_exact, sxor, bitop_not, msb_range, Q0

ALL = ("nanh", "nanl", "inf", "zero", "subh", "subl", "norm")
FIN = ("subh", "subl", "norm")


# ------------------------------------------------------------ sum of squares
def sos_special(c, cx, cy):
    F = Facts()
    x = FX(F, "x", cx)
    y = FX(F, "y", cy)
    what = f"sum_of_squares({cx},{cy})"
    for o in c.explore("sos", [x.val, y.val], F):
        b = (x.base, y.base)
        if "nan" in b:
            # sum_of_squares(inf, NaN) is NaN in this crate
            is_nan(c, what, o)
        elif "inf" in b:
            is_exact(c, what, o, pconst(INF))
        else:
            is_exact(c, what, o, pconst(0))


def sos_round(c, cx, cy, D, A=None, far=False, rel=None, swap=0):
    """|x| >= |y|; D: distance of the exponents, A: range of y's exponent - 1
    (x's when far); swap: the operands are given the other way round"""
    for top in (0, 1, 2) if cx == "norm" else (0,):
        F = Facts()
        x = FX(F, "x", cx)
        e = padd(x.e, pconst(-D)) if cx == cy == "norm" and not far else None
        try:
            y = FX(F, "y", cy, None, e)
            F.assume_range(padd(x.be, y.be, -1), D, None if far else D)
            if rel is not None:
                F.assume_range(padd(x.f, y.f, -1), *((None, -1), (0, 0), (1, None))[rel])
            if A is not None:
                F.assume_range(padd(x.be if far else y.be, pconst(-1)), *A)
            if far:
                T = pscale(pmul(x.m, x.m), 1 << 30)
                X = padd(pscale(x.be, 2), pconst(-2 + Q0 - 30))
                rest = pconst(1)
            else:
                T = padd(pscale(pmul(x.m, x.m), 1 << 2 * D), pmul(y.m, y.m))
                X = padd(pscale(y.be, 2), pconst(-2 + Q0))
                rest = None
            L = 472 + top + (30 if far else 2 * D)
            F.assume_range(T, 1 << L, (2 << L) - 1)
            F.prange(T)
        except Contradiction:
            continue
        what = f"sum_of_squares({cx},{cy}) exponents {D} apart"
        for o in c.explore("sos", [y.val, x.val] if swap else [x.val, y.val], F):
            rounded(c, what, o, T, X, pconst(0), rest=rest)


def sos_zero(c, cx, flip, rx):
    """the other operand is zero: the rounded square"""
    F = Facts()
    x = FX(F, "x", cx)
    y = FX(F, "y", "zero")
    X = padd(pscale(x.be, 2), pconst(-2 + Q0))
    F.assume_range(X, *rx)
    for o in c.explore("sos", [y.val, x.val] if flip else [x.val, y.val], F):
        rounded(c, f"sum_of_squares({cx}, 0)", o, pmul(x.m, x.m), X, pconst(0))


def sos_jobs(tier):
    J = [Job(f"sos/{a},{b}", sos_special, a, b) for a in ALL for b in ALL
         if a[0] in "ni" and a != "norm" or b in ("nanh", "nanl") or "inf" in (a, b)
         or a in ("zero", "subh", "subl") and b in ("zero", "subh", "subl")]
    n = [0]

    def nn(name, *a, **k):
        for swap in (0, 1):
            n[0] += 1
            if tier == "thorough" or swap == (n[0] // 2 * 7919) // 3 % 2:
                J.append(Job(f"sos/{name}" + " swapped" * swap, sos_round, *a, swap=swap, **k))
    # exponents (minus 1) of x: the result is subnormal or at the border of the
    # normal range; it overflows; shifts are fixed beyond
    low = range(130944, 131073)
    tiny = range(130816, 130944)
    over = range(393211, 393340)
    lo_e, ti_e, ov_e = (130949, 130951, 131071, 131072), (130943,), (393213, 393214)

    def split(name, cx, cy, D, a_of, salt, full, **k):
        nn(f"{name} normal", cx, cy, D, (a_of(131073), a_of(393210)), **k)
        nn(f"{name} overflow", cx, cy, D, (a_of(393340), None), **k)
        nn(f"{name} zero", cx, cy, D, (None, a_of(130815)), **k)
        for r, e, w in ((low, lo_e, "low"), (tiny, ti_e, "tiny"), (over, ov_e, "high")):
            if tier == "thorough":
                xs = r if full else sorted(set(e) | {r[(salt * 37 + i * 41) % len(r)] for i in range(3)})
            else:
                xs = sorted({e[salt % len(e)]} | ({r[(salt * 37) % len(r)]} if full else set()))
            for a in xs:
                nn(f"{name} {w} exponent {a}", cx, cy, D, (a_of(a), a_of(a)), **k)
    edge = (0, 1, 2, 9, 10, 11, 118, 119, 237, 247)
    for D in sel(range(248), edge if tier == "thorough" else (0, 9, 10, 11, 247), tier, 41, 3):
        for rel in (0, 1, 2) if D == 0 else (None,):
            r = "" if rel is None else " " + "<=>"[rel]
            split(f"norm,norm {D}{r}", "norm", "norm", D, lambda a: a - D, D + (rel or 0), D in edge and tier == "thorough", rel=rel)
    split("norm,norm far", "norm", "norm", 248, lambda a: a, 5, True, far=True)
    for s in ("subh", "subl"):
        split(f"norm,{s} far", "norm", s, 248, lambda a: a, 7, False, far=True)
        for D in sel(range(248), (0, 247), tier, 46, 1):
            nn(f"norm,{s} {D} zero", "norm", s, D)
    for s in ALL[4:]:
        for k, X in (("normal", (-237, None)), *((f"2^-{v}", (-v, -v)) for v in
                     (list(range(238, 475, 2)) if tier == "thorough" else (238, 366, 474))), ("zero", (None, -475))):
            if s == "norm":
                nn0 = lambda *a: J.append(Job(*a))
                nn0(f"sos/{s},zero {k}", sos_zero, s, 0, X)
                nn0(f"sos/zero,{s} {k}", sos_zero, s, 1, X)
    return J


# --------------------------------------------------------- fused multiply-add
def fma_special(c, op, cx, cy, ca):
    for same in (0, 1):
        F = Facts()
        x = FX(F, "x", cx)
        y = x if op == "square_add" else FX(F, "y", cy)
        sp = bitop("xor", x.s, y.s, F) if y is not x else const(1, 0)
        a = FX(F, "a", ca, sp if same else bitop_not(sp, F))
        SP, SA = U(sp, F), U(a.s, F)
        what = f"{op}({cx},{cy},{ca}) {'same' if same else 'different'} signs"
        args = [x.val, a.val] if op == "square_add" else [x.val, y.val, a.val]
        b = (x.base, y.base)
        for o in c.explore(op, args, F):
            if "nan" in b + (a.base,) or set(b) == {"inf", "zero"} or "inf" in b and a.base == "inf" and not same:
                is_nan(c, what, o)
            elif "inf" in b:
                is_exact(c, what, o, padd(pconst(INF), SP, SIGN))
            elif a.base == "inf":
                is_exact(c, what, o, a.bits)
            elif a.base == "zero":
                # a zero product
                is_exact(c, what, o, pscale(SP, SIGN) if same else pconst(0))
            else:
                is_exact(c, what, o, a.bits)


def fma_round(c, op, cx, cy, ca, same, d, rel=None, top=None, X=None, jx=None, jy=None):
    """d: exponent of the addend's unit minus that of the product's; rel: 'p'
    product larger, 'a' addend larger, '=' equal magnitudes; X: range of the
    exponent of the result's unit"""
    F = Facts()
    x = FX(F, "x", cx)
    y = x if op == "square_add" else FX(F, "y", cy)
    for z, j in ((x, jx), (y, jy)):
        if j is not None:
            msb_range(F, z, j)
            if j == 0:
                z.m = pconst(1)
    sp = bitop("xor", x.s, y.s, F) if y is not x else const(1, 0)
    Xp = padd(padd(x.be, y.be), pconst(Q0 - 2))
    e = None
    try:
        if ca == "norm" and isinstance(d, int):
            e = padd(Xp, pconst(d + 1))
        a = FX(F, "a", ca, sp if same else bitop_not(sp, F), e)
        if ca == "zero":
            T, XX, sg, rest = pmul(x.m, y.m), Xp, sp, None
        else:
            Xa = padd(a.be, pconst(-1))
            D = padd(Xa, Xp, -1)
            P = pmul(x.m, y.m)
            rest = None
            if d == "far+":
                F.assume_range(D, 476, None)
                T, XX, sg, rest = pscale(a.m, 4), padd(Xa, pconst(-2)), a.s, pconst(1)
                if not same:
                    T = padd(T, pconst(-1))
            elif d == "far-":
                # below a quarter of the unit of a product which may be as short
                # as a significand, and too small to be aligned
                j = 236 if jx is None and jy is None else jx or jy or 0
                F.assume_range(D, None, min(-239, -473 + j))
                T, XX, sg, rest = pscale(P, 4), padd(Xp, pconst(-2)), sp, pconst(1)
                if not same:
                    T = padd(T, pconst(-1))
            else:
                F.assume_range(D, d, d)
                p, q = pscale(P, 1 << max(-d, 0)), pscale(a.m, 1 << max(d, 0))
                XX = Xp if d >= 0 else Xa
                if same:
                    T, sg = padd(p, q), sp
                elif rel == "=":
                    F.assume_range(padd(p, q, -1), 0, 0)
                    T, sg = None, None
                else:
                    b, s = (p, q) if rel == "p" else (q, p)
                    T = padd(b, s, -1)
                    F.assume_range(T, 1, None)
                    sg = sp if rel == "p" else a.s
        if top is not None:
            F.assume_range(T, 1 << top[0], (2 << top[1]) - 1)
        if X is not None:
            F.assume_range(XX, *X)
        sg = sg and U(sg, F)
    except Contradiction:
        return
    args = [x.val, a.val] if op == "square_add" else [x.val, y.val, a.val]
    what = f"{op}({cx},{cy},{ca}) {'sum' if same else 'difference'} of magnitudes"
    if isinstance(d, int) and rel != "=" and ca != "zero" and op == "fma":
        x.j, y.j = jx, jy
        witness.PROPOSE[:] = [near_ties(x, y, a, same, d, rel, top, X)]
    Z = named(T, F) if T is not None and rest is None and ca != "zero" else None
    hook = (lambda n: sums(n, c, T, Z)) if Z else None
    for o in c.explore(op, args, F, **({"hook": hook} if hook else {})):
        if T is None:
            is_exact(c, what + ": exact cancellation gives +0", o, pconst(0))
            continue
        if Z is not None:
            by_name = lambda: rounded(c, what, o, U(Z, o.F), XX, sg)
            if c.trial(by_name)[0]:
                by_name()
                continue
        rounded(c, what, o, T, XX, sg, rest=rest)


def near_ties(x, y, a, same, d, rel, top, X):
    """operands whose exact result lies at, or close to, the boundary between
    two roundings: the low half of the product is solved for modulo a power of
    two (witness search only)"""
    def top_bit(z, j, R):
        return 236 if z.base == "norm" else j if j is not None else 127 if z.cls == "subl" else R.randrange(128, 236)

    def choose(R, tops):
        p, q = max(-d, 0), max(d, 0)
        tx, ty, ta = (f(R) for f in tops)
        nx, ny = x.base == "norm", y.base == "norm"
        # the addend's exponent and those of the factors are in range
        lo = max(Q0, -d) - p
        hi = min(Q0 + (nx + ny) * (EMAX - 2), -d + (EMAX - 2 if a.base == "norm" else 0)) - p
        lo, hi = max(lo, -10**9 if X is None or X[0] is None else X[0]), min(hi, 10**9 if X is None or X[1] is None else X[1])
        if lo > hi:
            return 0, 0, -1, 0, 0
        XX = R.choice((lo, hi, R.randint(lo, hi), min(hi, lo + R.randrange(300))))
        XX = min(max(XX, lo), hi)
        Xp = XX + p             # the product's unit is 2^p of the result's
        # Xp = ex + ey - 2 + Q0
        s = Xp + 2 - Q0
        ex = 1 if not nx else s - 1 if not ny else R.choice((R.randint(max(1, s - EMAX + 1), min(EMAX - 1, s - 1)), max(1, s - EMAX + 1)))
        ey = s - ex if ny else 1
        low = lambda v, k: v & ((1 << k) - 1)
        rnd = lambda t: 1 << t | (R.getrandbits(t) if t and R.random() < .5 else low(witness.sparse(R, 237), t))
        vy, va = rnd(ty), rnd(ta)
        vx = rnd(tx)
        T = tx + ty + p + R.randrange(2)
        T = max(T, ta + q)
        if top is not None and R.random() < .9:
            T = R.randint(*top)
        k = max(T - 236, -XX, 1)
        e = R.choice((0, 0, 1, -1, R.randrange(-16, 17), (1 << R.randrange(k)), -(1 << R.randrange(k))))
        v = low(R.choice((1 << (k - 1), 1 << (k - 1), 0)) + e + (R.getrandbits(1) << k), k + 1)
        A = va << q
        w = v - A if same else v + A if rel == "p" else A - v
        t = 0
        if not same and p == 0:
            # the whole result, so that the addend can follow from it
            t = v if k + 1 > T else v | 1 << T | R.getrandbits(T) >> (k + 1) << (k + 1)
            if q > k + 1:
                k = q - 1
                w = t if rel == "p" else -t
        n = k + 1 - p
        solve_x = tx >= ty
        if n > 0 and R.random() < .8:
            w = low(w >> p, n)
            b = tx if solve_x else ty
            other = (vy if solve_x else vx) | 1
            n = min(n, b)
            z = pow(other, -1, 1 << n) * w & ((1 << n) - 1) if n else 0
            z |= (1 << b) | (R.getrandbits(b) >> n << n if b > n else 0)
            vx, vy = (z, other) if solve_x else (other, z)
        if not same and p == 0 and R.random() < .8:
            P = vx * vy
            va = (P - t if rel == "p" else P + t) >> q
        return vx, vy, va, ex, ey

    def propose(R):
        tops = [lambda R: top_bit(x, x.j, R), lambda R: top_bit(y, y.j, R), lambda R: top_bit(a, None, R)]
        for _ in range(50):
            vx, vy, va, ex, ey = choose(R, tops)
            if va >= 0 and 1 <= ex < EMAX and 1 <= ey < EMAX:
                break
        env = {}
        for z, v in ((x, vx), (y, vy), (a, va)):
            if z.fa is not None:
                env[z.fa.id] = v & (NORM - 1)
        for z, e in ((x, ex), (y, ey)):
            if z.base == "norm":
                env[z.ea.id] = e
        for z in (x, y, a):
            b = z.s.p[0][0]
            if b is not None and b.kind == "in":
                env[b.id] = R.getrandbits(1)
        return env
    return propose


def named(T, F):
    """a number of its own that equals T"""
    l, h = F.prange(T)
    if l < 0 or h >> 768:
        return None
    a = op_atom(h.bit_length(), "cut", (T.key(), T.c), h.bit_length())
    F.assume_range(Poly({(basis(a, 0),): 1}, 0), l, h)
    return mk(a.w, ((a, 0, a.w, False),))


def sums(name, c, T, Z):
    """the sum or difference of the aligned significands, where it is the exact
    result in some unit, is that number rather than a sum of floors"""
    base = contracts.handler(name, c.used)
    op = contracts.contract_of(name)
    if op not in ("u768::iadd", "u768::isub"):
        return base

    def h(m, s, fr, args, t):
        F = s.F
        x = contracts.big(m, s, args[0])
        y = contracts.num(m, s, args[1], F)
        if x is not None and y is not None:
            Q = padd(x.u(F), y, 1 if op == "u768::iadd" else -1)
            for j in range(768 - Z.w + 1):
                if Q.c >> j << j == Q.c and not padd(Q, pscale(T, 1 << j), -1).t and \
                        Q.c == T.c << j:
                    b = tuple(Z.p)
                    if j:
                        b = ((None, 0, j, False),) + b
                    if 768 - j - Z.w:
                        b += ((None, 0, 768 - j - Z.w, False),)
                    m.store_ptr(s, args[0], contracts.build(mk(768, b), 6))
                    c.used.add(name)
                    return UNIT
            b = collected(Q, T, Z, F)
            if b is not None:
                m.store_ptr(s, args[0], contracts.build(b, 6))
                c.used.add(name)
                return UNIT
        return base(m, s, fr, args, t)
    return h


def collected(Q, T, Z, F):
    """Q is T in a coarser unit, what is below that unit collected in the lowest
    bit: less than a unit away, and odd unless exact"""
    for m, k in T.t.items():
        q = Q.t.get(m, 0)
        if len(m) == 2 and q and k % q == 0 and (k // q).bit_count() == 1:
            n = (k // q).bit_length() - 1
            break
    else:
        return None
    if n < 1 or n >= Z.w:
        return None
    R = padd(pscale(Q, 1 << n), T, -1)
    if prove(in_range(R, 1 - (1 << n), (1 << n) - 1), F.copy(), 4, [R]) is not None:
        return None
    low = split_at(Q, 1)[1]
    low = U(from_poly(low, 1, F), F)

    def good(F):
        for alt in ((R, None, -1), (R, 1, None)):
            G = F.copy()
            try:
                G.assume_range(*alt)
                G.assume_range(low, 0, 0)
                G.recheck()
                if lp_range(G, R, 0, 0) != (0, 0):
                    return False
            except Contradiction:
                continue
        return True
    if prove(good, F.copy(), 5, [R, low]) is not None:
        return None
    lost = bnot(eq0(U(mk(n, slice_pieces(Z.p, 0, n)), F), F))
    b = slice_pieces(Z.p, n, Z.w - n)
    b0 = bitop("or", mk(1, slice_pieces(Z.p, n, 1)), lost, F)
    return mk(768, tuple(b0.p) + tuple(slice_pieces(b, 1, Z.w - n - 1)) + ((None, 0, 768 - Z.w + n, False),))


FIN_TRIPLES = [(a, b, z) for a in FIN for b in FIN for z in FIN]


def fma_jobs(tier, op="fma"):
    J = []
    sq = op == "square_add"
    for a in ALL:
        for b in (a,) if sq else ALL:
            for z in ALL:
                fin = a in FIN and b in FIN
                if fin and z in FIN + ("zero",):
                    continue
                if tier != "thorough" and "l" in a[-1:] + b[-1:] + z[-1:] and sum("l" == k[-1] for k in (a, b, z)) > 1:
                    continue
                J.append(Job(f"{op}/{a},{b},{z}", fma_special, op, a, b, z))
    nn = lambda name, *a, **k: J.append(Job(f"{op}/{name}", fma_round, op, *a, **k))
    th = tier == "thorough"

    def tops(name, cx, cy, ca, same, d, pb, ab, X=None, salt=0, **k):
        """pb, ab: top bits (lo, hi) of the product and the addend in their units"""
        p = [v + max(-d, 0) for v in pb]
        a = [v + max(d, 0) for v in ab]
        if same:
            lo, hi = max(p[0], a[0]), max(p[1], a[1]) + 1
            if hi - lo > 8:
                nn(f"{name} sum", cx, cy, ca, 1, d, X=X, **k)
                return
            for t in range(lo, hi + 1):
                nn(f"{name} sum bit {t}", cx, cy, ca, 1, d, None, (t, t), X=X, **k)
            return
        for rel in "pa":
            b, s = (p, a) if rel == "p" else (a, p)
            if b[1] < s[0]:
                continue
            if b[0] > s[1] + 1 and b[1] - b[0] < 8:
                for t in range(b[0] - 1, b[1] + 1):
                    nn(f"{name} diff {rel} bit {t}", cx, cy, ca, 0, d, rel, (t, t), X=X, **k)
                continue
            if ca != "norm":
                nn(f"{name} diff {rel}", cx, cy, ca, 0, d, rel, X=X, **k)
                continue
            # cancellation: top bit j of the difference, X: its unit
            js = range(0, b[1] + 1)
            hot = (0, 1, 127, 128, 236, 237, 238, 364, 365, b[0] - 1, b[0], b[1])
            for j in sel(js, hot if th else (hot[(d + salt) % 9], b[0], b[1]), "quick" if not th else "quick", 51 + d + salt, 20 if th else 1):
                nn(f"{name} diff {rel} bit {j} normal", cx, cy, ca, 0, d, rel, (j, j), X=(237 - j, None), **k)
                lowest = 0 if d < 0 else -d
                es = [e for e in range(lowest, 237 - j)]
                if es:
                    pick = {es[0], es[-1], es[(j * 31 + salt) % len(es)]} if th else {es[(j * 31 + salt) % len(es)]}
                    for e in sorted(pick):
                        nn(f"{name} diff {rel} bit {j} unit 2^{e}", cx, cy, ca, 0, d, rel, (j, j), X=(e, e), **k)
        if not (a[1] < p[0] or p[1] < a[0]):
            nn(f"{name} equal magnitudes", cx, cy, ca, 0, d, "=", **k)

    nb = (472, 473)
    sg = (1, 0)
    for same in sg:
        for f in ("far+", "far-"):
            nn(f"norm,norm,norm {f} {same}", "norm", "norm", "norm", same, f)
    ds = sel(range(-238, 476), (-238, -237, -236, -2, -1, 0, 1, 2, 218, 219, 234, 235, 236, 237, 238, 239, 240, 241, 474, 475), tier, 52, 10)
    for d in ds:
        for same in sg:
            tops(f"norm,norm,norm {d}", "norm", "norm", "norm", same, d, nb, (236, 236))
    for s in ("subh", "subl"):
        # a subnormal addend
        for same in sg:
            for f in ("far-",):
                nn(f"norm,norm,{s} {f} {same}", "norm", "norm", s, same, f)
        for d in sel(range(-238, 476), (-238, -236, -1, 0, 1, 236, 237, 300, 473, 475), tier, 53 + len(s), 3):
            for same in sg:
                tops(f"norm,norm,{s} {d}", "norm", "norm", s, same, d, nb, (128, 235) if s == "subh" else (0, 127))
    # subnormal factors
    for cx, cy in (("norm", "sub"), ("sub", "norm")):
        if sq:
            break
        for j in sel(range(236), (0, 127, 128, 235), "quick", 54, 8 if th else 1):
            jk = {"jy": j} if cy == "sub" else {"jx": j}
            for same in sg:
                for f in ("far+", "far-"):
                    nn(f"{cx},{cy},norm bit {j} {f} {same}", cx, cy, "norm", same, f, **jk)
                for d in sel(range(min(-238, -472 + j), 476), (-472 + j, -300 + j // 2, -238, -236, -1, 0, j, j + 1, 475), "quick", 55 + j, 20 if th else 1):
                    tops(f"{cx},{cy},norm bit {j} {d}", cx, cy, "norm", same, d, (236 + j, 237 + j), (236, 236), salt=j, **jk)
    for same in sg:
        for i, j in ((0, 0), (235, 235), (127, 128), (5, 200)):
            for ca in FIN:
                if not sq:
                    nn(f"sub,sub,{ca} bits {i},{j} {same}", "sub", "sub", ca, same, "far+", jx=i, jy=j)
                elif i == j:
                    nn(f"sub,{ca} bit {i} {same}", "sub", "sub", ca, same, "far+", jx=i)
    # a zero addend: the rounded product
    z = lambda name, cx, cy, X, **k: nn(f"{cx},{cy},zero {name}", cx, cy, "zero", 1, 0, X=X, **k)
    z("normal", "norm", "norm", (-237, None))
    for k in sel(range(238, 475), (238, 366, 474), tier, 56, 3):
        z(f"2^-{k}", "norm", "norm", (-k, -k))
    z("tiny", "norm", "norm", (None, -475))
    return J
