"""IEEE special cases and correct rounding of the arithmetic operations."""
import random
from spec import *
from prove import *
from prove import prove_rounded

Q0 = EMIN1 - FB            # exponent of the smallest positive number's bit


def sel(full, quick, tier, seed_salt, n=12):
    """exhaustive list in the thorough tier, a fixed plus seeded selection in
    the quick one"""
    if tier == "thorough":
        return list(full)
    r = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 7919 + seed_salt)
    full = list(full)
    s = set(quick) & set(full)
    rest = [v for v in full if v not in s]
    s |= set(r.sample(rest, min(n, len(rest))))
    return sorted(s)


def absbits(o, F=None):
    F = F or o.F
    got = fbits(o.val, F)
    return padd(got, U(topbit(o.val, F), F), -SIGN)


def is_nan(c, what, o):
    ab = absbits(o)
    return c.check(what + " is NaN", in_range(ab, INF + 1, None), o, 5, [ab])


def is_exact(c, what, o, bits):
    d = padd(fbits(o.val, o.F), bits, -1)
    return c.check(what, is_zero(d), o, 6, [d])


def sxor(x, y, F):
    return U(bitop("xor", x.s, y.s, F), F)


def rounded(c, what, o, T, X, sgn, depth=6, polys=(), rest=None):
    """the result is (-1)**sgn * RN(T * 2**(X+Q0)), ties to even; rest: see
    prove_rounded"""
    F0 = o.F
    try:
        T = psimp(T, F0)
        tl, th = F0.prange(T)
        P = padd(fbits(o.val, F0), sgn, -SIGN)
        xl, xh = F0.prange(X)
    except Contradiction:
        return
    Ls = list(range(max(tl, 1).bit_length(), th.bit_length() + 1))
    lowest = None
    if xl == xh and len(Ls) > 8:
        # all subnormal results at once: their scale is fixed
        many = [L for L in Ls if L + xl <= 236]
        if len(many) > 1:
            lowest = many[0]
            Ls = Ls[len(many) - 1:]
    for L in Ls:
        k = L - 237
        base = Outcome("ret", o.val, F0.copy(), None, None)
        base.notes = o.notes
        try:
            base.F.assume_range(T, 1 << ((lowest or L) - 1), (1 << L) - 1)
            lowest = None
            Eb = padd(X, pconst(k + 1))
            el, eh = base.F.prange(Eb)
        except Contradiction:
            continue
        # overflow
        if eh >= EMAX:
            G = base.F.copy()
            try:
                G.assume_range(Eb, EMAX, None)
                c.oblige(what + ": overflow gives infinity",
                         prove(in_range(P, INF, INF), G, depth, [P]), o, [P])
            except Contradiction:
                pass
        # normal result
        if eh >= 1 and el <= EMAX - 1:
            G = base.F.copy()
            try:
                G.assume_range(Eb, 1, EMAX - 1)
                R = padd(P, padd(Eb, pconst(1), -1), -NORM)
                if k > 0:
                    E = padd(pscale(R, 1 << k), T, -1)
                else:
                    E = padd(R, pscale(T, 1 << -k), -1)
                r = prove_rounded(R, E, max(k, 0), G, depth, polys=polys, rest=rest)
                c.oblige(what + ": normal result" + (": " + r[0] if r else ""),
                         r and r[1], o, [R, E])
            except Contradiction:
                pass
        # subnormal result or underflow
        if el < 1:
            G = base.F.copy()
            try:
                G.assume_range(Eb, None, 0)
                xl, xh = G.prange(X)
                if -xh > L:
                    c.oblige(what + ": underflow gives zero",
                             prove(in_range(P, 0, 0), G, depth, [P]), o, [P])
                elif xl == xh:
                    kk = -xl
                    if kk > 0:
                        E = padd(pscale(P, 1 << kk), T, -1)
                    else:
                        E = padd(P, pscale(T, 1 << -kk), -1)
                    r = prove_rounded(P, E, max(kk, 0), G, depth, 0, NORM, polys=polys, rest=rest)
                    c.oblige(what + ": subnormal result" + (": " + r[0] if r else ""),
                             r and r[1], o, [P, E])
                else:
                    raise Imprecise("region does not fix the scale of a subnormal result")
            except Contradiction:
                pass


# ------------------------------------------------------------ multiplication
def mul_special(c, op, cx, cy):
    F = Facts()
    x = FX(F, "x", cx)
    y = FX(F, "y", cy)
    s = sxor(x, y, F)
    what = f"{op}({cx},{cy})"
    for o in c.explore(op, [x.val, y.val], F):
        b = (x.base, y.base)
        if "nan" in b or set(b) == {"inf", "zero"}:
            is_nan(c, what, o)
        elif "inf" in b:
            is_exact(c, what, o, padd(pconst(INF), s, SIGN))
        else:
            is_exact(c, what, o, pscale(s, SIGN))


SPEC_PAIRS = [(a, b) for a in ("nanh", "nanl", "inf", "zero", "subh", "subl", "norm")
              for b in ("nanh", "nanl", "inf", "zero", "subh", "subl", "norm")
              if not (a in ("subh", "subl", "norm") and b in ("subh", "subl", "norm"))]


def msb_range(F, x, j):
    """restrict a subnormal operand to the numbers with top bit j"""
    F.assume_range(x.f, 1 << j, (1 << (j + 1)) - 1)


def mul_round(c, op, cx, cy, jx=None, jy=None, lo=None, hi=None):
    F = Facts()
    x = FX(F, "x", cx)
    y = FX(F, "y", cy)
    if jx is not None:
        msb_range(F, x, jx)
    if jy is not None:
        msb_range(F, y, jy)
    X = padd(padd(x.be, y.be), pconst(Q0 - 2))
    F.assume_range(X, lo, hi)
    T = pmul(x.m, y.m)
    for o in c.explore(op, [x.val, y.val], F):
        rounded(c, f"{op}({cx},{cy})", o, T, X, sxor(x, y, o.F))


def mul_jobs(tier, op="mul"):
    J = [Job(f"{op}/{a},{b}", mul_special, op, a, b) for a, b in SPEC_PAIRS]
    nn = lambda name, *a, **k: J.append(Job(f"{op}/{name}", mul_round, op, *a, **k))
    # X = -k: the unit of T relative to the result's last place at Eb = 1
    nn("norm,norm overflow", "norm", "norm", lo=EMAX - 1 - 236)
    nn("norm,norm normal", "norm", "norm", lo=-237, hi=EMAX - 236)
    for k in sel(range(237, 475), (237, 238, 239, 240, 364, 365, 366, 472, 473, 474), tier, 1):
        nn(f"norm,norm 2^-{k}", "norm", "norm", lo=-k, hi=-k)
    nn("norm,norm tiny", "norm", "norm", hi=-475)
    bs = (0, 1, 63, 64, 127, 128, 129, 191, 192, 234, 235)
    for j in sel(range(236), bs, tier, 11, 8):
        for i in (bs if tier == "thorough" else bs[j % 2::2]):
            nn(f"sub,sub bits {j},{i}", "sub", "sub", jx=j, jy=i)
    for a, b in (("norm", "sub"), ("sub", "norm")):
        for j in sel(range(236), (0, 1, 127, 128, 234, 235), tier, 2 + len(a), 3):
            jk = {"jy": j} if b == "sub" else {"jx": j}
            nn(f"{a},{b} bit {j} normal", a, b, lo=-j - 1, **jk)
            for k in sel(range(j + 1, j + 238), (j + 1, j + 2, j + 236, j + 237), tier, 3 + j, 2) \
                    if tier != "thorough" else range(j + 1, j + 238, 5):
                nn(f"{a},{b} bit {j} 2^-{k}", a, b, lo=-k, hi=-k, **jk)
            nn(f"{a},{b} bit {j} tiny", a, b, hi=-j - 239, **jk)
    return J


# --------------------------------------------------------- addition, subtraction
def add_special(c, op, cx, cy):
    F = Facts()
    x = FX(F, "x", cx)
    for same in (0, 1):
        F = Facts()
        x = FX(F, "x", cx)
        sy = x.s if same else bitop_not(x.s, F)
        y = FX(F, "y", cy, sy if op == "add" else bitop_not(sy, F))
        ys = U(sy, F)
        what = f"{op}({cx},{cy}) {'same' if same else 'different'} effective signs"
        for o in c.explore(op, [x.val, y.val], F):
            b = (x.base, y.base)
            if "nan" in b or b == ("inf", "inf") and not same:
                is_nan(c, what, o)
            elif x.base == "inf":
                is_exact(c, what, o, padd(pconst(INF), x.S, SIGN))
            elif y.base == "inf":
                is_exact(c, what, o, padd(pconst(INF), ys, SIGN))
            elif b == ("zero", "zero"):
                is_exact(c, what, o, pscale(x.S, SIGN) if same else pconst(0))
            elif x.base == "zero":
                is_exact(c, what, o, padd(y.absbits, ys, SIGN))
            else:
                is_exact(c, what, o, x.bits)


def bitop_not(b, F):
    return bitop("xor", b, const(1, 1), F)


def add_round(c, op, cx, cy, same, d, rel=None, top=None, exp=None):
    """top: highest bit (lo, hi) of the exact result in units of its last place; d: distance of the exponents (x - y); 'far+' / 'far-': at least 239"""
    F = Facts()
    x = FX(F, "x", cx)
    sy = x.s if same else bitop_not(x.s, F)
    e = padd(x.e, pconst(-d)) if cx == cy == "norm" and isinstance(d, int) else None
    y = FX(F, "y", cy, sy if op == "add" else bitop_not(sy, F), e)
    ys = U(sy, F)
    D = padd(x.be, y.be, -1)
    what = f"{op}({cx},{cy}) {'sum' if same else 'difference'} of magnitudes"
    far = None
    if d == "far+":
        F.assume_range(D, 239, None)
        far = x.bits
    elif d == "far-":
        F.assume_range(D, None, -239)
        far = padd(y.absbits, ys, SIGN)
    else:
        F.assume_range(D, d, d)
    if far is not None:
        for o in c.explore(op, [x.val, y.val], F):
            is_exact(c, what + ": the larger operand", o, far)
        return
    if rel is not None:
        F.assume_range(padd(x.f, y.f, -1), *((None, -1), (0, 0), (1, None))[rel])
    big_x = d > 0 or d == 0 and (rel == 2 if rel is not None else cx == "norm")
    a, b, X, sg = (x, y, y.be, x.S) if big_x else (y, x, x.be, ys)
    T = padd(pscale(a.m, 1 << abs(d)), b.m, 1 if same else -1)
    X = padd(X, pconst(-1))
    if top is not None:
        F.assume_range(T, 1 << top[0], (2 << top[1]) - 1)
    if exp is not None:
        F.assume_range(X, exp[0] - 1, exp[1] and exp[1] - 1)
    for o in c.explore(op, [x.val, y.val], F):
        if not same and d == 0 and rel == 1:
            is_exact(c, what + ": exact cancellation gives +0", o, pconst(0))
            continue
        rounded(c, what, o, T, X, sg)


ADD_SPECIAL = [(a, b) for a in ("nanh", "nanl", "inf", "zero", "subh", "subl", "norm")
               for b in ("nanh", "nanl", "inf", "zero", "subh", "subl", "norm")
               if not (a in ("subh", "subl", "norm") and b in ("subh", "subl", "norm"))]


def cancel(nn, name, d, rel, bits, tier):
    """differences of normal numbers with cancellation: highest bit j of the
    exact result, smaller exponent e"""
    for j in bits:
        nn(f"norm,norm diff {name} bit {j}", "norm", "norm", 0, d, rel, (j, j), (237 - j, None))
        es = range(1, 237 - j)
        if tier == "thorough":
            es = [e for e in es if j in (0, 127, 235) or e in (1, 2, 236 - j, 235 - j) or (e + j) % 16 == 0]
        else:
            es = sel(es, (1, 236 - j), "quick", 37 + j, 1)
        for e in es:
            nn(f"norm,norm diff {name} bit {j} exponent {e}", "norm", "norm", 0, d, rel, (j, j), (e, e))


def add_jobs(tier, op="add"):
    J = [Job(f"{op}/{a},{b}", add_special, op, a, b) for a, b in ADD_SPECIAL]
    nn = lambda name, *a, **k: J.append(Job(f"{op}/{name}", add_round, op, *a, **k))
    edge = (0, 1, 2, 3, 4, 5, 126, 127, 128, 129, 130, 235, 236, 237, 238)
    for same in (1, 0):
        t = "sum" if same else "diff"
        nn(f"norm,norm {t} far+", "norm", "norm", same, "far+")
        nn(f"norm,norm {t} far-", "norm", "norm", same, "far-")
        bits = sel(range(236), (0, 1, 2, 107, 127, 128, 129, 233, 234, 235), tier, 31, 4)
        for rel in range(3):
            if same or rel == 1:
                nn(f"norm,norm {t} exponents equal {'<=>'[rel]}", "norm", "norm", same, 0, rel)
            else:
                cancel(nn, f"exponents equal {'<=>'[rel]}", 0, rel, bits, tier)
            for h, l in (("subh", "subh"), ("subl", "subl"), ("subh", "subl"), ("subl", "subh")):
                if h == l or rel == 2 * (h == "subh"):
                    nn(f"{h},{l} {t} {'<=>'[rel]}", h, l, same, 0, rel)
        if not same:
            for d in (1, -1):
                cancel(nn, str(d), d, None, bits, tier)
                nn(f"norm,norm {t} {d} bit 236..", "norm", "norm", same, d, None, (236, 237))
        for h in ("subh", "subl"):
            nn(f"norm,{h} {t} 0", "norm", h, same, 0)
            nn(f"{h},norm {t} 0", h, "norm", same, 0)
            nn(f"norm,{h} {t} far+", "norm", h, same, "far+")
            nn(f"{h},norm {t} far-", h, "norm", same, "far-")
        for d in sel(range(1, 239), edge, tier, 21 + same):
            if same or d > 1:
                nn(f"norm,norm {t} {d}", "norm", "norm", same, d)
                nn(f"norm,norm {t} -{d}", "norm", "norm", same, -d)
            if tier == "thorough" or d in edge:
                for h in ("subh", "subl"):
                    nn(f"norm,{h} {t} {d}", "norm", h, same, d)
                    nn(f"{h},norm {t} -{d}", h, "norm", same, -d)
    return J


# ------------------------------------------------------------------ division
def div_special(c, op, cx, cy):
    F = Facts()
    x = FX(F, "x", cx)
    y = FX(F, "y", cy)
    s = sxor(x, y, F)
    what = f"{op}({cx},{cy})"
    for o in c.explore(op, [x.val, y.val], F):
        b = (x.base, y.base)
        if "nan" in b or b in (("inf", "inf"), ("zero", "zero")):
            is_nan(c, what, o)
        elif x.base == "inf" or y.base == "zero":
            is_exact(c, what, o, padd(pconst(INF), s, SIGN))
        else:
            is_exact(c, what, o, pscale(s, SIGN))


def quotients(mx, my, F):
    """the integer quotients the code has formed: [(q, r, s)] with
    mx * 2**s == q * my + r * 2**-t, 0 <= r * 2**-t < my"""
    out = []
    for a in list(ATOMS):
        if a.kind != "div" or a.args is None:
            continue
        n, d = (Poly(dict(k), k0) for k, k0 in a.args)
        for sn, sd in ((ratio(n, mx, F), ratio(d, my, F)),):
            if sn is not None and sd is not None:
                q = Poly({(basis(a, 0),): 1}, 0)
                out.append((q, padd(n, pmul(q, d), -1), sn - sd))
    return out


def ratio(p, m, F):
    """s with p == m * 2**s"""
    m, p = psimp(m, F), psimp(p, F)
    if not m.t:
        v, w = p.c, m.c
        ok = not p.t and v > 0 and v % w == 0 and (v // w) & (v // w - 1) == 0
        return (v // w).bit_length() - 1 if ok else None
    for k, v in p.t.items():
        w = m.t.get(k)
        if w is None:
            break
        if v % w == 0 and (v // w) & (v // w - 1) == 0 and v // w > 0:
            s = (v // w).bit_length() - 1
            if not psimp(padd(p, pscale(m, 1 << s), -1), F).t and \
                    psimp(padd(p, pscale(m, 1 << s), -1), F).c == 0:
                return s
        break
    return None


def div_round(c, op, cx, cy, rel, jx=None, jy=None, lo=None, hi=None, one=False):
    """rel: order of the significands scaled to the same length; lo..hi: range
    of the difference of the exponents"""
    F = Facts()
    if one:
        x = FX(F, "x", "norm", 0)
        F.assume_range(x.e, BIAS, BIAS)
        F.assume_range(x.f, 0, 0)
    else:
        x = FX(F, "x", cx)
    y = FX(F, "y", cy)
    if jx is not None:
        msb_range(F, x, jx)
    if jy is not None:
        msb_range(F, y, jy)
    D = padd(x.be, y.be, -1)
    nx, ny = (236 if j is None else j for j in (jx, jy))
    rl = padd(pscale(x.m, 1 << (236 - nx)), pscale(y.m, 1 << (236 - ny)), -1)
    try:
        F.assume_range(D, lo, hi)
        F.assume_range(rl, *((None, -1) if rel == "<" else (0, None)))
    except Contradiction:
        return
    what = f"{op}({cx},{cy})"
    args = [y.val] if one else [x.val, y.val]
    for o in c.explore(op, args, F):
        sg = sxor(x, y, o.F)
        P = padd(fbits(o.val, o.F), sg, -SIGN)
        # the exact quotient is in [2**(nx-ny-(rel == <)), 2 * that)
        e = nx - ny - (rel == "<")
        ub = D                                   # exponent part
        l, h = o.F.prange(D)
        if o.F.prange(P) == (INF, INF):
            # the exact value is at least 2**(EMAX+1)
            v = padd(D, pconst(e))
            c.check(what + ": infinite only on overflow", in_range(v, 262144, None), o, 5, [v])
            continue
        if h + e + 1 < EMIN1 - FB:
            c.check(what + ": underflow gives zero", in_range(P, 0, 0), o, 5, [P])
            continue
        ym = psimp(y.m, o.F)
        if not ym.t and ym.c & (ym.c - 1) == 0:
            # the divisor is a power of two
            rounded(c, what, o, x.m, padd(D, pconst(-(ym.c.bit_length() - 1) - Q0)), sg)
            continue
        xm = psimp(x.m, o.F)
        if not xm.t and not ym.t:
            qs = [(pconst((xm.c << 300) // ym.c), pconst((xm.c << 300) % ym.c), 300)]
        else:
            qs = quotients(x.m, y.m, o.F)
        if o.F.prange(P) == (0, 0) and h + e + 1 == EMIN1 - FB:
            # exact value in [MIN/4, MIN/2]; the quotient of unequal
            # significands of the same length is never a power of two
            c.check(what + ": underflow gives zero", in_range(P, 0, 0), o, 5, [P])
            continue
        if not qs:
            c.obl += 1
            c.fail(what, "no quotient of the significands found in the code", o)
            continue
        q, r, s = max(qs, key=lambda t: t[2])
        G = o.F.copy()
        G.assume_range(q, 1 << (s + e), (2 << (s + e)) - 1)
        o2 = Outcome("ret", o.val, G, None, None)
        o2.notes = o.notes
        X = padd(D, pconst(-s - Q0))
        rounded(c, what, o2, q, X, sg, rest=r)


def div_jobs(tier, op="div"):
    J = [Job(f"{op}/{a},{b}", div_special, op, a, b) for a, b in SPEC_PAIRS]
    nn = lambda name, *a, **k: J.append(Job(f"{op}/{name}", div_round, op, *a, **k))
    for rel in "<>":
        u = rel == "<"
        # normal results: -262142 <= D - u <= 262143
        nn(f"norm,norm {rel} overflow", "norm", "norm", rel, lo=262144 + u)
        nn(f"norm,norm {rel} normal", "norm", "norm", rel, lo=-262142 + u, hi=262143 + u)
        for k in sel(range(1, 238), (1, 2, 3, 4, 126, 127, 128, 129, 234, 235, 236, 237), tier, 81 + u, 24):
            nn(f"norm,norm {rel} subnormal by {k}", "norm", "norm", rel, lo=-262142 + u - k, hi=-262142 + u - k)
        nn(f"norm,norm {rel} tiny", "norm", "norm", rel, hi=-262142 + u - 238)
        bs = (0, 1, 63, 127, 128, 129, 191, 234, 235)
        for j in sel(range(236), bs, tier, 83 + u, 60):
            for i in (bs if tier == "thorough" else bs[(j + u) % 4::4]):
                nn(f"sub,sub {rel} bits {j},{i}", "sub", "sub", rel, jx=j, jy=i)
            v = 236 - j
            nn(f"norm,sub {rel} bit {j} overflow", "norm", "sub", rel, jy=j, lo=262144 + u - v)
            nn(f"norm,sub {rel} bit {j} normal", "norm", "sub", rel, jy=j, lo=-262142 + u - v, hi=262143 + u - v)
            nn(f"sub,norm {rel} bit {j} normal", "sub", "norm", rel, jx=j, lo=-262142 + u + v)
            for k in (range(1, 238) if j in bs else range(1 + j % 12, 238, 12)) if tier == "thorough" else \
                    sel(range(1, 238), (1, 2, 128, 236, 237), "quick", 85 + j, 1) if j in bs else \
                    (1 + (j * 37 + u * 100) % 237,):
                nn(f"sub,norm {rel} bit {j} subnormal by {k}", "sub", "norm", rel, jx=j,
                   lo=-262142 + u + v - k, hi=-262142 + u + v - k)
            nn(f"sub,norm {rel} bit {j} tiny", "sub", "norm", rel, jx=j, hi=-262142 + u + v - 238)
    return J


def recip_special(c, cls):
    F = Facts()
    x = FX(F, "x", cls)
    what = f"recip({cls})"
    for o in c.explore("recip", [x.val], F):
        if x.base == "nan":
            is_nan(c, what, o)
        else:
            is_exact(c, what, o, padd(pconst(INF if cls == "zero" else 0), x.S, SIGN))


def recip_jobs(tier):
    J = [Job(f"recip/{k}", recip_special, k) for k in ("nanh", "nanl", "inf", "zero")]
    nn = lambda name, *a, **k: J.append(Job(f"recip/{name}", div_round, "recip", "norm", *a, one=True, **k))
    for rel in "<>":
        u = rel == "<"
        nn(f"norm {rel} normal", "norm", rel, lo=-262142 + u)
        nn(f"norm {rel} subnormal", "norm", rel, hi=-262142 + u - 1)
        for j in range(236):
            v = 236 - j
            nn(f"sub {rel} bit {j} overflow", "sub", rel, jy=j, lo=262144 + u - v)
            nn(f"sub {rel} bit {j} normal", "sub", rel, jy=j, hi=262143 + u - v)
    return J


# ----------------------------------------------------------------- remainder
def rem_special(c, cx, cy):
    F = Facts()
    x = FX(F, "x", cx)
    y = FX(F, "y", cy)
    what = f"rem({cx},{cy})"
    for o in c.explore("rem", [x.val, y.val], F):
        if "nan" in (x.base, y.base) or x.base == "inf" or y.base == "zero":
            is_nan(c, what, o)
        else:
            is_exact(c, what, o, x.bits)


def rem_less(c, cx, cy, kind):
    """|x| < |y|: the result is x"""
    F = Facts()
    x = FX(F, "x", cx)
    y = FX(F, "y", cy)
    try:
        F.assume_range(padd(x.absbits, y.absbits, -1), None, -1)
        if kind == "e":
            F.assume_range(padd(x.be, y.be, -1), None, -1)
        else:
            F.assume_range(padd(x.be, y.be, -1), 0, 0)
    except Contradiction:
        return
    for o in c.explore("rem", [x.val, y.val], F):
        is_exact(c, f"rem({cx},{cy}) with |x| < |y|", o, x.bits)


def rem_more(c, cx, cy, D, j=None, ey=None, jx=None, jy=None):
    """|x| >= |y|, exponents D apart; j: top bit of the remainder in units of
    y's last place (None: equal significands, -1: zero remainder); ey: range
    of y's exponent"""
    F = Facts()
    x = FX(F, "x", cx)
    e = padd(x.e, pconst(-D)) if cx == cy == "norm" else None
    y = FX(F, "y", cy, None, e)
    if jx is not None:
        msb_range(F, x, jx)
    if jy is not None:
        msb_range(F, y, jy)
    try:
        F.assume_range(padd(x.be, y.be, -1), D, D)
        if ey is not None:
            F.assume_range(y.be, *ey)
        d = padd(x.m, y.m, -1)
        if j is None:
            F.assume_range(d, 0, 0)
            F.learn_equalities()
        elif D == 0:
            F.assume_range(d, 1, None)
        else:
            F.assume_ne(d, 0)
        if j is not None:
            T = umod(pscale(x.m, 1 << D), y.m, 1 << 20, F)
            F.assume_range(T, *((0, 0) if j < 0 else (1 << j, (2 << j) - 1)))
            F.prange(padd(y.m, T, -1))
    except Contradiction:
        return
    what = f"rem({cx},{cy}) exponents {D} apart"
    for o in c.explore("rem", [x.val, y.val], F):
        if j is None or j < 0:
            is_exact(c, what + ": zero remainder", o, pscale(x.S, SIGN))
        else:
            rounded(c, what, o, T, padd(y.be, pconst(-1)), x.S)


def rem_jobs(tier):
    J = [Job(f"rem/{a},{b}", rem_special, a, b) for a, b in SPEC_PAIRS]
    fin = ("norm", "subh", "subl")
    for a in fin:
        for b in fin:
            for k in "ef":
                J.append(Job(f"rem/{a},{b} less {k}", rem_less, a, b, k))
    nn = lambda name, *a, **k: J.append(Job(f"rem/{name}", rem_more, *a, **k))
    edge = (0, 1, 2, 3, 127, 128, 129, 235, 236, 237, 254, 255, 256, 257, 258, 511, 512, 513, 767, 768, 769,
            1023, 1024, 1025, 4095, 16385)
    far = (65535, 65536, 131071)
    r = random.Random(int(os.environ.get("VERIF_SEED", "1")) + 7)
    if tier == "thorough":
        ds = set(edge) | set(far) | set(range(0, 1600)) | {r.randrange(1600, 30000) for _ in range(200)}
    else:
        ds = set(edge) | {r.randrange(0, 600) for _ in range(40)} | {r.randrange(600, 30000) for _ in range(10)}
    js = (0, 1, 127, 128, 234, 235, 236)
    for D in sorted(ds):
        nn(f"norm,norm {D} equal significands", "norm", "norm", D)
        if D < 30000:
            nn(f"norm,norm {D} zero", "norm", "norm", D, -1)
        for j in js if tier == "thorough" and D < 1600 or D in edge and D < 2000 else (js[D % 7], (D * 91 + 17) % 237):
            nn(f"norm,norm {D} bit {j}", "norm", "norm", D, j, (237 - j, None))
            for e in {1, 236 - j, (D * 31 + j) % 237} - {0}:
                if e <= 236 - j and (tier == "thorough" or D < 2000):
                    nn(f"norm,norm {D} bit {j} exponent {e}", "norm", "norm", D, j, (e, e))
    for jy in sel(range(236), (0, 1, 127, 128, 129, 235), tier, 93, 14):
        for D in sel(range(0, 1000), (0, 1, 236, 237, 255, 256, 257, 512), "quick", 94 + jy, 2):
            for j in {-1, 0, jy // 2, jy - 1, jy if jy != 1 else 0}:
                nn(f"norm,sub bit {jy}, {D} apart, bit {j}", "norm", "sub", D, j, jy=jy)
            nn(f"norm,sub bit {jy}, {D} apart equal", "norm", "sub", D, jy=jy)
        for jx in sel(range(jy, 236), (jy, jy + 1, 235), "quick", 95 + jy, 2):
            for j in {-1, 0, jy // 2, jy - 1, jy if jy != 1 and jx > jy else 0}:
                nn(f"sub,sub bits {jx},{jy}, bit {j}", "sub", "sub", 0, j, jx=jx, jy=jy)
            if jx == jy:
                nn(f"sub,sub bits {jx},{jy} equal", "sub", "sub", 0, jx=jx, jy=jy)
    return J
