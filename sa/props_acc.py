"""Error bounds of the fixed-point kernels of the elementary functions.

A fixed-point value is abstracted by a polynomial with exact rational
coefficients in the kernel's argument (or in a quotient of two such
polynomials) together with a bound of its distance from that polynomial.  The
operations of the number format are transfer functions on this domain, sound
under the contracts that `contract/...` proves for them; the loops run over
constant tables.  What a kernel returns is compared, coefficient by
coefficient, with the Taylor series of the function."""
import re
from fractions import Fraction as Fr
from spec import *
from props_math import Kernels, Signed, isconst, vkey, leaves, FPOPS
from props_const import ATAN, LN, fact
from interp import State, Frame, Ptr, Agg, NOSUM
from props_sqrt import back, live
from dom import Poly
import contracts
import witness

U_ = Fr(1, 1 << 492)
LIMIT = 1 << 18
BIT = Fr(1, 1 << 237)


class A:
    """polynomial (coefficients p) in the variable v, off by at most e"""
    __slots__ = ("v", "p", "e")

    def __init__(self, v, p, e=Fr(0)):
        p = list(p)
        while len(p) > 1 and p[-1] == 0:
            p.pop()
        self.v, self.p, self.e = (v if len(p) > 1 else None), p, e


def scale(a, k):
    return A(a.v, [k * x for x in a.p], a.e * abs(k))


def plus(a, b):
    if a.v is not None and b.v is not None and a.v != b.v:
        raise Imprecise("two variables")
    n = max(len(a.p), len(b.p))
    p = [(a.p[i] if i < len(a.p) else 0) + (b.p[i] if i < len(b.p) else 0) for i in range(n)]
    return A(a.v or b.v, p, a.e + b.e)


def pmulc(p, q):
    r = [Fr(0)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        if x:
            for j, y in enumerate(q):
                if y:
                    r[i + j] += x * y
    return r


def cut(x, up):
    """a short fraction next to x"""
    n = x * (1 << 600)
    k, m = divmod(n.numerator, n.denominator)
    return Fr(k + (1 if up and m else 0), 1 << 600)


def at(p, lo, hi):
    """enclosure of the polynomial on an interval"""
    a = b = Fr(0)
    for x in reversed(p):
        c = (a * lo, a * hi, b * lo, b * hi)
        a, b = cut(min(c) + x, False), cut(max(c) + x, True)
    return a, b


def exactly(p, x):
    r = Fr(0)
    for k in reversed(p):
        r = r * x + k
    return r


class Split(Exception):
    pass


class Model(Kernels):
    def __init__(self, c, lo, hi, q=None):
        super().__init__(c, pat=FPOPS)
        self.q = q
        self.tab = {}
        self.vars = {"x": (lo, hi)}
        self.defs = {}
        self.n = 0

    def token(self, a, ti, F):
        k = (a.v, tuple(a.p), a.e)
        if k not in self.made:
            v = self.fresh(ti, F, f"r{len(self.made)}_")
            self.made[k] = v
            self.tab[vkey(v, F)] = a
        return self.made[k]

    made = None

    def val(self, v, F):
        if isconst(v):
            n = Signed.fixed(v)
            return A(None, [Fr(n - (1 << 512) if n >> 511 else n, 1 << 492)])
        a = self.tab.get(vkey(v, F))
        if a is None:
            raise Imprecise("a fixed-point value of unknown origin")
        return a

    def rng(self, a):
        lo, hi = at(a.p, *self.vars[a.v]) if a.v else (a.p[0], a.p[0])
        return lo - a.e, hi + a.e

    def sign(self, a):
        lo, hi = self.rng(a)
        return 1 if lo >= 0 else -1 if hi <= 0 else 0

    def fixed(self, a, ti, F):
        lo, hi = self.rng(a)
        if max(abs(lo), abs(hi)) >= LIMIT:
            raise Imprecise("may exceed the range of the format")
        return self.token(a, ti, F)

    def compare(self, s, a, b):
        """-1, 0, 1, or a case split"""
        if a.p == b.p and a.v == b.v and not a.e and not b.e:
            return 0
        d = plus(a, scale(b, -1)) if not (a.v and b.v and a.v != b.v) else None
        if d is not None:
            lo, hi = self.rng(d)
            if lo > 0 or hi < 0:
                return 1 if lo > 0 else -1
        k = ("cmp", a.v, tuple(a.p), a.e, b.v, tuple(b.p), b.e)
        if k not in self.made:
            self.made[k] = (mk(1, ((new_atom(1, "less"), 0, 1, False),)), mk(1, ((new_atom(1, "same"), 0, 1, False),)))
        less, same = self.made[k]
        r = -1 if decide(less, s.F) else 0 if decide(same, s.F) else 1
        s.notes = s.notes + (("compared", a, b, r),)
        return r

    def call(self, m, s, fn, args):
        name, F = fn["name"], s.F
        vals, mut, mty = [], None, None
        for ti, a in zip(fn["locals"][1:fn["nargs"] + 1], args):
            t = self.P.types[ti]
            if t["k"] == "ptr" and t.get("m"):
                mut, mty = a, t["e"]
            v = a
            while isinstance(v, Ptr):
                v = m.load(s, v)
            vals.append(v)
        op = name.split("::")[-1]
        if op in ("le", "lt", "ge", "gt", "eq", "ne", "cmp", "partial_cmp"):
            r = self.compare(s, self.val(vals[0], F), self.val(vals[1], F))
            if op == "cmp":
                return Agg(r + 1, ())
            if op == "partial_cmp":
                return Agg(1, (Agg(r + 1, ()),))
            return const(1, int({"le": r <= 0, "lt": r < 0, "ge": r >= 0, "gt": r > 0, "eq": r == 0, "ne": r != 0}[op]))
        if op in ("is_sign_negative", "is_sign_positive"):
            k = self.sign(self.val(vals[0], F))
            lo, hi = self.rng(self.val(vals[0], F))
            if not (lo >= 0 or hi < 0):
                raise Imprecise("sign of a value around zero")
            return const(1, int((hi < 0) == (op == "is_sign_negative")))
        if op == "from" and all(isinstance(v, BV) for v in vals) and isconst(vals[0]):
            return NOSUM
        rty = mty if mut is not None else fn["locals"][0]
        if op == "divmod_1_over_256":
            return self.divmod(fn, self.val(vals[0], F), F)
        if op not in ("neg", "ineg", "abs", "iabs", "add", "add_assign", "sub", "sub_assign", "mul", "mul_assign",
                      "imul_round", "div_assign", "div", "mul2"):
            return NOSUM
        x = [self.val(v, F) for v in vals]
        r = self.oper(op, x, F)
        v = self.fixed(r, rty, F)
        if mut is not None:
            m.store_ptr(s, mut, v)
            return fresh_unit(self, fn, F)
        return v

    def oper(self, op, x, F):
        a = x[0]
        if op in ("neg", "ineg"):
            return scale(a, -1)
        if op in ("abs", "iabs"):
            k = self.sign(a)
            if not k:
                raise Imprecise("absolute value of a value around zero")
            return scale(a, k)
        if op == "mul2":
            return scale(a, 2)
        b = x[1]
        if op in ("add", "add_assign"):
            return plus(a, b)
        if op in ("sub", "sub_assign"):
            return plus(a, scale(b, -1))
        if op in ("mul", "mul_assign", "imul_round"):
            if a.v and b.v and a.v != b.v:
                raise Imprecise("two variables")
            if [0] in (a.p, b.p) and not (a.e or b.e):
                return A(None, [Fr(0)])
            ra, rb = max(map(abs, self.rng(a))), max(map(abs, self.rng(b)))
            if max(ra, rb) >= 256:
                raise Imprecise("may exceed the range of the format")
            return A(a.v or b.v, pmulc(a.p, b.p), cut(ra * b.e + rb * a.e + a.e * b.e + U_, True))
        # division: the quotient is a new variable
        la, ha = self.rng(a)
        lb, hb = self.rng(b)
        if la < 0 or lb < 1 or ha >= lb / 2:
            raise Imprecise("operands of the division")
        k = (tuple(a.p), tuple(b.p), a.v, b.v)
        if k not in self.defs:
            nm = f"y{len(self.defs)}"
            self.defs[k] = nm
            self.vars[nm] = (Fr(0), cut(ha / lb, True))
            self.defs[nm] = (a, b)
        return A(self.defs[k], [Fr(0), Fr(1)], cut(a.e / lb + ha / (lb * lb) * b.e + U_, True))

    def divmod(self, fn, a, F):
        """the region of the argument fixes the quotient"""
        lo, hi = self.rng(a)
        if a.e or self.q is None:
            raise Imprecise("division by 1/256")
        s = self.sign(a)
        a = scale(a, s)
        t = self.P.types[fn["locals"][0]]["f"]
        c = A(None, [Fr(self.q, 256)])
        return Agg(0, (const(32, self.q), self.token(c, t[1], F) if self.q < 0 else fixed_const(self.q << 484),
                       self.fixed(plus(a, scale(c, -1)), t[2], F)))


def fixed_const(n):
    w = [const(128, n >> k & ((1 << 128) - 1)) for k in (384, 256, 128, 0)]
    two = lambda h, l: Agg(0, (wrap1(h), wrap1(l)))
    wrap1 = lambda b: Agg(0, (b,))
    return Agg(0, (Agg(0, (two(w[0], w[1]), two(w[2], w[3]))),))


def fresh_unit(K, fn, F):
    from props_struct import fresh_of
    return fresh_of(K.P, fn["locals"][0], F, "unit")


# ------------------------------------------------------------- the functions

def taylor(f, n):
    if f == "sin":
        return [Fr(0) if k % 2 == 0 else Fr((-1) ** (k // 2), fact(k)) for k in range(n)]
    if f == "cos":
        return [Fr(0) if k % 2 else Fr((-1) ** (k // 2), fact(k)) for k in range(n)]
    return [Fr(0) if k % 2 == 0 else Fr((-1) ** (k // 2), k) for k in range(n)]


def tail(f, n, r):
    """the Taylor remainder after the terms below degree n"""
    if f == "atan":
        return r ** n / n / (1 - r) if r < 1 else None
    return r ** n / fact(n)


def value(f, x):
    """enclosure of the function"""
    if f == "atan":
        x = Fr(x)
        s = -1 if x < 0 else 1
        lo, hi = ATAN(abs(x).numerator, abs(x).denominator) if x else (Fr(0), Fr(0))
        return (lo, hi) if s > 0 else (-hi, -lo)
    v = exactly(taylor(f, 200), x)
    return v - Fr(1, 1 << 900), v + Fr(1, 1 << 900)


def moebius(K, a):
    """a.v as (t0 + s x) / (1 - t0 s x): returns t0, s"""
    if a.v in (None, "x"):
        return Fr(0), 1
    n, d = K.defs[a.v]
    if (n.v, d.v) not in (("x", "x"), ("x", None)) or len(n.p) > 2 or len(d.p) > 2:
        raise Imprecise("quotient of unknown form")
    (n0, n1), (d0, d1) = ((p + [Fr(0)])[:2] for p in (n.p, d.p))
    t0, s = n0 / d0, n1 / d0
    if s not in (1, -1) or d1 / d0 != -t0 * s:
        return None
    return t0, s


def judge(c, K, f, o, what, rel):
    """the value returned is the function up to the relative error `rel`, or,
    on paths bounded above by a cut-off, up to half a unit in the last place"""
    lo, hi = K.vars["x"]
    for n in o.notes:
        if n[0] != "compared":
            continue
        a, b, r = n[1:]
        if b.v == "x" and a.v is None:
            a, b, r = b, a, -r
        if a.v != "x" or b.v is not None or a.e or b.e or len(a.p) != 2 or a.p[0] or abs(a.p[1]) != 1:
            continue
        k = b.p[0]
        if a.p[1] == 1:
            lo, hi = (lo, min(hi, k)) if r < 0 else (max(lo, k), hi) if r > 0 else (k, k)
        else:
            lo, hi = (max(lo, -k), hi) if r < 0 else (lo, min(hi, -k)) if r > 0 else (-k, -k)
    if lo > hi:
        return
    small = min(abs(lo), abs(hi)) if lo * hi > 0 else Fr(0)
    big = max(abs(lo), abs(hi))
    got = K.val(o.val, o.F)
    c.obl += 1
    bad = counter(K, f, got, lo, hi, rel, small)
    if bad:
        c.fail(what, bad, definite=True)
        return
    if got.v in (None, "x") and len(got.p) <= 2 and bound_small(f, got, big):
        c.ok += 1
        return
    e = error(K, f, got, lo, hi, small)
    if e is not None and e <= rel:
        c.ok += 1
        return
    c.fail(what, "no sufficient error bound" if e is None else f"relative error bound 2^{log2(e)} on [2^{log2(small)}, 2^{log2(big)}]")


def log2(x):
    return (x.numerator.bit_length() - x.denominator.bit_length()) if x else "-inf"


def bound_small(f, got, r):
    """below a cut-off: half a unit in the last place"""
    if got.e:
        return False
    if f == "cos":
        # 1 - x*x/2 .. 1; the unit below one is 2^-237
        return got.p == [1] and r * r / 2 - r ** 4 / 24 + r ** 6 / 720 <= Fr(1, 1 << 238)
    if got.p not in ([0, 1], [0, -1]) or got.p[1] != 1:
        return False
    k, k5, k7 = (Fr(1, 6), Fr(1, 120), Fr(1, 5040)) if f == "sin" else (Fr(1, 3), Fr(1, 5), Fr(1, 7))
    # binade by binade: x = 2^e .. 2^(e+1)
    e = log2(r) + 2
    while True:
        lo, hi = Fr(2) ** e, min(Fr(2) ** (e + 1), r)
        if lo <= r:
            if k * hi ** 3 - k5 * hi ** 5 + k7 * hi ** 7 > Fr(51, 50) * Fr(2) ** (e - 237):
                return False
            if k * (lo * lo * 4) <= Fr(1, 1 << 238):
                return True             # and in all lower binades
        e -= 1


def error(K, f, got, lo, hi, small):
    """bound of |value - f| / |f| on the region"""
    r = max(map(abs, K.vars[got.v])) if got.v else Fr(0)
    if got.v == "x" or got.v is None:
        r = max(abs(lo), abs(hi))
    T0 = (Fr(0), Fr(0))
    s = 1
    if f == "atan":
        m = moebius(K, got)
        if m is None:
            return None
        t0, s = m
        T0 = value("atan", -t0 * s)
    n = max(len(got.p), 2)
    if f == "cos":
        n += n % 2
    else:
        n += 1 - n % 2
    T = taylor(f, n)
    t = tail(f, n, r)
    if t is None:
        return None
    d = [abs((got.p[i] if i < len(got.p) else Fr(0)) - s * T[i]) for i in range(n)]
    e = got.e
    if f == "atan":
        p = got.p[0]
        d[0] = max(abs(p - T0[0]), abs(p - T0[1]))
    if f == "cos":
        # cos x > 2/3
        return (e + t + sum(k * r ** i for i, k in enumerate(d) if k)) * Fr(3, 2)
    # |f| > 3/4 |x|
    if got.v in (None, "x") and d[0] == 0 and not (e and not small):
        if not r:
            return e
        e = (e / small if e else 0) + t / r + sum(k * r ** (i - 1) for i, k in enumerate(d) if k)
        return e * Fr(4, 3)
    if not small:
        return None
    return (e + t + sum(k * r ** i for i, k in enumerate(d) if k)) / small * Fr(4, 3)


def counter(K, f, got, lo, hi, rel, small):
    """an argument at which no value the abstraction admits is accurate"""
    for x in sorted({lo, hi, (lo + hi) / 2, (lo + 3 * hi) / 4, (3 * lo + hi) / 4}):
        if x == 0:
            continue
        if got.v in (None, "x"):
            v = x
        else:
            n, d = K.defs[got.v]
            v = exactly(n.p, x) / exactly(d.p, x)
        y = exactly(got.p, v)
        t = value(f, x)
        if y - got.e > t[1] or y + got.e < t[0]:
            d = max(y - got.e - t[1], t[0] - got.e - y)
            m = max(map(abs, t))
            # beyond 0.51 units in the last place of any encoding
            if d > Fr(51, 100) * ulp(m):
                return f"at x = {float(x):.17g} the result is off by at least {float(d / ulp(m)):.3g} units in the last place"
    return None


def ulp(m):
    e = log2(m) + 1
    while Fr(2) ** e > m:
        e -= 1
    return Fr(2) ** (e - 236)


def j_kernel(c, name, f, lo, hi, q=None):
    key = [k for k, g in c.P.fns.items() if re.search(name, g["name"]) and "blocks" in g]
    if len(key) != 1:
        raise Imprecise("kernel not found: " + name)
    fn = c.P.fns[key[0]]
    ty = next(i for i in [fn["locals"][1]])
    ty = c.P.types[ty]["e"]
    K = Model(c, lo, hi, q)
    K.made = {}
    F = Facts()
    x = K.token(A("x", [Fr(0), Fr(1)]), ty, F)
    M = Machine(c.P, hook=K.hook)
    st = State([Frame(0, None, [x], None, None)], F.copy())
    M.push(st, key[0], fn, [Ptr("l", 0, 0)], None, None)
    n = 0
    for o in M.explore(st):
        c.paths += 1
        if o.kind == "panic":
            c.obl += 1
            c.fail("panic", str(o.msg), o)
            continue
        n += 1
        judge(c, K, f, o, f"{f} within 2^-300 of the exact value, half a unit in the last place below the cut-off", Fr(1, 1 << 300))
    c.steps += M.stat_steps
    for k in M.fns_seen:
        c.fns.add(c.P.fns[k]["name"])
    if not n:
        c.obl += 1
        c.fail(name + " returns", "no returning path")


R = Fr(101, 128)        # above a quarter of pi


def acc_jobs(tier):
    J = []
    for f in ("sin", "cos"):
        J += [Job(f"{f}/{'-' * s}", j_kernel, f"approx_{f}::approx_{f}$", f, *((-R, Fr(0)) if s else (Fr(0), R)))
              for s in (0, 1)]
    lastx = 1 - U_
    for q in range(256):
        for s in (0, 1):
            lo, hi = Fr(q, 256), min(Fr(q + 1, 256) - U_, lastx)
            if q == 0:
                lo = Fr(1, 1 << 120)
            J.append(Job(f"atan/{'-' * s}{q}", j_kernel, "approx_atan::approx_atan$", "atan",
                         *((-hi, -lo) if s else (lo, hi)), q=q))
    return J


# ------------------------------------------- contracts of the number format

ATS = []


def propose(R):
    """magnitudes at the ends of carry chains"""
    env = {}
    tops = [max(lo + k for _, lo, k in ats) for ats in ATS]
    v = []
    for top in tops:
        i = R.choice((R.randrange(1, top), 128, 256, 257, 384, 385))
        v.append(R.choice(((1 << i) - R.choice((1, 2, 3)), (1 << i) + R.choice((0, 1)), (1 << i) - (1 << R.randrange(i)), 1 << i,
                           ((1 << i) - 1) << R.randrange(top - i + 1) if i < top else 1)) & ((1 << top) - 1))
    if len(v) == 2 and R.random() < 0.5:
        v[R.randrange(2)] = 1 << R.choice((490, 491, 491, 492))
    if len(v) == 2 and R.random() < 0.15:
        v[0] = v[1]
    for ats, n in zip(ATS, v):
        for a, lo, k in ats:
            env[a.id] = n >> lo & ((1 << k) - 1)
    return env


def operand(F, nm, sign, top=510):
    """a fixed-point number of magnitude below 2^top, not zero if negative"""
    ls = []
    ATS.append([])
    for i, k in enumerate((top - 384, 128, 128, 128)):
        a = new_atom(k, f"{nm}{i}")
        ATS[-1].append((a, 384 - 128 * i, k))
        ls.append(mk(128, ((a, 0, k, False),) + (((None, 0, 128 - k, False),) if k < 128 else ())))
    wrap = lambda b: Agg(0, (b,))
    v = Agg(0, (Agg(0, (Agg(0, (wrap(ls[0]), wrap(ls[1]))), Agg(0, (wrap(ls[2]), wrap(ls[3]))))),))
    u = unsigned_value(v, F)
    if not sign:
        return v, u
    F.assume_range(u, 1, None)
    n = from_poly(padd(pconst(1 << 512), u, -1), 512, F)
    return Agg(0, (contracts.build(n, 4),)), pscale(u, -1)


def unsigned_value(v, F):
    p = ()
    for x in reversed(list(leaves(v))):
        p = p + tuple(bits(x, F).p)
    return U(mk(512, p), F)


def signed_value(v, F):
    ls = list(leaves(v))
    u = unsigned_value(v, F)
    t = bits(mk(1, slice_pieces(bits(ls[0], F).p, 127, 1)), F)
    return padd(u, U(t, F), -(1 << 512))


INPLACE = ("ineg", "iabs", "add_assign", "sub_assign", "mul_assign", "imul_round", "div_assign")
ONE = 1 << 492


def j_op(c, op, pat, sa, sb):
    keys = [k for k, g in c.P.fns.items() if re.search(pat, g["name"]) and "blocks" in g]
    if len(keys) != 1:
        raise Imprecise(f"{len(keys)} functions for {pat}")
    fn = c.P.fns[keys[0]]
    F = Facts()
    top = 492 if op in ("divmod", "div_assign") else 500 if op in ("mul_assign", "imul_round") else 510
    ATS.clear()
    witness.PROPOSE[:] = [propose]
    a, pa = operand(F, "a", sa, top)
    root = [a]
    pb = None
    if sb is not None:
        if op == "div_assign":
            # 1 <= divisor < 2
            at_ = [new_atom(108, "b0")] + [new_atom(128, f"b{i}") for i in (1, 2, 3)]
            ATS.append([(a_, 384 - 128 * i, a_.w) for i, a_ in enumerate(at_)])
            ls = [mk(128, ((at_[0], 0, 108, False), (None, 1, 20, False)))] + \
                 [mk(128, ((a_, 0, 128, False),)) for a_ in at_[1:]]
            wrap = lambda b: Agg(0, (b,))
            b = Agg(0, (Agg(0, (Agg(0, (wrap(ls[0]), wrap(ls[1]))), Agg(0, (wrap(ls[2]), wrap(ls[3]))))),))
            pb = pconst(0)
            for l in ls:
                pb = padd(pscale(pb, 1 << 128), U(l, F))
            F.assume_range(pa, 0, ONE // 128)
        else:
            b, pb = operand(F, "b", sb, top)
        root.append(b)
    args = []
    for i, ti in enumerate(fn["locals"][1:fn["nargs"] + 1]):
        args.append(Ptr("l", 0, i) if c.P.types[ti]["k"] == "ptr" else root[i])
    M = c.machine() if op in ("neg", "ineg", "abs", "iabs") else Machine(c.P, hook=Negations(c).hook)
    st = State([Frame(0, None, list(root), None, None)], F)
    M.push(st, keys[0], fn, args, None, None)
    if op == "div_assign":
        contracts.SIZES.add(8)          # the division of 1024 by 512 bits
    try:
        for o in M.explore(st):
            c.paths += 1
            if o.kind == "panic":
                c.obl += 1
                c.fail("panic", str(o.msg), o)
                continue
            goals(c, op, o, pa, pb, sa)
    finally:
        contracts.SIZES.discard(8)
        witness.PROPOSE.clear()
        c.steps += M.stat_steps
        for k in M.fns_seen:
            c.fns.add(c.P.fns[k]["name"])


def goals(c, op, o, pa, pb, sa):
    F = o.F
    if op in ("lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp", "is_sign_negative", "is_sign_positive"):
        d = padd(pa, pb, -1) if pb is not None else pa
        if op in ("cmp", "partial_cmp"):
            v = o.val if op == "cmp" else o.val.f[0]
            lo, hi = {0: (None, -1), 1: (0, 0), 2: (1, None)}[v.v]
        elif op.startswith("is"):
            k = U(o.val, F)
            k = padd(k, pconst(-int((op == "is_sign_negative") == bool(sa))))
            c.check("the sign", in_range(k, 0, 0), o, 5, [k])
            return
        else:
            for k in (0, 1):
                G = F.copy()
                try:
                    G.assume_range(U(o.val, F), k, k)
                except Contradiction:
                    continue
                o2 = type(o)(o.kind, o.val, G, o.msg, o.stack) if False else o
                yes = {"lt": (None, -1), "le": (None, 0), "gt": (1, None), "ge": (0, None), "eq": (0, 0)}
                no = {"lt": (0, None), "le": (1, None), "gt": (None, 0), "ge": (None, -1), "ne": (0, 0)}
                r = (yes if k else no).get(op)
                if r is None:
                    continue
                s = o.F
                o.F = G
                c.check("the order of the values", in_range(d, *r), o, 5, [d])
                o.F = s
            return
        c.check("the order of the values", in_range(d, lo, hi), o, 5, [d])
        return
    if op == "divmod":
        q, k, y = o.val.f
        n = padd(pconst(0), pa, -1) if sa else pa
        kq, ky = signed_value(k, F), signed_value(y, F)
        for what, p, lo, hi in (("the multiple and the rest make up the magnitude", padd(padd(kq, ky), n, -1), 0, 0),
                                ("the multiple is the quotient's", padd(kq, S(q, F), -(1 << 484)), 0, 0),
                                ("the rest is below 1/256", ky, 0, (1 << 484) - 1)):
            goal(c, what, o, p, lo, hi)
        return
    v = o.mem[0].L[0] if op in INPLACE else o.val
    r = signed_value(v, F)
    if op in ("neg", "ineg"):
        d = padd(r, pa)
    elif op in ("abs", "iabs"):
        d = padd(r, pa, 1 if sa else -1)
    elif op in ("add_assign", "sub_assign", "sub"):
        d = padd(padd(r, pa, -1), pb, -1 if op == "add_assign" else 1)
    elif op in ("mul_assign", "imul_round"):
        d = padd(pscale(r, ONE), pmul(pa, pb), -1)
        c.check("the product off by less than one unit", in_range(d, 1 - ONE, ONE - 1), o, 5, [d])
        return
    else:
        d = padd(pmul(r, pb), pa, -ONE)
        for what, p in (("the quotient is not too large", padd(pb, d, -1)), ("the quotient is not too small", padd(pb, d))):
            goal(c, what, o, p, 0, None)
        return
    goal(c, f"{op}: exact", o, d, 0, 0)


def goal(c, what, o, p, lo, hi):
    """lo <= p <= hi, distinguishing the values of single bits"""
    F = o.F
    if prove(in_range(p, lo, hi), F.copy(), 5, [p]) is not None:
        for b in bits_of(p, F):
            states = []
            for k in (0, 1):
                G = F.copy()
                try:
                    G.assume_range(Poly({(b,): 1}, 0), k, k)
                    q = subst(p, b, k)
                    if prove(in_range(q, lo, hi), G.copy(), 5, [q]) is not None:
                        break
                except Contradiction:
                    pass
            else:
                c.obl += 1
                c.ok += 1
                return
    c.check(what, in_range(p, lo, hi), o, 5, [p])


def bits_of(p, F):
    for b in sorted({a for m in p.t for a in m}, key=repr):
        try:
            if F.prange(Poly({(b,): 1}, 0)) == (0, 1):
                yield b
        except Exception:
            pass


def subst(p, b, k):
    r = pconst(p.c)
    for m, x in p.t.items():
        if b in m:
            if not k:
                continue
            m = tuple(a for a in m if a != b)
        r = padd(r, Poly({m: 1}, 0) if m else pconst(1), x)
    return r


class Negations:
    """negation and absolute value by their contracts"""

    def __init__(self, c):
        self.c = c
        self.fns = {f["name"]: f for f in c.P.fns.values() if re.search(r"FP492(::| as std::ops::Neg>::)(ineg|neg|iabs|abs)$", f["name"])}

    def hook(self, name):
        if name in self.fns:
            return lambda m, s, f, args, t: self.call(m, s, name, args)
        if re.search("::is_(odd|even)$", name):
            # which way a tie is rounded is of no account
            return lambda m, s, f, args, t: mk(1, ((new_atom(1, "parity"), 0, 1, False),))
        return contracts.handler(name, self.c.used)

    def call(self, m, s, name, args):
        F = s.F
        op = name.split("::")[-1]
        v = args[0]
        while isinstance(v, Ptr):
            v = m.load(s, v)
        u = unsigned_value(v, F)
        neg = decide(lt0(padd(pconst((1 << 511) - 1), u, -1), F), F)
        if op in ("abs", "iabs") and not neg:
            r = v
        elif decide(eq0(u, F), F):
            r = v
        else:
            b = from_poly(padd(pconst(1 << 512), u, -1), 512, F)
            r = Agg(0, (contracts.build(b, 4),))
        if op[0] == "i":
            m.store_ptr(s, args[0], r)
            return Agg(0, ())
        return r


FP = "fp509::FP492"
OPS_ = [("ineg", FP + "::ineg$", 1), ("iabs", FP + "::iabs$", 1), ("neg", FP + r" as std::ops::Neg>::neg$", 1),
        ("is_sign_negative", FP + "::is_sign_negative$", 1), ("divmod", FP + "::divmod_1_over_256$", 1),
        ("add_assign", r"^<f256::math::" + FP + r" as std::ops::AddAssign<.*::add_assign$", 2),
        ("sub_assign", r"^<f256::math::" + FP + r" as std::ops::SubAssign<.*::sub_assign$", 2),
        ("imul_round", FP + "::imul_round$", 2),
        ("div_assign", r"^<f256::math::" + FP + r" as std::ops::DivAssign<.*::div_assign$", 3),
        ("partial_cmp", r"^<f256::math::" + FP + r" as std::cmp::PartialOrd>::partial_cmp$", 2),
        ("cmp", r"^<f256::math::" + FP + r" as std::cmp::Ord>::cmp$", 2),
        ("le", r"^<f256::math::" + FP + r" as std::cmp::PartialOrd>::le$", 2),
        ("eq", r"^<f256::math::" + FP + r" as std::cmp::PartialEq>::eq$", 2)]


def op_jobs(tier):
    J = []
    for op, pat, n in OPS_:
        for sa in (0, 1):
            for sb in ((None,) if n == 1 else (0, 1)):
                if n == 3 and (sa or sb):
                    continue
                J.append(Job(f"contract/{op} {'-' * sa}a {'' if sb is None else '-' * sb + 'b'}".strip(), j_op, op, pat, sa, sb))
    return J


# --------------------------------------------------------------- logarithm

REL = Fr(1, 1 << 490)


class T:
    """kind p: base * [lo, hi];  l: base + [lo, hi];  x: the argument"""
    __slots__ = ("kind", "base", "lo", "hi")

    def __init__(self, kind, base, lo, hi):
        self.kind, self.base, self.lo, self.hi = kind, base, lo, hi


class Logs(Model):
    """products of factors and sums of logarithms, related to the argument"""

    def __init__(self, c):
        super().__init__(c, Fr(1), Fr(2))
        self.made = {}

    def fresh_t(self, t, ti, F):
        v = self.fresh(ti, F, f"r{len(self.tab)}_")
        self.tab[vkey(v, F)] = t
        return v

    def val(self, v, F):
        if isconst(v):
            n = Signed.fixed(v)
            return Fr(n - (1 << 512) if n >> 511 else n, 1 << 492)
        t = self.tab.get(vkey(v, F))
        if t is None:
            raise Imprecise("a fixed-point value of unknown origin")
        return t

    def as_kind(self, t, kind):
        if isinstance(t, Fr):
            return T(kind, "1" if kind == "p" else "0", t, t)
        if t.kind != kind:
            raise Imprecise("a product where a sum is needed, or the other way round")
        return t

    def compare(self, s, a, b):
        if isinstance(a, Fr) and isinstance(b, Fr):
            return (a > b) - (a < b)
        if isinstance(a, T) and a.kind == "x":
            return -self.compare(s, b, a)
        if not (isinstance(b, T) and b.kind == "x"):
            raise Imprecise("comparison")
        a = self.as_kind(a, "p")
        k = ("cmp", a.base, a.lo, a.hi)
        if k not in self.made:
            self.made[k] = (mk(1, ((new_atom(1, "less"), 0, 1, False),)), mk(1, ((new_atom(1, "same"), 0, 1, False),)))
        less, same = self.made[k]
        r = -1 if decide(less, s.F) else 0 if decide(same, s.F) else 1
        s.notes = s.notes + (("compared", a, r),)
        return r

    def oper(self, op, x, F):
        if op in ("mul", "mul_assign", "imul_round"):
            a, b = x
            if isinstance(a, Fr):
                a, b = b, a
            if not isinstance(b, Fr) or not 1 <= b <= 2:
                raise Imprecise("product")
            a = self.as_kind(a, "p")
            return T("p", a.base, cut(a.lo * b * (1 - REL), False), cut(a.hi * b * (1 + REL), True))
        if op in ("add", "add_assign", "sub", "sub_assign"):
            a, b = x
            if op[:3] == "sub":
                if not isinstance(b, Fr):
                    raise Imprecise("difference")
                b = -b
            if isinstance(a, Fr):
                a, b = b, a
            if not isinstance(b, Fr):
                raise Imprecise("sum")
            a = self.as_kind(a, "l")
            return T("l", a.base, a.lo + b, a.hi + b)
        raise Imprecise("operation " + op)

    def fixed(self, t, ti, F):
        return self.fresh_t(t, ti, F)


def log_of(lo, hi, cache={}):
    """enclosure of the logarithms of an interval next to 1 or to a factor"""
    k = (lo, hi)
    if k not in cache:
        r = []
        for x in (lo, hi):
            # x = f (1 + d) with a factor f = 1 + 2^-n, or 1
            n = log2(x - 1) if x > 1 else None
            best = (abs(x - 1), Fr(1))
            for i in range(-1, 2):
                if n is not None and 0 <= -(n + i) < 600:
                    f = 1 + Fr(1, 1 << -(n + i))
                    best = min(best, (abs(x / f - 1), f))
            d, f = best
            l = LOGS.get(f)
            if l is None:
                l = LOGS[f] = LN(f.numerator, f.denominator) if f != 1 else (Fr(0), Fr(0))
            if d > Fr(1, 4):
                y = cut(x, False)
                l, d = LN(y.numerator, y.denominator), Fr(1, 1 << 590)
            e = x / f - 1
            m = 2 * e * e + Fr(1, 1 << 600)
            if e * e > Fr(1, 1 << 900) and x > 1 and abs(e) > Fr(1, 1 << 480):
                l, e, m = LN(x.numerator, x.denominator) if x <= 2 else (None, None), Fr(0), Fr(0)
            r.append((l[0] + e - m, l[1] + e + m))
        cache[k] = (r[0][0], r[1][1])
    return cache[k]


LOGS = {}


def narrowed(o, base, rl, rh):
    """the argument over the base of the product, on the path"""
    for n in o.notes:
        if n[0] == "compared" and n[1].base == base:
            a, r = n[1:]
            if r <= 0:
                rl = max(rl, a.lo)
            if r >= 0:
                rh = min(rh, a.hi)
    return rl, rh


def j_log(c):
    keys = [k for k, g in c.P.fns.items() if re.search("feynman::feynman$", g["name"]) and "blocks" in g]
    if len(keys) != 1:
        raise Imprecise("kernel not found")
    fn = c.P.fns[keys[0]]
    ty = c.P.types[fn["locals"][1]]["e"]
    what = "the logarithm within 2^-480 of the exact value"
    K = Logs(c)
    F0 = Facts()
    x = K.fresh_t(T("x", None, None, None), ty, F0)
    M = Machine(c.P, hook=K.hook)
    H = {}

    def heads(f):
        if id(f) not in H:
            H[id(f)] = frozenset(back(f)) if "math::feynman::" in f.get("name", "") and "blocks" in f else frozenset()
        return H[id(f)]
    M.cut = heads
    st = State([Frame(0, None, [x], None, None)], F0.copy())
    M.push(st, keys[0], fn, [Ptr("l", 0, 0)], None, None)
    tol = Fr(1, 1 << 480)
    pb, lb = "1", "0"
    rl, rh, el, eh = Fr(1), Fr(2), Fr(0), Fr(0)
    n = 0
    returned = 0
    worst = Fr(0)
    ok = True
    try:
        while st is not None:
            n += 1
            if n > 3000:
                raise Imprecise("the loop does not end")
            arrived = []
            for o in M.explore(st):
                c.paths += 1
                if o.kind == "panic":
                    c.obl += 1
                    c.fail("panic", str(o.msg), o)
                    continue
                a, b = narrowed(o, pb, rl, rh)
                if a > b:
                    continue                # no such argument
                if o.kind == "cut":
                    arrived.append((o.mem, a, b))
                    continue
                returned += 1
                t = K.as_kind(K.val(o.val, o.F), "l")
                if t.base not in (lb, "0"):
                    raise Imprecise("another sum is returned")
                e = (Fr(0), Fr(0)) if t.base == "0" and lb != "0" else (el, eh)
                if t.base == "0" and lb != "0":
                    raise Imprecise("a constant is returned")
                lo, hi = ln_near(a)[0], ln_near(b)[1]
                d = max(abs(lo - e[1] - t.hi), abs(hi - e[0] - t.lo))
                worst = max(worst, d)
            # one state for all arrivals
            st = None
            if not arrived:
                break
            f = arrived[0][0].frames[-1]
            lv = sorted(live(f.fn, f.bb) & {i for i, v in enumerate(f.L) if v is not None})
            for s, _, _ in arrived[1:]:
                g = s.frames[-1]
                if g.bb != f.bb or g.uid != f.uid or len(s.frames) != len(arrived[0][0].frames):
                    raise Imprecise("different loops")
            kinds = {}
            for l in lv:
                vs = [s.frames[-1].L[l] for s, _, _ in arrived]
                ts = []
                for (s, _, _), v in zip(arrived, vs):
                    ts.append(K.tab.get(vkey(v, s.F)) if isinstance(v, Agg) and not isconst_safe(v) else None)
                if any(t is not None for t in ts):
                    ks = {t.kind for t in ts if t is not None}
                    if len(ks) != 1:
                        raise Imprecise("values of two kinds")
                    kinds[l] = ks.pop()
                elif len({deep(v) for v in vs}) > 1:
                    raise Imprecise("another value differs between the paths")
            ps = [l for l, k in kinds.items() if k == "p"]
            ls = [l for l, k in kinds.items() if k == "l"]
            if len(ps) > 1 or len(ls) > 1:
                raise Imprecise("more than one product or sum")
            s0 = arrived[0][0]
            if ps and ls:
                R, E = [], []
                for s, a, b in arrived:
                    p = K.as_kind(K.val(s.frames[-1].L[ps[0]], s.F), "p")
                    q = K.as_kind(K.val(s.frames[-1].L[ls[0]], s.F), "l")
                    if p.base != pb or q.base != lb:
                        raise Imprecise("another base")
                    R.append((a / p.hi, b / p.lo))
                    k = (Fr(0), Fr(0)) if (p.lo, p.hi) == (1, 1) else log_of(p.lo, p.hi)
                    E.append((el + q.lo - k[1], eh + q.hi - k[0]))
                rl, rh = cut(min(a for a, _ in R), False), cut(max(b for _, b in R), True)
                el, eh = cut(min(a for a, _ in E), False), cut(max(b for _, b in E), True)
                pb, lb = f"p{n}", f"l{n}"
                g = s0.frames[-1]
                s0.F = F0.copy()
                g.L[ps[0]] = K.fresh_t(T("p", pb, Fr(1), Fr(1)), ty, s0.F)
                g.L[ls[0]] = K.fresh_t(T("l", lb, Fr(0), Fr(0)), ty, s0.F)
            elif ps or ls:
                raise Imprecise("product and sum do not go together")
            s0.skip = (f.uid, f.bb)
            s0.steps = 0
            s0.notes = ()
            K.made.clear()
            st = s0
    except Imprecise as e:
        ok = False
        why = str(e)
    c.steps += M.stat_steps
    for k in M.fns_seen:
        c.fns.add(c.P.fns[k]["name"])
    c.obl += 1
    if ok and returned and worst <= tol:
        c.ok += 1
        c.notes.append(f"{n} iterations, error below 2^{log2(worst)}")
        return
    why = why if not ok else f"error bound 2^{log2(worst)}"
    bad = log_counter(c, keys[0], fn, tol)
    c.fail(what, bad or why, definite=bool(bad))


def isconst_safe(v):
    try:
        return isconst(v)
    except Exception:
        return True


def deep(v):
    return repr(v)


def ln_near(r):
    """enclosure of the logarithm of a ratio"""
    if abs(r - 1) < Fr(1, 1 << 300):
        d = r - 1
        return d - d * d, d
    if r > 2 or r < 1:
        return Fr(-1), Fr(1)
    return LN(r.numerator, r.denominator)


POINTS = [Fr(3, 2), Fr(5, 4), Fr(2) - U_, Fr(4, 3), 1 + Fr(1, 1 << 100), 1 + Fr(3, 1 << 236), Fr(7, 4), Fr(15, 8) + Fr(1, 1 << 200)]


def log_counter(c, key, fn, tol):
    """constant propagation along single arguments"""
    for x in POINTS:
        n = x.numerator * ONE // x.denominator
        x = Fr(n, ONE)
        M = c.machine()
        st = State([Frame(0, None, [fixed_const(n)], None, None)], Facts())
        M.push(st, key, fn, [Ptr("l", 0, 0)], None, None)
        lo, hi = LN(x.numerator, x.denominator)
        for o in M.explore(st):
            if o.kind == "panic":
                return f"panic at {float(x):.17g}"
            if not isconst(o.val):
                break
            m = Signed.fixed(o.val)
            v = Fr(m - (1 << 512) if m >> 511 else m, ONE)
            d = max(lo - v, v - hi)
            if d > Fr(51, 100) * ulp(hi):
                return f"at x = {float(x):.17g} the result is off by {float(d / ulp(hi)):.3g} units in the last place"
    return None


def all_jobs(tier):
    return [Job("log", j_log)] + acc_jobs(tier) + op_jobs(tier)
