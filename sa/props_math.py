"""Elementary functions: special values, domains, symmetries.  The numeric
kernels (polynomials, range reduction, extended floats) are uninterpreted:
a result that depends on one of them is just some value."""
import re
from spec import *
from props_struct import fresh_of
from interp import NOSUM, Ptr, State, Frame
import contracts

HEAVY = re.compile(r"math::(feynman::|big_float::|fp509::|circular_fns::reduce::|circular_fns::approx_(sin|cos|atan)::)")


DIV = r"<impl std::ops::Div(<.*>)? for &?f256::f256>::div$|^<&?f256::f256 as std::ops::Div"


class Kernels:
    """hook: calls of kernel functions return fresh values, the same for the
    same arguments"""

    def __init__(self, c, pat=HEAVY, post=None, consts=False, also=None):
        """consts: calls with constant arguments are evaluated; also: further
        functions to leave uninterpreted"""
        self.consts = consts
        self.also = also and re.compile(also)
        self.c = c
        self.P = c.P
        self.byname = {}
        for f in c.P.fns.values():
            self.byname.setdefault(f["name"], f)
        self.pat = pat
        self.memo = {}
        self.atoms = set()
        self.calls = {}
        self.post = post or {r"reduce::reduce$": lambda F, r: F.assume_range(U(r.f[0], F), 0, 3)}

    def uses(self, fn):
        """the signature mentions one of the kernels' number formats"""
        P = self.P
        seen = set()

        def has(ti, d=0):
            if ti in seen or d > 6:
                return False
            seen.add(ti)
            t = P.types[ti]
            if t["k"] == "adt" and re.search(r"FP492|BigFloat", t["n"]):
                return True
            if t["k"] == "ptr":
                return has(t["e"], d + 1)
            if t["k"] in ("tuple",):
                return any(has(x, d + 1) for x in t["f"])
            return False
        return any(has(ti) for ti in fn["locals"][:fn["nargs"] + 1])

    def hook(self, name):
        if name in self.memo:
            return self.memo[name]
        fn = self.byname.get(name)
        h = None
        if fn is not None and "blocks" in fn and (self.pat.search(name) and self.uses(fn)
                                                  or self.also and self.also.search(name)):
            h = lambda m, s, f, args, t: self.call(m, s, fn, args)
        if h is None:
            h = contracts.handler(name, self.c.used)
        self.memo[name] = h
        return h

    def fresh(self, ti, F, nm):
        v = fresh_of(self.P, ti, F, nm)
        for b in leaves(v):
            for p in b.p:
                if p[0] is not None:
                    self.atoms.add(p[0])
        return v

    def call(self, m, s, fn, args):
        name = fn["name"]
        muts = []
        vals = []
        for ti, a in zip(fn["locals"][1:fn["nargs"] + 1], args):
            t = self.P.types[ti]
            if t["k"] == "ptr" and t.get("m"):
                muts.append((a, t["e"]))
            v = a
            while isinstance(v, Ptr):
                v = m.load(s, v)
            vals.append(v)
        if self.consts and all(isconst(v) for v in vals):
            return NOSUM                    # a constant: evaluated
        key = (name, tuple(vkey(v, s.F) for v in vals))
        if key not in self.calls:
            n = f"k{len(self.calls)}_"
            self.calls[key] = (self.fresh(fn["locals"][0], s.F, n),
                               [self.fresh(e, s.F, n + "m") for _, e in muts])
        r, outs = self.calls[key]
        s.notes = s.notes + (("kernel", name),)
        for (p, _), v in zip(muts, outs):
            m.store_ptr(s, p, v)
        for pat, post in self.post.items():
            if re.search(pat, name):
                post(s.F, r)
        return r

    def touches(self, o):
        """a kernel was called on this path"""
        return any(n[0] == "kernel" for n in o.notes)


def leaves(v):
    if isinstance(v, Agg):
        for x in v.f:
            yield from leaves(x)
    elif isinstance(v, BV):
        yield v


def isconst(v):
    if isinstance(v, Agg):
        return all(isconst(x) for x in v.f)
    return isinstance(v, BV) and v.isconst()


def vkey(v, F):
    if isinstance(v, Agg):
        return tuple(vkey(x, F) for x in v.f) + (v.v,)
    if isinstance(v, BV):
        return (v.w, U(v, F).key())
    return str(v)


# --------------------------------------------------------- oracle constants
def pi_fixed(n):
    """pi * 2^n, error below 2 units (Machin's formula on integers)"""
    g = 64

    def arccot(k):
        t = s = (1 << (n + g)) // k
        i, sg = 1, 1
        while t:
            t //= k * k
            i += 2
            sg = -sg
            s += sg * (t // i)
        return s
    return (4 * (4 * arccot(5) - arccot(239))) >> g


def enc(num, n):
    """encoding of num * 2^-n rounded to nearest (never a tie here)"""
    k = num.bit_length() - 237
    q = (num + (1 << (k - 1))) >> k
    if q >> 237:
        q >>= 1
        k += 1
    e = k - n + 236
    return ((e + BIAS) << 236) + (q - (1 << 236))


_PI = pi_fixed(600)
PI = enc(_PI, 600)
PI2 = enc(_PI, 601)
PI4 = enc(_PI, 602)
PI34 = enc(3 * _PI, 602)
ONE = BIAS << 236
NANLO = INF + 1


def tiny_bits(k100, sq):
    """largest encoding v with v <= 2^(-k100/100)"""
    from decimal import Decimal, getcontext
    getcontext().prec = 200
    v = Decimal(2) ** (Decimal(-k100) / 100)
    num = int(v * (Decimal(2) ** 600))
    k = num.bit_length() - 237
    return ((k - 600 + 236 + BIAS) << 236) + ((num >> k) - (1 << 236))


# |x| up to which the exact value differs from x by less than one ulp
SMALL = {"sin": tiny_bits(11720, 6), "tan": tiny_bits(11770, 3), "asin": tiny_bits(11720, 6), "atan": tiny_bits(11770, 3)}
COS1 = tiny_bits(11800, 2)           # ... and its cosine from 1
ACOS0 = tiny_bits(23600, 1)          # ... and its arccosine from pi/2
ATANINF = (BIAS + 236) << 236        # |x| from which atan is pi/2 up to an ulp


def absof(v, F):
    return padd(fbits(v, F), U(topbit(v, F), F), -SIGN)


def want_nan(c, what, o, v):
    ab = absof(v, o.F)
    c.check(what + " is NaN", in_range(ab, NANLO, None), o, 5, [ab])


def want(c, what, o, v, bits):
    d = padd(fbits(v, o.F), bits, -1)
    c.check(what, is_zero(d), o, 5, [d])


def signed(x, k):
    return padd(pconst(k), x.S, SIGN)


def kernel_free(c, K, what, o, v):
    """the result must not come from a kernel"""
    c.obl += 1
    if K.touches(o):
        c.fail(what + ": the operand reaches the numeric kernel", "", o)
        return False
    c.ok += 1
    return True


def xreg(F, reg, sign):
    """operand regions"""
    lo = EMAX
    if reg == "tiny":
        x = FX(F, "x", "norm", sign)
        F.assume_range(x.e, None, BIAS - 120)
    elif reg == "mid":
        x = FX(F, "x", "norm", sign)
        F.assume_range(x.e, BIAS - 119, None)
    elif reg == "below1":
        x = FX(F, "x", "norm", sign)
        F.assume_range(x.e, BIAS - 119, BIAS - 1)
    elif reg == "one":
        x = FX(F, "x", "norm", sign)
        F.assume_range(padd(x.absbits, pconst(ONE), -1), 0, 0)
    elif reg == "above1":
        x = FX(F, "x", "norm", sign)
        F.assume_range(x.absbits, ONE + 1, None)
    elif reg == "mid1":
        x = FX(F, "x", "norm", sign)
        F.assume_range(x.absbits, ONE + 1, None)
        F.assume_range(x.e, None, BIAS + 236)
    elif reg == "large":
        x = FX(F, "x", "norm", sign)
        F.assume_range(x.e, BIAS + 237, None)
    else:
        x = FX(F, "x", reg, sign)
    return x


def j_unary(c, fn, reg, sign, spec):
    F = Facts()
    x = xreg(F, reg, sign)
    K = Kernels(c, also=DIV if fn == "tan" else None)
    what = f"{fn}({'-' * sign}{reg})"

    def one(o, v, spec, what):
        F = o.F
        if spec != "free" and not spec.startswith("free:"):
            if not kernel_free(c, K, what, o, v):
                return
        if spec == "nan":
            want_nan(c, what, o, v)
        elif spec == "x":
            want(c, what + " is the operand", o, v, x.bits)
        elif spec == "one":
            want(c, what + " is 1", o, v, pconst(ONE))
        elif spec == "zero":
            want(c, what + " is +0", o, v, pconst(0))
        elif spec == "pi2":
            want(c, what + " is pi/2 with the operand's sign", o, v, signed(x, PI2))
        elif spec == "pi4":
            want(c, what + " is pi/4 with the operand's sign", o, v, signed(x, PI4))
        elif spec == "acos1":
            want(c, what + " is 0 or pi", o, v, pconst(PI) if sign else pconst(0))
        else:
            if K.touches(o):
                c.obl += 1
                c.ok += 1
                return
            d = padd(fbits(v, F), x.bits, -1)
            f = spec[5:] or fn
            if f in SMALL and F.prange(d) == (0, 0):
                c.check(what + " is the operand: only where that is within one ulp",
                        in_range(x.absbits, None, SMALL[f]), o, 5, [x.absbits])
            elif f == "cos":
                want(c, what + " is 1 when not computed", o, v, pconst(ONE))
                c.check(what + " is 1: only where that is within one ulp", in_range(x.absbits, None, COS1), o, 5, [x.absbits])
            elif f == "acos":
                want(c, what + " is pi/2 when not computed", o, v, pconst(PI2))
                c.check(what + " is pi/2: only where that is within one ulp", in_range(x.absbits, None, ACOS0), o, 5, [x.absbits])
            elif f == "atan":
                want(c, what + " is the operand or pi/2 when not computed", o, v, signed(x, PI2))
                c.check(what + " is pi/2: only where that is within one ulp", in_range(x.absbits, ATANINF, None), o, 5, [x.absbits])
            elif f == "log":
                want(c, what + " is 0 when not computed", o, v, pconst(0))
                want(c, what + " is 0: only at 1", o, Agg(0, x.val.f), pconst(ONE))
            else:
                want(c, what + " is the operand when not computed", o, v, x.bits)

    n = 0
    for o in c.explore(fn, [x.val], F, hook=K.hook):
        n += 1
        if fn == "sin_cos":
            a, b = spec.split("/")
            one(o, o.val.f[0], a, what + ".0")
            one(o, o.val.f[1], b, what + ".1")
        else:
            one(o, o.val, spec, what)
    if not n:
        c.obl += 1
        c.fail(what + " returns", "no returning path")


NANS = ("nanh", "nanl")
SUBS = ("subh", "subl")
UNARY = {}
for _f in ("sin", "tan"):
    UNARY[_f] = {**{r: "nan" for r in NANS + ("inf",)}, **{r: "x" for r in ("zero", "tiny") + SUBS}, "mid": "free:" + _f}
UNARY["cos"] = {**{r: "nan" for r in NANS + ("inf",)}, "zero": "one", **{r: "free:cos" for r in ("tiny", "mid") + SUBS}}
UNARY["sin_cos"] = {r: {"nan": "nan/nan"}.get(v, "x/one") if r != "mid" else "free:sin/free:cos"
                    for r, v in UNARY["sin"].items()}
UNARY["asin"] = {**{r: "nan" for r in NANS + ("inf", "above1")}, "one": "pi2",
                 **{r: "x" for r in ("zero", "tiny") + SUBS}, "below1": "free:asin"}
UNARY["acos"] = {**{r: "nan" for r in NANS + ("inf", "above1")}, "one": "acos1",
                 **{r: "free:acos" for r in ("zero", "tiny", "below1") + SUBS}}
UNARY["atan"] = {**{r: "nan" for r in NANS}, "inf": "pi2", "large": "pi2", "one": "pi4",
                 **{r: "x" for r in ("zero", "tiny") + SUBS}, "below1": "free:atan", "mid1": "free:atan"}
for _f in ("ln", "log2", "log10"):
    UNARY[_f] = {**{r: "nan" for r in NANS + ("inf", "zero")}, **{r: "pos:log" for r in ("norm",) + SUBS}}
UNARY["sqrt"] = {**{r: "nan" for r in NANS}, "zero": "x", "inf": "pos:x", "norm": "neg:nan", "subh": "neg:nan", "subl": "neg:nan"}


def special_jobs(tier):
    J = []
    for fn, regs in UNARY.items():
        for reg, sp in regs.items():
            for s in (0, 1):
                if sp.startswith("neg:"):
                    if not s:
                        continue
                    q = sp[4:]
                elif sp.startswith("pos:"):
                    q = ("nan" if s else "free:log" if sp == "pos:log" else sp[4:])
                else:
                    q = sp
                J.append(Job(f"{fn}/{'-' * s}{reg}", j_unary, fn, reg, s, q))
    for cy in CLS2:
        for cx in CLS2:
            for s in range(4):
                J.append(Job(f"atan2/{'-' * (s >> 1)}{cy},{'-' * (s & 1)}{cx}", j_atan2, cy, cx, s >> 1, s & 1))
    return J


CLS2 = ("zero", "subh", "subl", "norm", "inf", "nanh", "nanl")


def j_atan2(c, cy, cx, sy, sx):
    fin = ("subh", "subl", "norm")
    what = f"atan2({'-' * sy}{cy}, {'-' * sx}{cx})"
    F = Facts()
    y, x = FX(F, "y", cy, sy), FX(F, "x", cx, sx)
    K = Kernels(c, consts=True)
    both = cy in fin and cx in fin
    if both:
        if cy != cx:
            return
        what += " |y|=|x|"
        F.assume_range(padd(x.absbits, y.absbits, -1), 0, 0)
    n = 0
    for o in c.explore("atan2", [y.val, x.val], F, hook=K.hook):
        n += 1
        v = o.val
        got = fbits(v, o.F)
        if not kernel_free(c, K, what, o, v):
            continue
        if "nan" in (y.base, x.base):
            want_nan(c, what, o, v)
            continue
        if cy == "zero":
            # the documented result for y = 0 ignores the sign of the zero
            k = [PI if sx and cx != "zero" else 0]
            k += [k[0] + SIGN] if sy or not k[0] else []
        elif cx == "zero" or (cy == "inf" and cx != "inf"):
            k = [PI2 + sy * SIGN]
        elif cy == cx == "inf" or both:
            q = PI34 if sx else PI4
            k = [q + sy * SIGN]
            if both:
                k += [k[0] - 1, k[0] + 1]
        else:
            k = [(PI if sx else 0) + sy * SIGN]
        ds = [padd(got, pconst(b), -1) for b in k]
        c.check(what + " is " + "/".join(hex(b)[:12] for b in k),
                lambda F: any(F.prange(d) == (0, 0) for d in ds), o, 5, ds)
    if not n:
        c.obl += 1
        c.fail(what + " returns", "no returning path")


# --------------------------------------------------------------- symmetries
RULES = [
    (r"::is_sign_negative$", "isneg"),
    (r"::neg$", "neg"), (r"::ineg$", "neg"),
    (r"::(abs|iabs)$", "abs"),
    (r"(::add|::add_assign|::iadd)$", "add"),
    (r"(::sub|::sub_assign|::isub)$", "sub"),
    (r"(::mul|::mul_assign|::imul|::imul_round)$", "mul"),
    (r"(::div|::div_assign|::idiv)$", "mul!"),
    (r"(::recip|::approx_atan|::approx_sin|From<.*>::from|From<.*> for .*>::from|::from_f256)$", "odd"),
    (r"::approx_cos$", "even"),
]


class Signed(Kernels):
    """kernels as uninterpreted functions that are odd or even in their
    operands"""

    def __init__(self, c, **kw):
        super().__init__(c, **kw)
        self.tab = {}
        self.made = {}

    def sv(self, v, F):
        """(key of the magnitude, sign)"""
        ls = list(leaves(v))
        if isinstance(v, Agg) and len(ls) == 4 and ls[0].w == 32:
            key = self.tab.get(tuple(vkey(b, F) for b in ls[1:]))
            if key is not None:
                same = F.prange(padd(S(ls[0], F), S(self.made[key][0].f[0], F), -1)) == (0, 0)
                return (key, 1 if same else -1)
        k = vkey(v, F)
        if k in self.tab:
            return self.tab[k]
        if not isinstance(v, Agg):
            return (k, 1)
        if len(ls) == 2 and all(b.w == 128 for b in ls):            # f256
            t = topbit(v, F)
            ab = padd(fbits(v, F), U(t, F), -SIGN)
            if t.isconst():
                return (("f", F.psimp(ab).key() if hasattr(F, "psimp") else ab.key()), -1 if cval(t) else 1)
            p = t.p[0]
            return (("f", ab.key(), p[0], p[1]), -1 if p[3] else 1)
        if isconst(v):
            if len(ls) == 4 and all(b.w == 128 for b in ls):        # fixed point
                n = self.fixed(v)
                if n >> 511:
                    return (("c", (1 << 512) - n), -1)
                return (("c", n), 1)
            if len(ls) == 4 and ls[0].w == 32:                      # extended float
                s = cval(ls[0])
                return (("b",) + tuple(cval(b) for b in ls[1:]) + (int(s != 0),), -1 if s >> 31 else 1)
        return (k, 1)

    @staticmethod
    def fixed(v):
        hi, lo = v.f[0].f
        n = 0
        for b in list(leaves(hi)) + list(leaves(lo)):
            n = (n << 128) | cval(b)
        return n

    def make(self, key, ti, F):
        """the two values +-f(key)"""
        if key in self.made:
            return self.made[key]
        n = f"k{len(self.made)}_"
        v = self.fresh(ti, F, n)
        w = v
        ls = list(leaves(v))
        t = self.P.types[ti]
        if t["k"] == "adt" and t["n"].endswith("::f256"):
            sa, ab = new_atom(1, n + "s"), new_atom(255, n)
            lo = mk(128, ((ab, 0, 128, False),))
            v, w = (f256v(mk(128, ((ab, 128, 127, False), (sa, 0, 1, i))), lo) for i in (False, True))
        elif t["k"] == "adt" and t["n"].endswith("BigFloat"):
            # signum 1 - 2b: zero is not distinguished
            b = new_atom(1, n + "b")
            sg = padd(pconst(1), upoly(atom_bv(b)), -2)
            v, w = (Agg(v.v, (from_poly(q, 32, F),) + tuple(v.f[1:])) for q in (sg, padd(ZERO, sg, -1)))
            self.made[key] = (v, w)
            self.tab[tuple(vkey(x, F) for x in ls[1:])] = key
            return v, w
        elif t["k"] == "adt":
            w = self.fresh(ti, F, n + "n")
        self.made[key] = (v, w)
        self.tab[vkey(v, F)] = (key, 1)
        if w is not v:
            self.tab[vkey(w, F)] = (key, -1)
        return self.made[key]

    def call(self, m, s, fn, args):
        name, F = fn["name"], s.F
        vals, mut, mty = [], None, None
        for ti, a in zip(fn["locals"][1:fn["nargs"] + 1], args):
            t = self.P.types[ti]
            if t["k"] == "ptr" and t.get("m"):
                mut, mty = a, t["e"]
            v = a
            while isinstance(v, Ptr):
                v = m.load(s, v)
            vals.append(v)
        s.notes = s.notes + (("kernel", name),)
        rty = mty if mut is not None else fn["locals"][0]
        rule = next((r for p, r in RULES if re.search(p, name)), None)
        sv = [self.sv(v, F) for v in vals]
        sg = 1
        if rule == "isneg":
            k, q = sv[0]
            if k[0] == "abs":
                return const(1, 0)
            v = self.make(("isneg", k), rty, F)[0]
            return v if q > 0 else bnot(v)
        if rule == "neg" or rule == "abs":
            k, q = sv[0]
            if rule == "abs":
                key = ("abs", k)
            else:
                key, sg = k, -q
                if key not in self.made:
                    # the operand is not of our making: name it
                    self.tab[vkey(vals[0], F)] = (("id", k), q)
                    key = ("id", k)
                    if key not in self.made:
                        a, b = self.make(key, rty, F)
                        self.made[key] = (vals[0], b) if q > 0 else (b, vals[0])
        elif rule in ("add", "sub"):
            (a, p), (b, q) = sv
            if rule == "sub":
                q = -q
            if repr(b) < repr(a):
                (a, p), (b, q) = (b, q), (a, p)
            sg = p
            key = ("add", a, b, p * q)
        elif rule in ("mul", "mul!"):
            (a, p), (b, q) = sv
            if rule == "mul" and repr(b) < repr(a):
                a, b = b, a
            sg = p * q
            key = (rule, a, b, str(rty))
        elif rule == "odd":
            key, sg = (name, sv[0][0]), sv[0][1]
        elif rule == "even":
            key = (name, sv[0][0])
        else:
            key = (name,) + tuple(sv)
        r = self.make(key, rty, F)[0 if sg > 0 else 1]
        for pat, post in self.post.items():
            if re.search(pat, name):
                post(F, r)
        if mut is not None:
            m.store_ptr(s, mut, r)
            return fresh_of(self.P, fn["locals"][0], F, "unit")
        return r


def j_pair(c, fn, rel, reg, sign, pat):
    F = Facts()
    x = xreg(F, reg, sign)
    K = Signed(c, also=DIV, pat=pat)
    what = f"{fn[5:]}({'-' * sign}{reg}) {rel}"
    n = 0
    for o in c.explore(fn, [x.val], F, hook=K.hook):
        n += 1
        a, b = o.val.f
        d = padd(absof(a, o.F), absof(b, o.F), -1)
        sa, sb = U(topbit(a, o.F), o.F), U(topbit(b, o.F), o.F)
        sd = padd(sa, sb, -1) if rel != "odd" else padd(padd(sa, sb), pconst(-1))
        c.check(what + ": magnitudes", is_zero(d), o, 5, [d])
        c.check(what + ": signs", is_zero(sd), o, 5, [sd])
    if not n:
        c.obl += 1
        c.fail(what + " returns", "no returning path")


PAIRS = [("pair_sin", "odd", 0), ("pair_cos", "even", 0), ("pair_tan", "odd", 0), ("pair_asin", "odd", 1),
         ("pair_atan", "odd", 2), ("pair_sc_sin", "equal", 0), ("pair_sc_cos", "equal", 0), ("pair_tan_sc", "equal", 0)]
# comparisons and absolute values of fixed-point numbers interpreted
CMP = re.compile(r"^(?!.*(cmp::|::abs$|::iabs$|::ineg$|::neg$|::invert$|is_sign|signum)).*"
                 r"math::(feynman::|big_float::|fp509::|circular_fns::reduce::|circular_fns::approx_atan::)")


FPOPS = re.compile(r"math::(fp509::(?!FP492::new))")


def j_kernel(c, name, rel, lo=0, hi=255):
    """the kernel itself, on x and -x"""
    keys = [k for k, f in c.P.fns.items() if re.search(name, f["name"]) and "blocks" in f]
    if len(keys) != 1:
        raise Imprecise("kernel not found: " + name)
    fn = c.P.fns[keys[0]]
    ty = fn["locals"][0]
    K = Signed(c, pat=FPOPS, post={"divmod_1_over_256": lambda F, r: F.assume_range(S(r.f[0], F), lo, hi)})
    F = Facts()
    x, nx = K.make(("x",), ty, F)
    first = list(run_ref(c, K, keys[0], x, F))
    n = 0
    for o in first:
        for o2 in run_ref(c, K, keys[0], nx, o.F):
            n += 1
            k1, k2 = K.sv(o.val, o2.F), K.sv(o2.val, o2.F)
            want = (k1[0], -k1[1]) if rel == "odd" else k1
            if vkey(o.val, o2.F) == ((vkey(x, o2.F))) and vkey(o2.val, o2.F) == vkey(nx, o2.F) and rel == "odd":
                want = k2
            c.obl += 1
            if k2 == want:
                c.ok += 1
            else:
                c.fail(f"{fn['name'].split('::')[-1]} is {rel}", "", o2)
    if not n:
        c.obl += 1
        c.fail(name + " returns", "no returning path")


def run_ref(c, K, key, x, F):
    """call a function of one reference"""
    fn = c.P.fns[key]
    M = Machine(c.P, hook=K.hook)
    st = State([Frame(0, None, [x], None, None)], F.copy())
    M.push(st, key, fn, [Ptr("l", 0, 0)], None, None)
    for o in M.explore(st):
        c.paths += 1
        if o.kind == "panic":
            c.obl += 1
            c.fail("panic", str(o.msg), o)
            continue
        yield o
    c.steps += M.stat_steps
    for k in M.fns_seen:
        c.fns.add(c.P.fns[k]["name"])


def sym_jobs(tier):
    J = [Job("kernel/" + n, j_kernel, n + "$", r) for n, r in
         (("approx_sin::approx_sin", "odd"), ("approx_cos::approx_cos", "even"))]
    J += [Job(f"kernel/approx_atan row {i}..{i + 15}", j_kernel, "approx_atan::approx_atan$", "odd", i, i + 15)
          for i in range(0, 256, 16)]
    for fn, rel, dom in PAIRS:
        for reg in ("zero", "subh", "subl", "tiny") + (("mid",) if dom == 0 else ("below1", "one")) + \
                (("inf", "mid1", "large") if dom == 2 else ()):
            if fn[:7] in ("pair_sc", "pair_ta") and fn != "pair_sc_sin" and fn != "pair_tan" and reg in ("zero", "subh", "subl", "tiny"):
                continue
            for s in (0, 1):
                J.append(Job(f"{fn}/{'-' * s}{reg}", j_pair, fn, rel, reg, s, pat=CMP if "_sc_" in fn else HEAVY))
    return J
