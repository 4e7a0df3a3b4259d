"""P19: the compiler's values of the crate's constants and tables against exact
enclosures, computed here with integers only."""
from fractions import Fraction as Fr
from functools import lru_cache
from math import isqrt
from spec import *
from interp import Program

G = 700                 # precision of the enclosures (bits)


# ------------------------------------------------------------ exact enclosures
# an enclosure is (lo, hi) of Fractions; all of the functions below round outwards
def encl(n, err, bits):
    return (Fr(n - err, 1 << bits), Fr(n + err, 1 << bits))


@lru_cache(None)
def atan_inv(num, den, bits):
    """atan(num/den) * 2^bits, 0 < num <= den / 2; error below 2 + number of terms"""
    g = 64
    n = bits + g
    x = (num << n) // den
    s, t, i, sg = x, x, 1, 1
    k = 0
    while t:
        t = t * num * num // (den * den)
        i += 2
        sg = -sg
        s += sg * (t // i)
        k += 1
    return s >> g        # |error| <= 4k / 2^g + 1 < 2


@lru_cache(None)
def pi_(bits):
    return 16 * atan_inv(1, 5, bits + 8) - 4 * atan_inv(1, 239, bits + 8) >> 8


def PI(bits=G):
    return encl(pi_(bits), 2, bits)


@lru_cache(None)
def atanh_inv(num, den, bits):
    g = 64
    n = bits + g
    x = (num << n) // den
    s, t, i = x, x, 1
    while t:
        t = t * num * num // (den * den)
        i += 2
        s += t // i
    return s >> g


def LN(num, den, bits=G):
    """ln(num/den), 1 < num/den <= 2"""
    return encl(2 * atanh_inv(num - den, num + den, bits + 4), 8, bits + 4)


def LN2(bits=G):
    return LN(2, 1, bits)


def LN10(bits=G):
    return add(scale(LN2(bits), 3), LN(10, 8, bits))


@lru_cache(None)
def e_(bits):
    n = bits + 64
    s = t = 1 << n
    i = 0
    while t:
        i += 1
        t //= i
        s += t
    return s >> 64


def E(bits=G):
    return encl(e_(bits), 2, bits)


@lru_cache(None)
def gamma_(bits):
    """Euler's constant, Brent and McMillan: g = A/B - ln n + O(e^-4n)"""
    n = bits // 5 + 8                    # e^-4n < 2^-(5.7 n)
    w = bits + 64
    a = u = -log_fixed(n, w)
    b = v = 1 << w
    i = 1
    while True:
        k = n * n
        b = b * k // (i * i)
        a = (a * k // i + b) // i
        u += a
        v += b
        i += 1
        if b == 0 and abs(a) <= 1:
            break
    return (u << bits) // v


def log_fixed(n, w):
    k = n.bit_length() - 1
    r = k * (2 * atanh_inv(1, 3, w + 8) >> 8)
    if n != 1 << k:
        r += 2 * atanh_inv(n - (1 << k), n + (1 << k), w + 8) >> 8
    return r


def GAMMA(bits=G):
    # terms grow up to e^(2n) times the sum's weight, which cancels in the
    # quotient: the absolute error of u and v is below (number of terms) * n
    return encl(gamma_(bits), 1 << 40, bits)


def SQRT(a, bits=G):
    """of a rational enclosure"""
    lo = isqrt((a[0].numerator << (2 * bits)) // a[0].denominator)
    hi = isqrt(-(-(a[1].numerator << (2 * bits)) // a[1].denominator)) + 1
    return (Fr(lo, 1 << bits), Fr(hi, 1 << bits))


def add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def scale(a, q):
    q = Fr(q)
    return (a[0] * q, a[1] * q) if q >= 0 else (a[1] * q, a[0] * q)


def inv(a):
    return (1 / a[1], 1 / a[0])


def exact(q):
    return (Fr(q), Fr(q))


def ATAN(num, den, bits=G):
    """atan(num/den), 0 <= num < den"""
    if num == 0:
        return exact(0)
    if 2 * num <= den:
        return encl(atan_inv(num, den, bits), 4, bits)
    # atan(x) = atan(1/2) + atan((x - 1/2)/(1 + x/2))
    n, d = 2 * num - den, 2 * den + num
    return add(encl(atan_inv(1, 2, bits), 4, bits), encl(atan_inv(n, d, bits), 4, bits))


def fact(n):
    r = 1
    for i in range(2, n + 1):
        r *= i
    return r


# ------------------------------------------------------------ decoding
def decode(P, ti, b):
    t = P.types[ti]
    k = t["k"]
    if k == "int":
        return int.from_bytes(b, "little", signed=bool(t["s"]))
    if k == "bool":
        return b[0]
    if k == "pat":
        return decode(P, t["e"], b)
    if k == "array":
        e = t["lay"]["stride"]
        n = len(b) // e if e else 0
        return [decode(P, t["e"], b[i * e:(i + 1) * e]) for i in range(n)]
    if k == "tuple":
        return [decode(P, x, b[o:o + size(P, x)]) for x, o in zip(t["f"], t["lay"]["offsets"])]
    if k == "adt" and t.get("kind") == "Struct":
        fs = t["v"][0]["f"]
        r = {n: decode(P, x, b[o:o + size(P, x)]) for (n, x), o in zip(fs, t["lay"]["offsets"])}
        if len(fs) == 1:
            return r[fs[0][0]]
        if set(r) >= {"hi", "lo"} and len([n for n in r if n in ("hi", "lo")]) == 2 and isinstance(r["hi"], int):
            w = size(P, dict((n, x) for n, x in fs)["lo"]) * 8
            return r["hi"] << w | r["lo"]
        return r
    raise Imprecise("constant of type " + str(t)[:80])


def size(P, ti):
    t = P.types[ti]
    if t["k"] == "int":
        return t["w"] // 8
    if t["k"] == "bool":
        return 1
    if t["k"] == "pat":
        return size(P, t["e"])
    return t["lay"]["size"]


def f256_val(v):
    """the exact value of a finite encoding"""
    s, e, m = v >> 255, v >> 236 & 0x7ffff, v & ((1 << 236) - 1)
    if e == 0x7ffff:
        raise Imprecise("not finite")
    if e:
        m |= 1 << 236
    else:
        e = 1
    x = Fr(m) * Fr(2) ** (e - 262143 - 236)
    return (-x if s else x), Fr(2) ** (e - 262143 - 236)


def fp492(v, n=512):
    return Fr(v - (1 << n) if v >> (n - 1) else v, 1 << 492)


def big(v):
    """(value, ulp) of a BigFloat"""
    u = Fr(2) ** (v["exp"] - 254)
    return v["signum"] * v["signif"] * u, u


# ------------------------------------------------------------ the tables
def q_pi(q):
    return lambda: scale(PI(), Fr(q))


CONSTS = {           # crate::consts: nearest f256
    "PI": q_pi(1), "TAU": q_pi(2), "FRAC_3_PI_2": q_pi("3/2"), "FRAC_PI_2": q_pi("1/2"),
    "FRAC_PI_3": q_pi("1/3"), "FRAC_PI_4": q_pi("1/4"), "FRAC_PI_6": q_pi("1/6"), "FRAC_PI_8": q_pi("1/8"),
    "FRAC_1_PI": lambda: inv(PI()), "FRAC_2_PI": lambda: scale(inv(PI()), 2),
    "SQRT_PI": lambda: SQRT(PI()), "FRAC_2_SQRT_PI": lambda: scale(inv(SQRT(PI())), 2),
    "SQRT_2": lambda: SQRT(exact(2)), "FRAC_1_SQRT_2": lambda: inv(SQRT(exact(2))),
    "SQRT_5": lambda: SQRT(exact(5)), "PHI": lambda: scale(add(SQRT(exact(5)), exact(1)), Fr(1, 2)),
    "SQRT_3": lambda: SQRT(exact(3)), "FRAC_1_SQRT_3": lambda: inv(SQRT(exact(3))),
    "FRAC_1_SQRT_PI": lambda: inv(SQRT(PI())), "FRAC_1_SQRT_2PI": lambda: inv(SQRT(scale(PI(), 2))),
    "GAMMA": GAMMA, "E": E, "LN_2": LN2, "LN_10": LN10,
    "LOG2_E": lambda: inv(LN2()), "LOG10_E": lambda: inv(LN10()),
    "LOG2_10": lambda: scale_by(LN10(), inv(LN2())), "LOG10_2": lambda: scale_by(LN2(), inv(LN10())),
}


def scale_by(a, b):
    return (a[0] * b[0], a[1] * b[1])       # both positive


B236 = 1 << 236
ENC = {              # crate root and f256::*: exact encodings
    "EPSILON": (262143 - 236) << 236, "MAX": (0x7ffff << 236) - 1, "MIN": (1 << 255) + (0x7ffff << 236) - 1,
    "MIN_POSITIVE": 1 << 236, "MIN_GT_ZERO": 1, "INFINITY": 0x7ffff << 236, "NEG_INFINITY": (1 << 255) + (0x7ffff << 236),
    "ZERO": 0, "NEG_ZERO": 1 << 255, "ONE": 262143 << 236, "NEG_ONE": (1 << 255) + (262143 << 236),
    "ONE_HALF": 262142 << 236, "TWO": 262144 << 236, "FIVE": (262145 << 236) + (1 << 234),
    "TEN": (262146 << 236) + (1 << 234),
}
INTS = {
    "RADIX": 2, "MANTISSA_DIGITS": 237, "SIGNIFICANT_DIGITS": 237, "DIGITS": 71, "MAX_EXP": 262144, "MIN_EXP": -262141,
    "MAX_10_EXP": 78913, "MIN_10_EXP": -78912,
}
BIG = {
    "ONE": lambda: exact(1), "NEG_ONE": lambda: exact(-1), "TWO": lambda: exact(2), "ONE_HALF": lambda: exact(Fr(1, 2)),
    "EPSILON": lambda: exact(Fr(1, 1 << 254)), "PI": q_pi(1), "FRAC_PI_2": q_pi("1/2"), "FRAC_PI_4": q_pi("1/4"),
    "FRAC_3_PI_2": q_pi("3/2"), "TAU": q_pi(2), "FRAC_3_PI_4": q_pi("3/4"), "FRAC_5_PI_4": q_pi("5/4"),
    "FRAC_7_PI_4": q_pi("7/4"), "FRAC_9_PI_4": q_pi("9/4"), "SQRT_PI": lambda: SQRT(PI()),
    "SQRT_2": lambda: SQRT(exact(2)), "FRAC_1_SQRT_2": lambda: inv(SQRT(exact(2))),
}
FIX = {              # FP492 constants, by the last two segments of the path
    "FP492::ONE": lambda: exact(1), "FP492::TWO": lambda: exact(2), "FP492::ONE_HALF": lambda: exact(Fr(1, 2)),
    "FP492::ZERO": lambda: exact(0), "FP492::EPSILON": lambda: exact(Fr(1, 1 << 492)),
    "fp509::FRAC_1_OVER_256": lambda: exact(Fr(1, 256)),
    "log::LN_2": LN2, "log::LN_10": LN10, "log::LOG2_E": lambda: inv(LN2()), "log::LOG10_E": lambda: inv(LN10()),
    "asin_acos::FP492_FRAC_PI_2": q_pi("1/2"), "asin_acos::FP492_NEG_FRAC_PI_2": q_pi("-1/2"),
    "asin_acos::FP492_FRAC_PI_4": q_pi("1/4"), "asin_acos::FP492_NEG_FRAC_PI_4": q_pi("-1/4"),
    "reduce::FP_FRAC_PI_4": q_pi("1/4"), "reduce::FP_FRAC_PI_2": q_pi("1/2"), "reduce::FP_FRAC_3_PI_4": q_pi("3/4"),
    "reduce::FP_PI": q_pi(1), "reduce::FP_FRAC_5_PI_4": q_pi("5/4"),
    "reduce::FP_FRAC_7_PI_4_M4": lambda: add(scale(PI(), Fr(7, 4)), exact(-4)),
    "reduce::FP_FRAC_9_PI_4_M4": lambda: add(scale(PI(), Fr(9, 4)), exact(-4)),
}


def within(x, e, tol):
    """the distance of x to every point of the enclosure is at most tol: True;
    for none of them: False; else None"""
    lo, hi = e
    d1, d2 = abs(x - lo), abs(x - hi)
    if max(d1, d2) <= tol:
        return True
    if min(d1, d2) > tol and not lo <= x <= hi:
        return False
    return None


def one(c, what, ok, detail):
    c.obl += 1
    if ok is True:
        c.ok += 1
    elif ok is None:
        c.fail(what, "the enclosure does not decide: " + detail)
    else:
        c.fail(what, detail, definite=True)


def show(x):
    return f"{float(x):.20g}" if abs(x) < Fr(10) ** 300 and (x == 0 or abs(x) > Fr(1, 10 ** 300)) else "value"


def near(c, what, x, u, e, half=Fr(1, 2)):
    d = abs(x - (e[0] + e[1]) / 2) / u
    one(c, what, within(x, e, u * half), f"is {show(x)}, {float(d):.3g} units in the last place away from its definition ({show(e[0])})")


def values(c):
    """{path: (value, source line)} of the compiler's constants"""
    if getattr(c.P, "_vals", None) is None:
        r = {}
        for name, ti, al, fn, ln in c.P.values:
            try:
                r[name] = (decode(c.P, ti, bytes.fromhex(al["b"])), f"{fn}:{ln}")
            except (Imprecise, KeyError, TypeError):
                pass
        c.P._vals = r
    return c.P._vals


def j_consts(c, kind):
    V = values(c)
    n0 = c.obl
    for path, (v, at) in V.items():
        segs = path.replace("f256::f256::", "f256::").split("::")
        nm, two = segs[-1], "::".join(segs[-2:])
        here = f"{path} ({at}) "
        if kind == "published" and "::consts::" in path and nm in CONSTS:
            x, u = f256_val(v)
            near(c, here + "is the nearest f256", x, u, CONSTS[nm]())
        elif kind == "limits" and len(segs) == 2 and segs[0] == "f256":
            if nm in ENC and isinstance(v, int):
                one(c, here + "has its encoding", v == ENC[nm], f"is {v:#x}, not {ENC[nm]:#x}")
            elif nm in INTS:
                one(c, here + "has its value", v == INTS[nm], f"is {v}, not {INTS[nm]}")
            elif nm == "NAN":
                one(c, here + "is a NaN", isinstance(v, int) and v & ((1 << 255) - 1) > 0x7ffff << 236, f"is {v:#x}")
        elif kind == "bigfloat" and two.startswith("BigFloat::") and nm in BIG and isinstance(v, dict) and "signif" in v:
            x, u = big(v)
            one(c, here + "is normalised", 1 << 254 <= v["signif"] < 1 << 255, f"significand {v['signif']:#x}")
            near(c, here + "is the nearest", x, u, BIG[nm]())
        elif kind == "fixed" and two in FIX and isinstance(v, int):
            near(c, here + "is the nearest", fp492(v), Fr(1, 1 << 492), FIX[two]())
        else:
            continue
        c.fns.add(path)
    if c.obl == n0:
        c.obl += 1
        c.fail("found", "no constant of this kind found")


def find(c, suffix):
    r = [(p, v, at) for p, (v, at) in values(c).items() if p.endswith(suffix)]
    if len(r) != 1:
        raise Imprecise(f"{suffix}: {len(r)} items")
    c.fns.add(r[0][0])
    return r[0]


U492 = Fr(1, 1 << 492)


def rows(c, jobs):
    """obligations on the rows of one table, each (what, ok, detail); where most
    rows differ, the table has another layout than the one assumed"""
    other = 2 * sum(ok is False for _, ok, _ in jobs) > len(jobs)
    for what, ok, detail in jobs:
        one(c, what, None if other and ok is False else ok, detail)


def row(what, v, e):
    x = fp492(v)
    return what, within(x, e, U492), f"is {show(x)}, {float(abs(x - e[0]) / U492):.3g} units in the last place away from its definition ({show(e[0])})"


def j_coeffs(c, suffix, f):
    """Horner tables: the constant term is the last row (or the first)"""
    p, v, at = find(c, suffix)
    n = len(v)
    best = None
    for order in (range(n - 1, -1, -1), range(n)):
        r = [row(f"{p} ({at}) row {i} is the coefficient", x, f(k)) for (i, x), k in zip(enumerate(v), order)]
        k = sum(ok is not True for _, ok, _ in r)
        if best is None or k < best[0]:
            best = (k, r)
    rows(c, best[1])


def co_sin(k):
    return exact(Fr((-1) ** k, fact(2 * k + 1)))


def co_cos(k):
    return exact(Fr((-1) ** k, fact(2 * k)))


def co_atan(k):
    return exact(Fr((-1) ** k, 2 * k + 1))


def j_atans(c):
    p, v, at = find(c, "approx_atan::ATANS")
    n = len(v)
    rows(c, [row(f"{p} ({at}) row {i} is atan({i}/{n})", x, ATAN(i, n)) for i, x in enumerate(v)])


def j_lut(c):
    p, v, at = find(c, "feynman::LUT")
    rows(c, [(f"{p} ({at}) row {i} is 1 + 2^-{i + 1}", fp492(f) == 1 + Fr(1, 2 << i), f"is {show(fp492(f))}")
             for i, (f, l) in enumerate(v)])
    rows(c, [row(f"{p} ({at}) row {i} is the logarithm of 1 + 2^-{i + 1}", l, LN((2 << i) + 1, 2 << i))
             for i, (f, l) in enumerate(v)])


def j_two_over_pi(c):
    p, v, at = find(c, "two_over_pi::TWO_OVER_PI")
    n = 8 * len(v)
    g = n + 128
    P = pi_(g)
    lo, hi = (2 << 2 * g) // (P + 2) >> 128, (2 << 2 * g) // (P - 2) >> 128
    got = int.from_bytes(bytes(v), "big")
    if lo != hi:
        raise Imprecise("enclosure of 2/pi")
    J = []
    for i in range(0, len(v), 32):
        k = min(32, len(v) - i)
        sh = n - 8 * (i + k)
        w = (1 << 8 * k) - 1
        J.append((f"{p} ({at}) bytes {i}..{i + k} are those of 2/pi", got >> sh & w == lo >> sh & w,
                  f"is {got >> sh & w:0{2 * k}x}, not {lo >> sh & w:0{2 * k}x}"))
    rows(c, J)


def j_reduce(c):
    """the split of pi/2 and the reciprocal used by the reduction"""
    q = {}
    for n in ("R", "C1", "C2", "C3", "D"):
        p, v, at = find(c, "fma_reduce::" + n)
        q[n], u = big(v)
        if n == "R":
            near(c, f"{p} ({at}) is 2/pi", q[n], u, scale(inv(PI()), 2))
        elif n == "D":
            one(c, f"{p} ({at}) is 3*2^253", q[n] == 3 << 253, show(q[n]))
        elif n == "C1":
            near(c, f"{p} ({at}) is pi/2 to 253 bits", q[n], 4 * u, scale(PI(), Fr(1, 2)))
            one(c, f"{p} ({at}) has two spare bits", v["signif"] % 4 == 0, hex(v["signif"]))
        elif n == "C2":
            near(c, f"{p} ({at}) is the next part of pi/2", q["C1"] + q[n], 8 * u, scale(PI(), Fr(1, 2)), Fr(1))
        else:
            near(c, f"{p} ({at}) is the rest of pi/2", q["C1"] + q["C2"] + q[n], u, scale(PI(1000), Fr(1, 2)), Fr(1))


def j_pow5(c):
    p, v, at = find(c, "fast_exact::POWERS_OF_FIVE")
    rows(c, [(f"{p} ({at}) row {i} is 5^{i}", f256_val(x)[0] == 5 ** i, f"is {show(f256_val(x)[0])}") for i, x in enumerate(v)])
    p, v, at = find(c, "to_str::powers_of_five::POWERS_OF_FIVE")
    rows(c, [(f"{p} ({at}) row {i} is 5^{i}", h << 128 | l == 5 ** i, f"is {h << 128 | l:#x}") for i, (h, l) in enumerate(v)])
    p, v, at = find(c, "from_str::powers_of_five::POWERS_OF_FIVE")
    m = len(v) // 2
    J = []
    for j, (h, l, e) in enumerate(v):
        i = j - m
        x = Fr(5) ** i * Fr(2) ** (255 - e)         # significand, truncated
        J.append((f"{p} ({at}) row {j} is 5^{i}", h << 128 | l == x.numerator // x.denominator and h >> 127 == 1,
                  f"is ({h:#x}, {l:#x}, {e})"))
    rows(c, J)
    p, v, at = find(c, "big_decimal::LEFT_SHIFT_HELPER_TABLE")
    rows(c, [(f"{p} ({at}) row {i} has the digits added by 2^{i}", n == (len(str(2 ** i)) if i else 0), f"{n} digits")
             for i, (n, ds) in enumerate(v)])
    J = []
    for i, (n, ds) in enumerate(v):
        s = str(5 ** i) if i else ""
        J.append((f"{p} ({at}) row {i} has the digits of 5^{i}", ds == [int(x) for x in s] + [0] * (len(ds) - len(s)), str(ds)))
    rows(c, J)


def const_jobs(tier):
    k = dict(config="values")
    J = [Job("constants/" + x, j_consts, x, **k) for x in ("published", "limits", "bigfloat", "fixed")]
    J += [Job("tables/sin", j_coeffs, "approx_sin::COEFFS", co_sin, **k),
          Job("tables/cos", j_coeffs, "approx_cos::COEFFS", co_cos, **k),
          Job("tables/atan", j_coeffs, "approx_atan::COEFFS", co_atan, **k),
          Job("tables/atans", j_atans, **k), Job("tables/ln", j_lut, **k), Job("tables/two_over_pi", j_two_over_pi, **k),
          Job("tables/reduce", j_reduce, **k), Job("tables/powers_of_five", j_pow5, **k)]
    return J
