"""Classification, sign and bit operations, comparisons."""
from spec import *

CL = {"nan": 0, "inf": 1, "zero": 2, "sub": 3, "norm": 4}


def j_class(c, cls):
    def expect(entry, v):
        F = Facts()
        x = FX(F, "x", cls)
        n = 0
        for o in c.explore(entry, [x.val], F):
            n += 1
            p = U(o.val, o.F)
            w = v(x) if callable(v) else pconst(int(v))
            d = padd(p, w, -1)
            c.check(f"{entry}({cls})", is_zero(d), o, 5, [d])
    b = cls.rstrip("hl")
    expect("is_nan", b == "nan")
    expect("is_infinite", b == "inf")
    expect("is_finite", b in ("zero", "sub", "norm"))
    expect("is_subnormal", b == "sub")
    expect("is_normal", b == "norm")
    expect("eq_zero", b == "zero")
    expect("is_special", b in ("zero", "inf", "nan"))
    expect("classify", CL[b])
    expect("is_sign_negative", lambda x: x.S)
    expect("is_sign_positive", lambda x: padd(pconst(1), x.S, -1))


def classification():
    return [Job(f"class/{cls}", j_class, cls)
            for cls in ("zero", "subh", "subl", "norm", "inf", "nanh", "nanl")]


def anybits(pfx):
    a = new_atom(256, pfx)
    lo = mk(128, ((a, 0, 128, False),))
    hi = mk(128, ((a, 128, 128, False),))
    return a, hi, lo


def eqbits(c, what, o, got, want):
    d = padd(got, want, -1)
    return c.check(what, is_zero(d), o, 5, [d])


def j_bits(c, op):
    F = Facts()
    a, hi, lo = anybits("x")
    A = upoly(atom_bv(a))
    top = basisp(a, 255)
    x = f256v(hi, lo)
    if op in ("neg", "neg_r"):
        want = padd(padd(A, pconst(SIGN)), top, -2 * SIGN)
    elif op == "abs":
        want = padd(A, top, -SIGN)
    else:
        want = A
    if op in ("neg", "neg_r", "abs", "rt_be", "rt_le", "rt_ne"):
        for o in c.explore(op, [x], F):
            eqbits(c, op, o, fbits(o.val, o.F), want)
    elif op == "to_bits":
        for o in c.explore(op, [x], F):
            h, l = o.val.f
            eqbits(c, op, o, padd(U(l, o.F), U(h, o.F), 1 << 128), A)
    elif op == "from_bits":
        for o in c.explore(op, [Agg(0, (hi, lo))], F):
            eqbits(c, op, o, fbits(o.val, o.F), A)
    elif op.startswith("to_"):
        for o in c.explore(op, [x], F):
            b = list(o.val.f)
            if op == "to_be":
                b.reverse()
            got = ZERO
            for i, v in enumerate(b):
                got = padd(got, U(v, o.F), 1 << (8 * i))
            c.check(op + " yields 32 bytes", lambda F: len(b) == 32, o)
            eqbits(c, op, o, got, A)
    elif op.startswith("from_"):
        arr = [mk(8, ((a, 8 * i, 8, False),)) for i in range(32)]
        if op == "from_be":
            arr.reverse()
        for o in c.explore(op, [Agg(0, tuple(arr))], F):
            eqbits(c, op, o, fbits(o.val, o.F), A)


def bitops():
    return [Job("bits/" + op, j_bits, op) for op in (
        "neg", "neg_r", "abs", "to_bits", "from_bits", "rt_be", "rt_le",
        "rt_ne", "to_be", "to_le", "from_be", "from_le")]


# ------------------------------------------------------------- comparisons
def order_cases(x, y):
    """[(assumption, order)] covering every pair of this class and sign
    combination; order 0 less, 1 equal, 2 greater, 3 unordered (numerically),
    and the IEEE totalOrder"""
    out = []
    sx, sy = cval(x.s), cval(y.s)
    d = padd(x.absbits, y.absbits, -1)
    for rel, lo, hi in ((0, None, -1), (1, 0, 0), (2, 1, None)):
        m = rel if not sx else 2 - rel
        if sx != sy:
            tot = 0 if sx else 2
            num = 1 if x.base == y.base == "zero" else tot
        else:
            tot = num = m
        if "nan" in (x.base, y.base):
            num = 3
        out.append((lambda F, lo=lo, hi=hi: F.assume_range(d, lo, hi), rel, num, tot))
    return out


def j_cmp(c, cx, cy, sx, sy, ops):
    for op in ops:
        for i in range(3):
            F = Facts()
            x = FX(F, "x", cx, sx)
            y = FX(F, "y", cy, sy)
            ass, rel, num, tot = order_cases(x, y)[i]
            try:
                ass(F)
            except Contradiction:
                continue
            eq = x.bits
            want = {"eq": num == 1, "ne": num != 1, "lt": num == 0,
                    "le": num in (0, 1), "gt": num == 2, "ge": num in (1, 2),
                    "partial_cmp": num, "total_cmp": tot}
            for o in c.explore(op, [x.val, y.val], F):
                what = f"{op}({'-' if sx else '+'}{cx},{'-' if sy else '+'}{cy}) |x|{'<=>'[rel]}|y|"
                rev = sx and sy and rel != 1 and (op == "total_cmp" or num != 3)
                if not rev:
                    verdict(c, op, what, want, x, y, num, tot, o)
                    continue
                # the recorded finding: negatives are ordered by magnitude
                r = 2 - num if num != 3 else 3
                want2 = {"lt": r == 0, "le": r in (0, 1), "gt": r == 2,
                         "ge": r in (1, 2), "partial_cmp": r, "total_cmp": 2 - tot,
                         "eq": num == 1, "ne": num != 1}
                c.either(what, op + " orders negative operands by magnitude",
                         lambda: verdict(c, op, what, want, x, y, num, tot, o),
                         lambda: verdict(c, op, what, want2, x, y, r, 2 - tot, o), o)


def verdict(c, op, what, want, x, y, num, tot, o):
    if op in want:
        d = padd(U(o.val, o.F), pconst(int(want[op])), -1)
        return c.check(what, is_zero(d), o, 5, [d])
    return mm(c, op, what, x, y, num, tot, o)


def mm(c, op, what, x, y, num, tot, o):
    got = fbits(o.val, o.F)
    if x.base == "nan" and y.base == "nan":
        ab = padd(got, U(topbit(o.val, o.F), o.F), -SIGN)
        return c.check(what + " is NaN", in_range(ab, INF + 1, None), o, 5, [ab])
    if x.base == "nan":
        return eqbits(c, what, o, got, y.bits)
    if y.base == "nan":
        return eqbits(c, what, o, got, x.bits)
    if num == 1:
        # equal operands: either is a maximum and a minimum
        d1, d2 = padd(got, x.bits, -1), padd(got, y.bits, -1)
        return c.check(what, lambda F: F.prange(d1) == (0, 0) or F.prange(d2) == (0, 0), o, 5, [d1, d2])
    first = (num == 2) == (op == "max")
    return eqbits(c, what, o, got, x.bits if first else y.bits)


def comparison(ops):
    jobs = []
    for cx in CLASSES:
        for cy in CLASSES:
            for sx in (0, 1):
                for sy in (0, 1):
                    jobs.append(Job(f"cmp/{sx}{cx},{sy}{cy}", j_cmp, cx, cy, sx, sy, ops))
    return jobs


def le_order(x, y, rel, rev=False):
    """x <= y from the order of the magnitudes (rel: 0 <, 1 =, 2 >); with
    rev: the recorded finding (negatives ordered by magnitude)"""
    sx, sy = cval(x.s), cval(y.s)
    if "nan" in (x.base, y.base):
        return False
    if x.base == y.base == "zero":
        return True
    if sx != sy:
        return bool(sx)
    if sx and not rev:
        rel = 2 - rel
    return rel <= 1


def j_clamp(c, cx, ca, cb, sx, sa, sb):
    from itertools import product
    for rxa, rxb, rab in product(range(3), repeat=3):
        F = Facts()
        x, a, b = FX(F, "x", cx, sx), FX(F, "a", ca, sa), FX(F, "b", cb, sb)
        try:
            for u, v, r in ((x, a, rxa), (x, b, rxb), (a, b, rab)):
                lo, hi = ((None, -1), (0, 0), (1, None))[r]
                F.assume_range(padd(u.absbits, v.absbits, -1), lo, hi)
            for u, v, r in ((x, a, rxa), (x, b, rxb), (a, b, rab)):
                F.prange(padd(u.absbits, v.absbits, -1))
        except Contradiction:
            continue
        # transitivity of the assumed order
        d = {0: -1, 1: 0, 2: 1}
        if d[rxa] + d[rab] != 0 and d[rxa] * d[rab] >= 0 and d[rxb] * (d[rxa] + d[rab]) <= 0:
            continue
        if rxa == rab == 1 and rxb != 1:
            continue
        what = f"clamp({'-' * sx}{cx}, {'-' * sa}{ca}, {'-' * sb}{cb})"

        def want(rev):
            if not le_order(a, b, rab, rev):
                return None
            if x.base == "nan":
                return x
            if not le_order(a, x, 2 - rxa, rev):
                return a
            if not le_order(x, b, rxb, rev):
                return b
            return x
        w, w2 = want(False), want(True)
        key = c.P.entries["probe::clamp"]
        M = c.machine()
        for o in M.run(key, [x.val, a.val, b.val], F):
            c.paths += 1
            if c.panics:
                c.obl += 1
                if o.kind != "panic" or w is None or w2 is None:
                    c.ok += 1
                else:
                    c.fail("panic", str(o.msg), o)
                continue
            if w2 is w:
                judge(c, what, o, w)
            else:
                c.either(what, "clamp orders negative operands by magnitude",
                         lambda: judge(c, what, o, w), lambda: judge(c, what, o, w2), o)
        c.steps += M.stat_steps
        for k in M.fns_seen:
            c.fns.add(c.P.fns[k]["name"])


def judge(c, what, o, w):
    if w is None or o.kind == "panic":
        c.obl += 1
        if w is None and o.kind == "panic":
            c.ok += 1
            return True
        c.fail("panic" if w else "no panic", str(o.msg), o)
        return False
    if w.base == "nan":
        got = fbits(o.val, o.F)
        ab = padd(got, U(topbit(o.val, o.F), o.F), -SIGN)
        return c.check(what + " is NaN", in_range(ab, INF + 1, None), o, 5, [ab])
    return eqbits(c, what, o, fbits(o.val, o.F), w.bits)


def clamp(tier):
    jobs = []
    for cx in CLASSES:
        for ca in CLASSES:
            for cb in CLASSES:
                if tier != "thorough" and "nan" in (ca, cb) and len({cx, ca, cb}) > 2:
                    continue
                if tier != "thorough" and cx != "nan" and len({cx, ca, cb}) == 3:
                    continue
                for s in range(8):
                    jobs.append(Job(f"clamp/{s:03b} {cx},{ca},{cb}", j_clamp, cx, ca, cb, s >> 2, s >> 1 & 1, s & 1))
    return jobs


def cmp_ops():
    return comparison(["eq", "ne", "lt", "le", "gt", "ge", "partial_cmp"])


def total():
    return comparison(["total_cmp"])


def minmax(tier):
    return comparison(["min", "max"]) + clamp(tier)
