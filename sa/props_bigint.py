"""The multi-word integers: every body behind an integer contract is analysed
on its own and compared with the contract (contracts.py), the contracts of the
other operators being in force for the calls it makes."""
import re
from spec import *
from contracts import OPS, NOSUM, leaves, contract_of, SIZES
import contracts, ops, poly
from prove import *
from props_arith import sel

SHIFTS = {"shl", "shr", "shl_assign", "shr_assign", "widening_shl", "widening_shr", "carrying_shl",
          "carrying_shr", "shift_left", "rem_pow2", "rounding_div_pow2", "from_u256_shifted"}
DIVS = {"div", "rem", "div_rem", "div_rem_subuint_special"}
INPLACE = {"add_assign", "sub_assign", "mul_assign", "shl_assign", "shr_assign", "bitor_assign",
           "bitand_assign", "incr", "decr", "incr_if", "decr_if"}


PAIRS = {"overflowing_add", "overflowing_sub", "overflowing_mul", "carrying_add", "borrowing_sub", "widening_shl",
         "widening_shr", "carrying_shl", "carrying_shr"}
CMPS = {"eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge"}
WRAP = {"wrapping_add": 1, "wrapping_sub": -1, "incr": 1, "decr": -1, "incr_if": 1, "decr_if": -1,
        "overflowing_add": 1, "overflowing_sub": -1, "carrying_add": 1, "borrowing_sub": -1, "overflowing_mul": "*"}


def pointee(P, ti):
    while P.types[ti]["k"] == "ptr":
        ti = P.types[ti]["e"]
    return ti


def limbs_of(P, ti):
    ti = pointee(P, ti)
    t = P.types[ti]
    if t["k"] == "adt" and re.search(r"(U128|UInt<.*>)$", t["s"]):
        return P.size(ti) // 16
    if t["k"] == "adt" and t["s"].endswith("fma::u768"):
        return 6
    return 0


def short(n):
    n = re.sub(r"f256::big_uint::|uint_generic::|binops::|uint128::|std::\w+::|fused_ops::fma::", "", n)
    n = n.replace("UInt<UInt<UInt<U128>>>", "U1024").replace("UInt<UInt<U128>>", "U512").replace("UInt<U128>", "U256")
    return re.sub(r"\w+::<impl (.*)>::", r"<\1>::", n)


class Setup:
    """symbolic operands of one function; references point into a root frame"""

    def __init__(self, c, key, F, amount_=None, same_=False):
        P = c.P
        fn = P.fns[key]
        self.key, self.fn, self.F = key, fn, F
        self.root = []
        self.args = []
        self.vals = []
        self.poly = []
        self.bounds = []
        for i in range(1, fn["nargs"] + 1):
            ti = fn["locals"][i]
            ti = ti["t"] if isinstance(ti, dict) else ti
            depth = 0
            tj = ti
            while P.types[tj]["k"] == "ptr":
                depth += 1
                tj = P.types[tj]["e"]
            t = P.types[tj]
            n = limbs_of(P, tj)
            if n and same_ and self.vals:
                v, p = self.vals[0], self.poly[0]
            elif n:
                ls = [self.atom(128, f"{'abc'[i - 1]}{n - 1 - j}") for j in range(n)]
                v = self.nest(ls)
                p = pconst(0)
                for l in ls:
                    p = padd(pscale(p, 1 << 128), U(l, F))
            elif t["k"] == "bool":
                v = self.atom(1, "abc"[i - 1])
                p = U(v, F)
            elif t["k"] == "int" and t["w"] == 32 and amount_ is not None:
                v = const(32, amount_)
                p = pconst(amount_)
            elif t["k"] == "int":
                v = self.atom(t["w"], "abc"[i - 1])
                p = U(v, F)
            else:
                raise Imprecise("operand type " + str(t)[:80])
            self.vals.append(v)
            self.poly.append(p)
            for _ in range(depth):
                self.root.append(v)
                v = Ptr("l", 0, len(self.root) - 1)
            self.args.append(v)

    @staticmethod
    def atom(w, nm):
        a = new_atom(w, nm)
        return mk(w, ((a, 0, w, False),))

    @staticmethod
    def nest(ls):
        if len(ls) == 1:
            return Agg(0, (ls[0],))
        if len(ls) == 6:
            return Agg(0, tuple(Setup.nest(ls[k:k + 2]) for k in (0, 2, 4)))
        h = len(ls) // 2
        return Agg(0, (Setup.nest(ls[:h]), Setup.nest(ls[h:])))

    def state(self, F):
        r = Frame(0, None, list(self.root), None, None)
        return State([r], F)

    def limbs(self, i):
        return leaves(self.vals[i])


def split_eval(F, thunk, depth=12):
    """thunk(F) under every alternative of the decisions it asks for"""
    try:
        yield F, thunk(F)
    except NeedSplit as e:
        if depth == 0:
            raise
        for alt in e.alts:
            G = F.copy()
            try:
                alt(G)
            except Contradiction:
                continue
            yield from split_eval(G, thunk, depth - 1)
    except Contradiction:
        return


def same(a, b, F, out):
    """the obligations that two values are equal, as polynomials"""
    if isinstance(a, BV) and isinstance(b, BV):
        if a.w != b.w:
            out.append(pconst(1))
        else:
            out.append(padd(U(a, F), U(b, F), -1))
    elif isinstance(a, Agg) and isinstance(b, Agg):
        la, lb = leaves(a), leaves(b)
        if la and lb and len(la) == len(lb):
            out.append(padd(value(a, F), value(b, F), -1))
        elif a.v != b.v or len(a.f) != len(b.f):
            out.append(pconst(1))
        else:
            for x, y in zip(a.f, b.f):
                same(x, y, F, out)
    else:
        raise Imprecise(f"compare {a} {b}")


def value(v, F):
    ls = leaves(v)
    p = pconst(0)
    for l in ls:
        p = padd(pscale(p, 1 << 128), U(l, F))
    return p


def empty(F, bounds, depth=1):
    """some assumed or recorded bound is contradicted by the others"""
    forms = [(Poly(dict(k), 0), r[1]) for k, r in list(F.prng.items())[-10:]][::-1]
    if any(prove(in_range(p, h + 1, None), F.copy(), 4, [p]) is None for p, h in bounds + forms):
        return True
    if depth == 0:
        return False
    seen = set()
    for p, h in forms[:4]:
        for m in p.t:
            if len(m) == 1 and m not in seen:
                seen.add(m)
                q = Poly({m: 1}, 0)
                l, h = F.prange(q)
                if h - l != 1:
                    continue
                for v in (l, h):
                    G = F.copy()
                    try:
                        G.assume_range(q, v, v)
                        consistent(G)
                    except Contradiction:
                        continue
                    if not empty(G, bounds, depth - 1):
                        break
                else:
                    return True
    return False


def check(c, what, goal, o, polys):
    """discharge one obligation, distinguishing the values of a carry"""
    F = o.F
    r = prove(goal, F.copy(), 4, polys)
    if r is not None:
        for m in {m for p in polys for m in p.t if len(m) == 1}:
            q = Poly({m: 1}, 0)
            try:
                l, h = F.prange(q)
                if F.lp is None and h - l > 2:
                    l, h = poly.lp_range(F, q)
            except Contradiction:
                r = None
                break
            if not 1 <= h - l <= 2:
                continue
            for v in range(l, h + 1):
                G = F.copy()
                try:
                    G.assume_range(q, v, v)
                    consistent(G)
                    if prove(goal, G, 4, polys) is not None and not empty(G, []):
                        break
                except Contradiction:
                    continue
            else:
                r = None
                break
    c.oblige(what, r, o, polys)


def returns(c, su):
    M = c.machine()
    M.recombine = False
    st = su.state(su.F)
    M.push(st, su.key, su.fn, su.args, None, None)
    try:
        for o in M.explore(st):
            c.paths += 1
            if o.kind == "panic":
                c.obl += 1
                # the state is empty if an assumed bound is contradicted in it
                if empty(o.F, su.bounds):
                    c.ok += 1
                else:
                    c.fail("panic", f"{o.msg}", o)
                continue
            if c.panics:
                c.obl += 1
                c.ok += 1
                continue
            yield M, o
    finally:
        c.steps += M.stat_steps
        for k in M.fns_seen:
            c.fns.add(c.P.fns[k]["name"])


def body(c, key, op, case, amount_=None):
    F = Facts()
    handler = OPS[op]
    op = op.split("::")[-1]
    op = {"iadd": "add_assign", "isub": "sub_assign"}.get(op, op)
    contracts.EXACT_REM[0] = True
    contracts.BELOW[:] = []
    ops.WORDS[:] = (256, 128, 64)
    poly.RLT[0] = True
    poly.LIMIT[0] = 80
    su = Setup(c, key, F, amount_, op in CMPS and case == 1)
    n = limbs_of(c.P, c.P.fns[key]["locals"][1]["t"] if isinstance(c.P.fns[key]["locals"][1], dict)
                 else c.P.fns[key]["locals"][1])
    w = 128 * n
    x = su.poly[0]
    y = su.poly[1] if len(su.poly) > 1 else None
    try:
        if op in ("add", "add_assign"):
            F.assume_range(padd(x, y), 0, (1 << w) - 1)
        elif op in ("sub", "sub_assign"):
            F.assume_range(padd(x, y, -1), 0, None)
        elif op in ("mul", "mul_assign"):
            assume_product(F, su, case, w)
        elif op == "carrying_shl":
            F.assume_range(su.poly[2], 0, (1 << amount_) - 1)
        elif op == "carrying_shr":
            pass
        elif op == "msb":
            F.assume_range(x, 1, None)
        elif op == "leading_zeros":
            if case == 0:
                F.assume_range(x, 0, 0)
            else:
                F.assume_range(x, 1 << (case - 1), (1 << case) - 1)
        elif op == "trailing_zeros":
            bits_ = 0
            for l in reversed(su.limbs(0)):
                n_ = min(128, max(0, case + 1 - bits_))
                if n_:
                    v = 1 << (case - bits_) if 0 <= case - bits_ < 128 else 0
                    F.set_bits(l.p[0][0], 0, n_, v)
                bits_ += 128
        elif op in WRAP:
            k = WRAP[op]
            Q = pmul(x, y) if k == "*" else padd(x, y if y is not None else pconst(1), k)
            if len(su.poly) > 2:
                Q = padd(Q, su.poly[2], k)
            lo, hi = 0, 1 << w
            if case == 0:
                F.assume_range(Q, 0, (1 << w) - 1)
            elif k == -1:
                F.assume_range(Q, None, -1)
            else:
                F.assume_range(Q, 1 << w, None)
        elif op in CMPS:
            F.assume_range(padd(x, y, -1), *((None, -1), (0, 0), (1, None))[case])
        elif op in DIVS:
            if op == "div_rem_subuint_special":
                m = w // 2
                F.assume_range(y, 1 << (m - 1 - case), (1 << (m - case)) - 1)
                contracts.BELOW[:] = [pscale(y, 1 << case)]
                hi = value(su.vals[0].f[0], F)
                F.assume_range(padd(y, hi, -1), 1, None)
            else:
                F.assume_range(y, 1, None)
                div_case(F, su, case)
    except Contradiction:
        return
    name = short(c.P.fns[key]["name"])
    for M, o in returns(c, su):
        got = o.mem[0].L[0] if op in INPLACE else o.val
        if op in DIVS:
            division(c, name, op, su, o, got)
            continue

        def expect(G):
            s = su.state(G)
            # operands as they were; in-place operators store into them
            SIZES.add(8)
            try:
                r = handler(M, s, *su.args)
            finally:
                SIZES.discard(8)
            if r is NOSUM:
                raise Imprecise(f"contract of {op} does not apply")
            return s.frames[0].L[0] if op in INPLACE else r
        for G, want in split_eval(o.F.copy(), expect):
            diffs = []
            if op in ("widening_mul", "carrying_mul"):
                Q = pmul(x, y) if op == "widening_mul" else padd(pmul(x, y), su.poly[2])
                diffs.append(padd(padd(value(got.f[0], G), pscale(value(got.f[1], G), 1 << w)), Q, -1))
            elif op in PAIRS:
                for g1, w1 in zip(got.f, want.f):
                    same(g1, w1, G, diffs)
            else:
                same(got, want, G, diffs)
            for d in diffs:
                g = Outcome("ret", o.val, G)
                g.notes = o.notes
                c.check(f"{name}: result is the exact integer", is_zero(d), g, 4, [d])


def assume_product(F, su, case, w):
    """one of the operands fits in half the width"""
    x, y = su.poly[:2]
    if case is not None and len(su.limbs(0)) > 1:
        i, k = case
        v = su.vals[i]
        if isinstance(v, Agg) and len(v.f) == 2:
            F.assume_range(value(v.f[0], F), 0, 0)
    Q = pmul(value_of(su, 0, F), value_of(su, 1, F))
    F.assume_range(Q, 0, (1 << w) - 1)
    su.bounds.append((Q, (1 << w) - 1))
    for m, k in Q.t.items():
        # no summand is negative, so each is bounded by the sum
        F.assume_range(Poly({m: 1}, 0), 0, ((1 << w) - 1) // k)


def value_of(su, i, F):
    v = su.vals[i]
    return U(v, F) if isinstance(v, BV) else value(v, F)


def div_case(F, su, case):
    if case is None:
        return
    v = su.vals[0]
    d = su.vals[1]
    kind = case[0]
    if kind == "sub":
        h = value(v.f[0], F)
        y = value(d, F)
        lim = (1 << (128 * len(leaves(d)) - 1)) - 1 if len(leaves(d)) > 1 else None
        if case[1] == 0:
            F.assume_range(h, 0, 0)
            F.assume_range(value(v.f[1], F), 0, lim)
        elif case[1] == 1:
            F.assume_range(h, 1, None)
            F.assume_range(padd(y, h, -1), 1, None)
        else:
            F.assume_range(padd(h, y, -1), 0, None)
            if case[1] == 2:
                F.assume_range(h, 1, lim)
            else:
                F.assume_range(h, lim + 1, None)
                F.assume_range(y, 1, (1 << (128 * len(leaves(d)) // 2)) - 1)
        return
    if kind == "hi0":
        F.assume_range(value(d.f[0], F), 0, 0)
        F.assume_range(value(d.f[1], F), 1, None)
        if len(leaves(v)) == 4:
            F.assume_range(value(v, F), 0, (1 << 255) - 1)
    elif kind == "hi":
        F.assume_range(value(d.f[0], F), 1, None)
        h = value(v.f[0], F)
        if kind == "hi" and case[1] is None:
            F.assume_range(padd(value(d.f[0], F), h, -1), 1, None)
        else:
            F.assume_range(h, 1 << (case[1] - 1), (1 << case[1]) - 1)


def division(c, name, op, su, o, got):
    F = o.F
    x, y = value_of(su, 0, F), value_of(su, 1, F)
    num_ = lambda v: U(v, F) if isinstance(v, BV) else value(v, F)
    if op == "div_rem" or op == "div_rem_subuint_special":
        q, r = num_(got.f[0]), num_(got.f[1])
        d = padd(padd(x, pmul(q, y), -1), r, -1)
        check(c, f"{name}: dividend = quotient * divisor + remainder", is_zero(d), o, [d])
        check(c, f"{name}: 0 <= remainder", in_range(r, 0, None), o, [r])
        e = padd(y, r, -1)
        check(c, f"{name}: remainder < divisor", in_range(e, 1, None), o, [e])
    elif op == "div":
        q = num_(got)
        r = padd(x, pmul(q, y), -1)
        check(c, f"{name}: 0 <= dividend - quotient * divisor", in_range(r, 0, None), o, [r])
        e = padd(y, r, -1)
        check(c, f"{name}: dividend - quotient * divisor < divisor", in_range(e, 1, None), o, [e])
    else:
        # the wrapper's quotient is internal: the contract's remainder itself
        s = su.state(F.copy())
        want = OPS["div_rem"](c.machine(), s, *su.args)
        if want is NOSUM:
            raise Imprecise("contract of rem does not apply")
        want = want.f[1]
        diffs = []
        same(got, want, s.F, diffs)
        for d in diffs:
            c.check(f"{name}: remainder", is_zero(d), Outcome("ret", o.val, s.F), 4, [d])


def amounts(op, w, tier):
    lo = 1 if op in ("carrying_shl", "carrying_shr") else 0
    hi = w - 1
    if op == "rem_pow2":
        hi = w + 1
    edge = [lo, 1, 63, 64, 127, 128, 129, 255, 256, 257, w // 2 - 1, w // 2, w // 2 + 1, w - 2, w - 1, hi]
    if w == 768:
        edge += [300, 511, 512, 513, 639, 640]
    return sel(range(lo, hi + 1), sorted({e for e in edge if lo <= e <= hi}), tier, 70 + w, 2)


def bigint_jobs(tier, only=None):
    """only: the names of the operations whose bodies are wanted"""
    P = program("release")
    J = []
    for key, fn in sorted(P.fns.items()):
        op = contract_of(fn["name"])
        if op is None or "blocks" not in fn or only is not None and fn["name"] not in only:
            continue
        full, op = op, op.split("::")[-1]
        ls = [l["t"] if isinstance(l, dict) else l for l in fn["locals"]]
        n = limbs_of(P, ls[1])
        w = 128 * n
        nm = f"{op}/{short(fn['name'])}"
        jb = lambda name, *a, **k: J.append(Job(name, body, key, full, *a, **k))
        if n == 0:
            continue
        if op in SHIFTS:
            for a in amounts(op, 768 if op == "from_u256_shifted" else w, tier):
                jb(f"{nm} by {a}", None, a)
        elif op in ("mul", "mul_assign") and n > 1:
            jb(f"{nm} small left", (0, 0))
            m = limbs_of(P, ls[2])
            if m == n:
                jb(f"{nm} small right", (1, 0))
        elif op == "div_rem_subuint_special":
            # the quotient estimate of normalised division: property P28
            continue
        elif op in DIVS:
            m = limbs_of(P, ls[2])
            if m == 0 and n > 1 and P.size(pointee(P, ls[2])) == 16:
                continue        # collects the quotient words in a Vec
            if m == n and n > 1:
                jb(f"{nm} divisor of half the width", ("hi0",))
                if op != "rem":
                    jb(f"{nm} smaller dividend", ("hi", None))
                top = w // 2 - 1
                for b in sel(range(1, top + 1), (1, 2, w // 4, top), tier, 75 + n, 1) if n == 2 else ():
                    jb(f"{nm} divisor of full width, dividend {w // 2 + b} bits", ("hi", b))
            elif op == "rem" and n == 2 * m:
                jb(nm, ("sub", 0))
            elif n == 2 * m:
                for i, k in enumerate(("high word zero", "high word below the divisor", "high word not below the divisor",
                                       "large high word, divisor of half the width")[:4 if m > 1 else 3]):
                    jb(f"{nm} {k}", ("sub", i))
            else:
                jb(nm, None)
        elif op in WRAP:
            jb(f"{nm} in range", 0)
            jb(f"{nm} wrapping", 1)
        elif op in CMPS:
            for i, k in enumerate(("less", "equal", "greater")):
                jb(f"{nm} {k}", i)
        elif op == "leading_zeros":
            for i in sel(range(w + 1), (0, 1, 64, 128, 129, w // 2, w // 2 + 1, w - 1, w), tier, 73 + n, 2):
                jb(f"{nm} width {i}", i)
        elif op == "trailing_zeros":
            for i in sel(range(w + 1), (0, 1, 64, 127, 128, w // 2 - 1, w // 2, w - 1, w), tier, 74 + n, 2):
                jb(f"{nm} low zeros {i}", i)
        else:
            jb(nm, None)
    return J
