"""The normalised two-word division step: two estimated quotient digits, each
corrected by a loop.

The body runs on words that are integers.  Every product and every difference
it forms is a number of its own, defined by the polynomial it is; a difference
taken modulo the word is that polynomial as soon as linear reasoning over the
monomials (all products of the interval bounds of their factors included)
shows it to lie within the word.  Quotient and remainder of the estimates are
unknowns tied to dividend and divisor by the division identity.
"""
from spec import *
from contracts import OPS, NOSUM, Big, big, num, build, contract_of, amount, clz
import contracts, ops, witness, spec
import random, time
from prove import *
from poly import maximise, Infeasible
import props_bigint as B
from props_arith import sel
from fractions import Fraction

DEF = {}          # atom -> (polynomial it is congruent to, width, exactly)
LIMIT_IT = 400


def reset():
    DEF.clear()


def expand(p, cuts=True):
    """p without the atoms that merely name another polynomial"""
    while True:
        for m, c in p.t.items():
            for b in m:
                a, k = BASIS[b]
                d = DEF.get(a.id)
                if d is None or not d[2] or k or d[3] and cuts:
                    continue
                rest = list(m)
                rest.remove(b)
                q = Poly({mm: cc for mm, cc in p.t.items() if mm != m}, p.c)
                u = pscale(d[0], c)
                if rest:
                    u = pmul(u, Poly({tuple(rest): 1}, 0))
                p = padd(q, u)
                break
            else:
                continue
            break
        else:
            return p


def congruent(p, w):
    """a polynomial congruent to p modulo 2**w"""
    M = (1 << w) - 1
    q = Poly({}, p.c)
    for m, c in p.t.items():
        if not c & M:
            continue
        if len(m) == 1:
            a, k = BASIS[m[0]]
            d = DEF.get(a.id)
            if d is not None and not d[2] and not k:
                q = padd(q, pscale(d[0], c))
                continue
        q = padd(q, Poly({m: c}, 0))
    q = expand(q)
    return Poly({m: c for m, c in q.t.items() if c & M}, q.c)


def zero(F, p):
    """record that p is zero"""
    k, g, s = normkey(p)
    v = -s * p.c // g
    F.prng[k] = (v, v)
    F.vers += 1


def rows_of(F, p):
    order, idx, rows = [], {}, []

    def var(m):
        if m not in idx:
            idx[m] = len(order)
            order.append(m)
        return idx[m]

    def row(q, lo, hi):
        rows.append(({var(m): c for m, c in q.t.items()}, lo - q.c, hi - q.c))
    for m in p.t:
        var(m)
    atoms = {BASIS[b][0].id for m in p.t for b in m}
    cand = []
    for fk, r in F.prng.items():
        if len(fk) > 1:
            q = expand(Poly(dict(fk), 0))
            if q.t:
                cand.append((q, r[0], r[1]))
    grown = True
    while grown:
        grown = False
        rest = []
        for q, l, h in cand:
            s = {BASIS[b][0].id for m in q.t for b in m}
            if s & atoms:
                row(q, l, h)
                grown = grown or bool(s - atoms)
                atoms |= s
            else:
                rest.append((q, l, h))
        cand = rest
    for m in list(order):
        if len(m) == 2:
            var((m[0],))
            var((m[1],))
    by = {}
    for m in list(order):
        if len(m) == 1:
            a, k = BASIS[m[0]]
            by.setdefault(a.id, set()).add(k)
    for aid, ks in by.items():
        ks = sorted(ks)
        for k1, k2 in zip(ks, ks[1:]):
            a = ATOMS[aid]
            l, h = F.range_piece(a, k1, k2 - k1)
            row(padd(Poly({(basis(a, k1),): 1}, 0), Poly({(basis(a, k2),): 1}, 0), -(1 << (k2 - k1))), l, h)
    bnd = []
    for m in order:
        bnd.append(F.prange(Poly({m: 1}, 0), 2))
    from poly import mccormick, low_products
    for m in order:
        if len(m) == 2:
            mccormick(F, m, idx, order, bnd, rows)
    low_products(F, idx, order, bnd, rows)
    return idx, order, rows, bnd


def bounds(F, p, lo=None, hi=None):
    """(low, high) of p; lo/hi: bounds that would be enough"""
    p = expand(p)
    if F.concrete or not p.t:
        return F.prange(p)
    l, h = F.prange(p)
    try:
        if (hi is None or h > hi) or (lo is None or l < lo):
            idx, order, rows, bnd = rows_of(F, p)
            obj = {idx[m]: c for m, c in p.t.items()}
            if hi is None or h > hi:
                z = maximise(obj, rows, bnd, LIMIT_IT, None if hi is None else hi - p.c)
                h = min(h, z.__floor__() + p.c)
            if lo is None or l < lo:
                z = maximise({j: -c for j, c in obj.items()}, rows, bnd, LIMIT_IT,
                             None if lo is None else p.c - lo)
                l = max(l, p.c - z.__floor__())
    except Infeasible:
        raise Contradiction()
    if l > h:
        raise Contradiction()
    return l, h


def within(F, p, lo, hi):
    l, h = bounds(F, p, lo, hi)
    return (lo is None or l >= lo) and (hi is None or h <= hi)


def cut(Q, w, F, exact, opaque=False):
    """a word holding Q modulo 2**w"""
    # exact words exist only where the polynomial was shown to fit
    a = op_atom(w, "cut", (Q.key(), Q.c), w, exact, opaque)
    DEF[a.id] = (Q, w, exact, opaque)
    return mk(w, ((a, 0, w, False),))


def word(Q, w, F, exact=True):
    """bits of the polynomial Q, known to lie in the word"""
    Q = expand(Q)
    if not Q.t:
        return const(w, Q.c)
    if len(Q.t) == 1 and not Q.c:
        (m, c), = Q.t.items()
        if c == 1 and len(m) == 1 and BASIS[m[0]][1] == 0 and BASIS[m[0]][0].w <= w:
            a = BASIS[m[0]][0]
            ps = ((a, 0, a.w, False),)
            return mk(w, ps if a.w == w else ps + ((None, 0, w - a.w, False),))
    b = cut(Q, w, F, True)
    l, h = bounds(F, Q)
    F.assume_range(Poly({(basis(ATOMS[b.p[0][0].id], 0),): 1}, 0), max(l, 0), min(h, (1 << w) - 1))
    return b


def whole(b, F):
    return expand(U(b, F))


def exact(f):
    def h(m, s, a, b):
        F = s.F
        x = big(m, s, a)
        y = num(m, s, b, F)
        if x is None or y is None:
            return NOSUM
        Q = expand(f(whole(x.bv(F), F), expand(y)))
        if not within(F, Q, 0, (1 << x.w) - 1):
            return NOSUM
        return build(word(Q, x.w, F), x.n)
    return h


def wrapping(f):
    def h(m, s, a, b):
        F = s.F
        x = big(m, s, a)
        y = num(m, s, b, F)
        if x is None or y is None:
            return NOSUM
        Q = congruent(f(U(x.bv(F), F), y), x.w)
        top = (1 << x.w) - 1
        if not within(F, Q, 0, top):
            return build(cut(Q, x.w, F, False), x.n)
        b = cut(Q, x.w, F, True, True)
        t = Poly({(basis(b.p[0][0], 0),): 1}, 0)
        zero(F, padd(t, Q, -1))
        for q in {v for m_ in Q.t if len(m_) == 2 for v in m_ if BASIS[v][0].kind == "div"}:
            tighten(F, Poly({(q,): 1}, 0), x.w // 2)
        for d in BELOW:
            if within(F, padd(d, Q, -1), 1, None):
                F.assume_range(padd(d, t, -1), 1, None)
        return build(b, x.n)
    return h


BELOW = []


def tighten(F, q, n):
    """lower the upper bound of an estimate while its top value is impossible"""
    while True:
        l, h = F.prange(q)
        if h < 1 << n or l == h:
            return
        G = F.copy()
        try:
            G.assume_range(q, h, None)
            if not dead(G):
                return
        except Contradiction:
            pass
        F.assume_range(q, None, h - 1)


def divrem(m, s, a, b):
    F = s.F
    x = big(m, s, a)
    y = num(m, s, b, F)
    if x is None or y is None:
        return NOSUM
    d = expand(y)
    v = whole(x.bv(F), F)
    lo, hi = F.prange(d)
    if lo <= 0 or hi >> (x.w // 2):
        return NOSUM
    qa = op_atom(x.w, "div", (v.key(), v.c), (d.key(), d.c))
    q = Poly({(basis(qa, 0),): 1}, 0)
    rb = cut(padd(v, pmul(q, d), -1), x.w, F, False)
    ra = rb.p[0][0]
    DEF.pop(ra.id)
    r = Poly({(basis(ra, 0),): 1}, 0)
    zero(F, padd(padd(v, pmul(q, d), -1), r, -1))
    F.assume_range(r, 0, hi - 1)
    F.assume_range(padd(d, r, -1), 1, None)
    vl, vh = F.prange(v)
    top = vh // lo
    n = x.w // 2
    for k in (1 << n, (1 << n) + 1, (1 << n) + 2, (1 << n) + 3):
        if k <= top and within(F, padd(v, pscale(d, k), -1), None, -1):
            top = k - 1
            break
    F.assume_range(q, 0, top)
    ny = Big(m, s, b).n
    return Agg(0, (build(mk(x.w, ((qa, 0, x.w, False),)), x.n), build(mk(x.w, ((ra, 0, x.w, False),)), ny)))


def less(f):
    """comparisons of values by their polynomials"""
    def h(m, s, a, b):
        F = s.F
        x, y = big(m, s, a), big(m, s, b)
        if x is None or y is None or x.n != y.n:
            return NOSUM
        return f(whole(x.bv(F), F), whole(y.bv(F), F), F)
    return h


def below(d, F):
    l, h = bounds(F, d, 0, None)
    if l >= 0:
        return const(1, 0)
    l, h = bounds(F, d, None, -1)
    if h < 0:
        return const(1, 1)
    return lt0(d, F)


def cmp_(u, v, F):
    d = padd(u, v, -1)
    if decide(below(d, F), F, "cmp"):
        return Agg(0, ())
    return Agg(1, ()) if decide(bnot(below(padd(v, u, -1), F)), F, "cmp") else Agg(2, ())


def partial(m, s, a, b):
    r = less(cmp_)(m, s, a, b)
    return r if r is NOSUM else Agg(1, (r,))


def step(k):
    def h(m, s, a):
        F = s.F
        x = big(m, s, a)
        if x is None or x.ptr is None:
            return NOSUM
        Q = padd(whole(x.bv(F), F), pconst(1), k)
        if not within(F, Q, 0, (1 << x.w) - 1):
            return NOSUM
        m.store_ptr(s, x.ptr, build(word(Q, x.w, F), x.n))
        return UNIT
    return h


def shift(left):
    def h(m, s, a, b):
        F = s.F
        x = big(m, s, a)
        if x is None or not isinstance(b, BV):
            return NOSUM
        n = amount(b, F, "shift amount")
        if n >= x.w:
            return NOSUM
        bb = x.bv(F)
        named = [q for q in bb.p if q[0] is not None and q[0].id in DEF]
        if not named and left is not None and not any(q[0] is not None and q[0].kind == "div" for q in bb.p):
            return build(shl(bb, n, F) if left else shr(bb, n, F), x.n)
        if left:
            Q = pscale(whole(bb, F), 1 << n)
            if not within(F, Q, 0, (1 << x.w) - 1):
                return NOSUM
            return build(word(Q, x.w, F), x.n)
        for Q in (whole(bb, F), expand(U(bb, F), False)):
            M = (1 << n) - 1
            if not Q.c & M and all(not c & M for c in Q.t.values()):
                Q = Poly({m_: c >> n for m_, c in Q.t.items()}, Q.c >> n)
                return build(word(Q, x.w, F), x.n)
        return build(shr(bb, n, F), x.n)
    return h


def assign(op):
    return contracts.assign(op)


ADD, SUB, MUL = exact(lambda x, y: padd(x, y)), exact(lambda x, y: padd(x, y, -1)), exact(pmul)
MINE = {
    "add": ADD, "sub": SUB, "mul": MUL, "add_assign": assign(ADD), "sub_assign": assign(SUB),
    "mul_assign": assign(MUL), "wrapping_sub": wrapping(lambda x, y: padd(x, y, -1)),
    "wrapping_add": wrapping(padd), "wrapping_mul": wrapping(pmul), "div_rem": divrem,
    "incr": step(1), "decr": step(-1), "shl": shift(True), "shr": shift(False),
    "shl_assign": assign(shift(True)), "shr_assign": assign(shift(False)),
    "lt": less(lambda u, v, F: below(padd(u, v, -1), F)),
    "gt": less(lambda u, v, F: below(padd(v, u, -1), F)),
    "le": less(lambda u, v, F: bnot(below(padd(v, u, -1), F))),
    "ge": less(lambda u, v, F: bnot(below(padd(u, v, -1), F))),
    "cmp": less(cmp_), "partial_cmp": partial,
}


def hook(used):
    def of(name):
        op = contract_of(name)
        if op == "div_rem_subuint_special":
            return None
        base = contracts.handler(name, used)
        if op not in MINE:
            return base

        def h(m, s, fr, args, t):
            r = MINE[op](m, s, *args)
            if r is NOSUM:
                return base(m, s, fr, args, t)
            used.add(name)
            return r
        return h
    return of


def proposals(n, sh, xa, ya):
    """dividends around multiples of a divisor, the usual hard cases of the
    digit estimates"""
    top = (1 << n) - 1

    def word(R):
        k = R.randrange(6)
        if k < 2:
            return R.choice((0, 1, 2, 3))
        if k < 4:
            return top - R.choice((0, 1, 2, 3))
        if k == 4:
            return (top >> 1) + R.choice((-1, 0, 1, 2))
        return R.randrange(top + 1)

    def propose(R):
        y = (word(R) << n | word(R)) | 1 << (2 * n - 1)
        y >>= sh
        q = word(R) << n | word(R)
        k = R.randrange(4)
        r = R.randrange(y) if k == 0 else min(y - 1, word(R)) if k == 1 else max(0, y - 1 - word(R)) if k == 2 else \
            R.randrange(1 << R.randrange(1, 2 * n)) % y
        x = (q * y + r) << sh
        env = {}
        for v, at, tot in ((x, xa, 4 * n), (y << sh, ya, 2 * n)):
            for a, lo in at:
                env[a.id] = v >> lo & ((1 << a.w) - 1)
        return env
    return propose


def digit(c, key, sh):
    reset()
    P = c.P
    fn = P.fns[key]
    l1 = fn["locals"][1]
    n = 128 * B.limbs_of(P, l1["t"] if isinstance(l1, dict) else l1) // 4     # bits of a digit
    B.contracts.SIZES.update((8,))
    F = Facts()

    def parts(names, low):
        """words from the least significant; `low` trailing zero bits"""
        ps = []
        tot = 0
        vals = []
        for nm, w in names:
            z = min(w, max(0, low - tot))
            if z:
                ps.append((None, 0, z, False))
            if w > z:
                a = new_atom(w - z, nm)
                ps.append((a, 0, w - z, False))
                vals.append((a, tot + z))
            tot += w
        return mk(tot, tuple(ps)), vals
    X, xa = parts((("x0", n), ("x1", n), ("x32", 2 * n)), sh)
    Y, ya = parts((("y0", n), ("y1", n)), sh)
    a = ya[-1][0]
    F.set_bits(a, a.w - 1, 1, 1)
    x = mk(4 * n, tuple(slice_pieces(X.p, sh, 4 * n - sh)) + (((None, 0, sh, False),) if sh else ()))
    y = mk(2 * n, tuple(slice_pieces(Y.p, sh, 2 * n - sh)) + (((None, 0, sh, False),) if sh else ()))
    px, py = U(X, F), U(Y, F)
    x32 = U(mk(2 * n, slice_pieces(X.p, 2 * n, 2 * n)), F)
    F.assume_range(padd(py, x32, -1), 1, None)
    BELOW[:] = [py]
    witness.PROPOSE[:] = [proposals(n, sh, xa, ya)]
    vx, vy = build(x, 4 * n // 128), build(y, 2 * n // 128)
    M = c.machine(hook=hook(c.used))
    M.recombine = False
    root = [vx, vy]
    st = State([Frame(0, None, list(root), None, None)], F)
    M.push(st, key, fn, [Ptr("l", 0, 0), Ptr("l", 0, 1)], None, None)
    name = B.short(fn["name"])
    failed = []
    try:
        for o in M.explore(st):
            c.paths += 1
            G = o.F
            if o.kind == "panic":
                c.obl += 1
                if dead(G):
                    c.ok += 1
                else:
                    failed.append(("panic", o.msg, None, o, ()))
                continue
            if c.panics:
                c.obl += 1
                c.ok += 1
                continue
            q, r = o.val.f
            q, r = expand(B.value(q, G)), expand(B.value(r, G))
            vx_, vy_ = U(x, G), U(y, G)
            d = expand(padd(padd(vx_, pmul(q, vy_), -1), r, -1), False)
            goal(c, failed, f"{name}: dividend = quotient * divisor + remainder", o, d, 0, 0)
            goal(c, failed, f"{name}: 0 <= remainder", o, r, 0, None)
            goal(c, failed, f"{name}: remainder < divisor", o, padd(vy_, r, -1), 1, None)
    finally:
        c.steps += M.stat_steps
        for k in M.fns_seen:
            c.fns.add(P.fns[k]["name"])
        report(c, failed)


def report(c, failed, seconds=10):
    """search for a member of any of the open outcomes that violates its goal"""
    found = {}
    if failed and c.trying is None and not (spec.CONFIRMED is not None and spec.CONFIRMED.value >= 3):
        R = random.Random(1)
        end = time.time() + seconds
        while time.time() < end and not found:
            C = witness.Concrete(witness.PROPOSE[0](R))
            for i, (what, msg, g, o, polys) in enumerate(failed):
                try:
                    if C.meets(o.F) is None and (g is None or witness.violates(g, C)):
                        found[i] = {ATOMS[a].name: hex(v) for a, v in C.env.items() if ATOMS[a].kind == "in"}
                        break
                except (Contradiction, NeedSplit):
                    pass
        if found and spec.CONFIRMED is not None:
            with spec.CONFIRMED.get_lock():
                spec.CONFIRMED.value += 1
    for i, (what, msg, g, o, polys) in enumerate(failed):
        c.searched = 99
        c.fail(what, str(msg or ""), o, None, polys, i in found)
        if i in found:
            c.viol[-1]["witness"] = found[i]


def dead(F):
    """the recorded forms have no common solution"""
    p = pconst(0)
    for fk in F.prng:
        if len(fk) > 1:
            for m, _ in fk:
                p = padd(p, Poly({m: 1}, 0))
    p = expand(p)
    if not p.t:
        return False
    try:
        idx, order, rows, bnd = rows_of(F, p)
        maximise({}, rows, bnd, LIMIT_IT)
    except (Infeasible, Contradiction):
        return True
    return False


def goal(c, failed, what, o, p, lo, hi):
    c.obl += 1
    try:
        if within(o.F, p, lo, hi) or dead(o.F):
            c.ok += 1
            return
    except Contradiction:
        c.ok += 1
        return
    failed.append((what, None, in_range(p, lo, hi), o, [p]))


def digit_jobs(tier, word=None, bits=None):
    """word: only for words of that many bits; bits: only divisors that long"""
    P = program("release")
    J = []
    for key, fn in sorted(P.fns.items()):
        if contract_of(fn["name"]) != "div_rem_subuint_special" or "blocks" not in fn:
            continue
        l1 = fn["locals"][1]
        w = 128 * B.limbs_of(P, l1["t"] if isinstance(l1, dict) else l1) // 2
        if word is not None and w != word:
            continue
        half = w // 2
        if bits is not None:
            shs = [w - b for b in bits]
        else:
            shs = sel(range(w), (0, half - 1, half, w - 1), tier, 31 + w, 1)
        for sh in shs:
            J.append(Job(f"{B.short(fn['name'])} divisor of {w - sh} bits", digit, key, sh))
    return J
