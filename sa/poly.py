"""Polyhedral refinement of the numeric domain: the linear facts of an
abstract state about the terms of a form, and the exact bounds they imply.

The terms of the normal form are the dimensions.  Constraints are the interval
of every term, the relations between the floors of one number, the definition
of floors of sums, the forms recorded on the path, and the linear hull of the
bit operations.  Bounds come from the bounded dual simplex method in exact
arithmetic; every basis it visits is dual feasible, so stopping early still
yields a sound bound.
"""
from fractions import Fraction
from dom import *
import dom


class Infeasible(Exception):
    pass


def maximise(obj, rows, bnd, limit=200, enough=None):
    """upper bound of sum obj[j]*x[j]; rows: [(coefs, lo, hi)], bnd[j]=(l,u)"""
    nb = list(bnd)                       # variables
    n = len(nb)
    lo = [b[0] for b in bnd] + [r[1] for r in rows]
    hi = [b[1] for b in bnd] + [r[2] for r in rows]
    # T[r]: row of the basic variable basis[r] over nonbasic variables
    basis = []
    T = []
    for i, r in enumerate(rows):
        basis.append(n + i)
        T.append({j: Fraction(c) for j, c in r[0].items() if c})
    d = {j: Fraction(c) for j, c in obj.items() if c}
    at = {}
    for j in range(n):
        at[j] = hi[j] if d.get(j, 0) > 0 else lo[j]
    nonb = set(range(n))
    z0 = sum(c * at[j] for j, c in d.items())
    val = [sum(c * at[j] for j, c in row.items()) for row in T]
    it = 0
    while True:
        z = sum(c * at[j] for j, c in d.items())
        if enough is not None and z <= enough:
            return z
        # leaving row: largest relative violation
        best = None
        for r, b in enumerate(basis):
            v = val[r]
            if v < lo[b]:
                viol = lo[b] - v
            elif v > hi[b]:
                viol = v - hi[b]
            else:
                continue
            w = viol / (1 + hi[b] - lo[b])
            if best is None or w > best[0]:
                best = (w, r)
        if best is None:
            return z
        it += 1
        if it > limit:
            return z
        r = best[1]
        b = basis[r]
        row = T[r]
        up = val[r] < lo[b]              # basic value must increase
        target = lo[b] if up else hi[b]
        cand = []
        for j, c in row.items():
            dj = d.get(j, 0)
            # at upper bound (dj>=0): may decrease; at lower (dj<=0): increase
            if lo[j] == hi[j]:
                continue
            athi = at[j] == hi[j]
            inc = not athi
            eff = c > 0
            if inc == (eff == up):
                cand.append((abs(dj) / abs(c), j))
        if not cand:
            raise Infeasible()
        cand.sort()
        t, j = cand[0]
        c = row[j]
        # pivot: x_b = sum row; solve for x_j
        delta = (target - val[r]) / c
        xj = at[j] + delta
        inv = 1 / c
        newrow = {k: -v * inv for k, v in row.items() if k != j}
        newrow[b] = inv
        T[r] = newrow
        basis[r] = j
        for i, other in enumerate(T):
            if i == r:
                continue
            f = other.pop(j, None)
            if f:
                for k, v in newrow.items():
                    s = other.get(k, 0) + f * v
                    if s:
                        other[k] = s
                    else:
                        other.pop(k, None)
                val[i] += f * delta
        f = d.pop(j, None)
        if f:
            for k, v in newrow.items():
                s = d.get(k, 0) + f * v
                if s:
                    d[k] = s
                else:
                    d.pop(k, None)
        del at[j]
        at[b] = target
        val[r] = xj
    return z


LIMIT = [40]


def system(F, p, extra=(), limit=None):
    """variables, rows and bounds of the facts about the terms of p"""
    limit = limit or LIMIT[0]
    idx = {}
    order = []
    rows = []
    seen_atom = {}

    def var(m):
        i = idx.get(m)
        if i is None:
            i = idx[m] = len(order)
            order.append(m)
        return i

    def row(q, lo, hi):
        """lo <= q <= hi"""
        if not q.t or lo is None and hi is None:
            return
        rows.append(({var(m): c for m, c in q.t.items()},
                     lo - q.c, hi - q.c))
    todo = list(p.t)
    for m in p.t:
        var(m)
    for q, l, h in extra:
        row(q, l, h)
        todo += list(q.t)
    done = set()
    forms = [(fk, r) for fk, r in F.prng.items() if len(fk) > 1]
    used_forms = set()
    used_lin = set()
    while todo:
        m = todo.pop(0)
        if m in done:
            continue
        done.add(m)
        if len(order) > limit:
            break
        if len(m) == 1:
            a, k = BASIS[m[0]]
            if a.kind == "lin":
                if (a.id, k) not in used_lin:
                    used_lin.add((a.id, k))
                    l, h = F.range_piece(a, 0, k)
                    q = padd(a.poly, Poly({m: 1}, 0), -(1 << k))
                    row(q, l, h)
                    todo.extend(x for x in q.t if x not in done)
            elif a.kind in ("or", "and", "xor"):
                hull(F, a, k, row, todo)
            for k2, key in list(KS.get(a.id, ())):
                m2 = key[0][0]
                if m2 in idx and m2 != m:
                    k1, kk, ma, mb = (k, k2, m, m2) if k < k2 else (k2, k, m2, m)
                    l, h = F.range_piece(a, k1, kk - k1)
                    row(Poly({ma: 1, mb: -(1 << (kk - k1))}, 0), l, h)
        # products: recorded nothing
        for fk, r in forms:
            if fk in used_forms:
                continue
            if any(mm == m for mm, _ in fk):
                new = sum(1 for mm, _ in fk if mm not in idx)
                if new <= 2:
                    used_forms.add(fk)
                    q = Poly(dict(fk), 0)
                    row(q, r[0], r[1])
                    todo.extend(x for x, _ in fk if x not in done)
        fl = FLOORS.get(m)
        if fl:
            for a, k, q in fl:
                if ("c", a.id, k) in used_lin:
                    continue
                if sum(1 for x in q.t if x not in idx) <= 1:
                    used_lin.add(("c", a.id, k))
                    l, h = F.range_F(a, k)
                    row(q, l, h)
                    todo.extend(x for x in q.t if x not in done)
    for m in list(order):
        if len(m) == 2 and ((m[0],) in idx) != ((m[1],) in idx):
            var((m[0],))
            var((m[1],))
    bnd = []
    for m in order:
        l, h = F.prange(Poly({m: 1}, 0), 2)
        bnd.append((l, h))
    for i, m in enumerate(order):
        if len(m) == 2:
            mccormick(F, m, idx, order, bnd, rows)
    low_products(F, idx, order, bnd, rows)
    if RLT[0]:
        form_products(F, idx, order, bnd, rows, forms)
    return idx, order, rows, bnd


def mccormick(F, m, idx, order, bnd, rows):
    x, y = idx.get((m[0],)), idx.get((m[1],))
    if x is None or y is None:
        return
    z = idx[m]
    (a, b), (c, d) = bnd[x], bnd[y]
    big = b * d + abs(a * c) + 1
    # (x-a)(y-c) >= 0, (b-x)(d-y) >= 0, (x-a)(d-y) >= 0, (b-x)(y-c) >= 0
    if x == y:
        rows.append(({z: 1, x: -2 * a}, -a * a, big * 4))
        rows.append(({z: 1, x: -2 * b}, -b * b, big * 4))
        rows.append(({z: -1, x: a + b}, a * b, big * 4))
        return
    rows.append(({z: 1, x: -c, y: -a}, -a * c, big * 4))
    rows.append(({z: 1, x: -d, y: -b}, -b * d, big * 4))
    rows.append(({z: -1, x: d, y: a}, a * d, big * 4))
    rows.append(({z: -1, x: c, y: b}, b * c, big * 4))


RLT = [False]


def form_products(F, idx, order, bnd, rows, forms):
    """products of the bounds of a recorded form and of a term"""
    import ops
    vs = {}
    for m in order:
        if len(m) == 2:
            vs.setdefault(m[0], set()).add(m[1])
            vs.setdefault(m[1], set()).add(m[0])
    for fk, r in forms:
        if len(fk) > 4 or any(len(m) != 1 for m, _ in fk) or sum(m[0] in vs for m, _ in fk) < 2:
            continue
        if r[0] < -(1 << 3000) or r[1] > 1 << 3000:
            continue
        q = ops.psimp(Poly(dict(fk), 0), F)
        if not q.t or any(len(m) != 1 for m in q.t):
            continue
        common = None
        for m in q.t:
            s = vs.get(m[0], set())
            common = set(s) if common is None else common & s
        l, h = r[0], r[1]
        for v in common or ():
            if (v,) not in idx:
                continue
            c, d = bnd[idx[(v,)]]
            # (q - l)(v - c) >= 0, (h - q)(d - v) >= 0, (q - l)(d - v) >= 0, (h - q)(v - c) >= 0
            prod = pmul(q, Poly({(v,): 1}, 0))
            if any(m not in idx for m in prod.t):
                continue
            V = Poly({(v,): 1}, 0)
            top = 4 * (h - l + 1) * (d - c + 1)
            for e, f in (((q, -l, 1), (V, -c, 1)), ((q, h, -1), (V, d, -1)), ((q, -l, 1), (V, d, -1)),
                         ((q, h, -1), (V, -c, 1))):
                A = padd(pconst(e[1]), e[0], e[2])
                B = padd(pconst(f[1]), f[0], f[2])
                R = pmul(A, B)
                if all(m in idx for m in R.t):
                    rows.append(({idx[m]: k for m, k in R.t.items()}, -R.c, top - R.c))


def low_products(F, idx, order, bnd, rows):
    """y * (low part of x) for the floors of one x that occur multiplied by y"""
    by = {}
    for i, m in enumerate(order):
        if len(m) == 2:
            for u, v in ((m[0], m[1]), (m[1], m[0])):
                a, k = BASIS[u]
                by.setdefault((v, a.id), []).append((k, i))
    for (v, aid), l in by.items():
        if len(l) < 2:
            continue
        l = sorted(set(l))
        cl, ch = F.prange(Poly({(v,): 1}, 0), 2)
        for (k1, i), (k2, j) in zip(l, l[1:]):
            if k1 == k2:
                continue
            pl, ph = F.range_piece(ATOMS[aid], k1, k2 - k1)
            xs = (cl * pl, cl * ph, ch * pl, ch * ph)
            rows.append(({i: 1, j: -(1 << (k2 - k1))}, min(xs), max(xs)))


def hull(F, a, k, row, todo):
    if k or a.kind == "xor" and a.w > 1:
        return
    t = [Poly({(basis(a, 0),): 1}, 0)]
    for q, off, n, neg in a.args:
        if q is None:
            return
        u = piece_poly(q, off, n)
        if neg:
            u = padd(pconst((1 << n) - 1), u, -1)
        t.append(u)
        todo.extend(u.t)
    z, x, y = t
    M = (1 << a.w) - 1
    if a.kind == "or":
        row(padd(z, x, -1), 0, M)
        row(padd(z, y, -1), 0, M)
        row(padd(padd(x, y), z, -1), 0, M)
    elif a.kind == "and":
        row(padd(x, z, -1), 0, M)
        row(padd(y, z, -1), 0, M)
        row(padd(padd(x, y), z, -1), 0, M)
    else:
        row(padd(padd(x, y), z, -1), 0, 2)
        row(padd(padd(x, z), y, -1), 0, 2)
        row(padd(padd(y, z), x, -1), 0, 2)
        row(padd(padd(x, y), z), 0, 2)


def lp_range(F, p, lo=None, hi=None, extra=()):
    """bounds of p; lo/hi: bounds that would be enough"""
    if F.concrete:
        return F.prange(p)
    l, h = F.prange(p)
    if l == h:
        return l, h
    k, g, s = normkey(p)
    # p = s*g*q + c with integral q
    q = Poly(dict(k), 0)

    def toq(v):
        return Fraction(v - p.c, g)
    want = [None if v is None else toq(v) for v in (lo, hi)]
    l, h = toq(l), toq(h)
    if s < 0:
        want = [None if v is None else -v for v in want[::-1]]
        l, h = -h, -l
    try:
        idx, order, rows, bnd = system(F, q, extra)
        obj = {idx[m]: c for m, c in q.t.items()}
        if want[1] is None or h > want[1]:
            h = min(h, maximise(obj, rows, bnd, enough=want[1]))
        if want[0] is None or l < want[0]:
            neg = {j: -c for j, c in obj.items()}
            l = max(l, -maximise(neg, rows, bnd, enough=None if want[0] is None else -want[0]))
    except Infeasible:
        raise Contradiction()
    l, h = -((-l).__floor__()), Fraction(h).__floor__()
    if s < 0:
        l, h = -h, -l
    return g * l + p.c, g * h + p.c if l <= h else fail()


def fail():
    raise Contradiction()
