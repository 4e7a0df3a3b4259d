"""Obligations on abstract states: interval evaluation plus bounded case
splitting on flags the path left open."""
from interp import *
from poly import lp_range


def open_flags(F, limit=6):
    """1-bit operation atoms with a known value whose arguments are open"""
    out = []
    for aid, (m, v) in F.known.items():
        a = ATOMS[aid]
        if a.w != 1 or a.kind not in ("or", "and", "xor") or not m & 1:
            continue
        for q in a.args:
            if q[0] is None:
                continue
            l, h = F.bit_range(q)
            if l != h:
                out.append(q)
    for fk in list(F.ne):
        lin, nl = pieces_form(Poly(dict(fk), 0))
        if nl or len(lin) > 4:
            continue
        for c, a, k, n in lin:
            if n == 1 or (n is None and a.w == k + 1):
                l, h = F.range_piece(a, k, 1)
                if l != h:
                    out.append((a, k, 1, False))
    # a flag added to a small number in a comparison
    for fk in list(F.prng):
        if len(fk) < 2 or len(fk) > 6:
            continue
        lin, nl = pieces_form(Poly(dict(fk), 0))
        if nl or len(lin) > 6:
            continue
        rs = [F.range_piece(a, k, n) for c, a, k, n in lin]
        if any(h - l > 15 for l, h in rs):
            continue
        for (c, a, k, n), (l, h) in zip(lin, rs):
            if n == 1 and l != h and (a, k, 1, False) not in out:
                out.append((a, k, 1, False))
    return out[:limit]


def free_flags(F, polys):
    """undetermined 1-bit operation atoms occurring in the polynomials"""
    out = []
    seen = set()

    def go(p, depth):
        for m in p.t:
            for b in m:
                a, k = BASIS[b]
                if a.id in seen:
                    continue
                seen.add(a.id)
                if a.w == 1 and a.kind in ("or", "and", "xor", "eq0"):
                    l, h = F.range_piece(a, 0, 1)
                    if l != h:
                        out.append((a, 0, 1, False))
                elif a.kind == "lin" and depth:
                    go(a.poly, depth - 1)
    for p in polys:
        go(p, 2)
    return out


def small_flags(F, polys, limit=4):
    """open flags of small numbers the polynomials depend on (a branch-free
    comparison, for instance)"""
    out = []
    seen = set()

    def small(p):
        lin, nl = pieces_form(p)
        if nl or len(lin) > 6:
            return
        rs = [F.range_piece(a, k, n) for c, a, k, n in lin]
        if any(h - l > 15 for l, h in rs):
            return
        for (c, a, k, n), (l, h) in zip(lin, rs):
            if (l, h) == (0, 1) and n == 1 and (a, k, 1, False) not in out:
                out.append((a, k, 1, False))
        for (c, a, k, n), (l, h) in zip(lin, rs):
            if a.kind == "lin" and l != h and a.id not in seen:
                seen.add(a.id)
                x, y = F.range_F(a, 0)
                if y - x <= 15:
                    small(a.poly)
    for p in polys:
        for m in p.t:
            for b in m:
                a, k = BASIS[b]
                if a.kind == "lin" and a.id not in seen:
                    l, h = F.range_F(a, k)
                    if h - l == 1:
                        seen.add(a.id)
                        small(a.poly)
    return out[:limit]


def sharpen(F, polys):
    """re-evaluate the sums the polynomials are built from, innermost first,
    and record their bounds; True when some bound got tighter"""
    seen = {}

    def go(p):
        for m in p.t:
            for b in m:
                a = BASIS[b][0]
                if a.kind == "lin" and a.id not in seen:
                    seen[a.id] = a
                    go(a.poly)
    for p in polys:
        go(p)
    better = False
    for i in sorted(seen):
        a = seen[i]
        l, h = F.range_F(a, 0)
        F.vers += 1
        l2, h2 = F.prange(a.poly)
        if l2 > l or h2 < h:
            better = True
            F.assume_range(a.poly, l2, h2)
            F.assume_range(Poly({(basis(a, 0),): 1}, 0), l2, h2)
    return better


def prove(goal, F, depth=5, polys=()):
    """goal(F) -> True / False; raise Contradiction for empty states.
    Returns None when proved, else the state in which it stayed open."""
    try:
        if goal(F):
            return None
    except Contradiction:
        return None
    if F.concrete:
        return F
    r = prove_open(goal, F, depth, polys)
    if r is not None:
        # for the search of a member that violates the goal
        r.goal, r.root = goal, F
    return r


def prove_open(goal, F, depth, polys):
    try:
        if F.eqs is None and F.learn_equalities() and goal(F):
            return None
    except Contradiction:
        return None
    F.lp = lp_range
    try:
        if goal(F):
            return None
    except Contradiction:
        return None
    finally:
        F.lp = None
    try:
        if sharpen(F, polys) and goal(F):
            return None
    except Contradiction:
        return None
    if depth == 0:
        return F
    try:
        fl = free_flags(F, polys) + open_flags(F) or free_flags(F, [Poly(dict(k), 0) for k in F.prng]) \
            or small_flags(F, polys)
    except Contradiction:
        return None
    if not fl:
        return F
    q = fl[0]
    for v in (1, 0):
        G = F.copy()
        try:
            G.assume_bit(q, v)
            consistent(G)
        except Contradiction:
            continue
        r = prove(goal, G, depth - 1, polys)
        if r is not None:
            return r
    return None


def consistent(F):
    """re-evaluate decided one-bit operations (raises Contradiction)"""
    for aid, (m, v) in list(F.known.items()):
        a = ATOMS[aid]
        if a.w == 1 and m & 1:
            if a.args is not None:
                F.range_piece(a, 0, 1)
            F._op_known(a) if a.kind in ("or", "and", "xor") else None


def in_range(p, lo, hi):
    def g(F):
        l, h = F.prange(p)
        return (lo is None or l >= lo) and (hi is None or h <= hi)
    g.spec = (p, lo, hi)
    return g


def is_zero(p):
    return in_range(p, 0, 0)


def prove_rounded(R2, E, k, F, depth=6, lo=1 << 236, hi=1 << 237, polys=(), rest=None):
    """lo <= R2 <= hi, |E| <= 2**(k-1), and a tie leaves R2 even.
    (k == 0: E must be 0.)  None when proved, else (what, state).
    rest: the exact value exceeds the one E refers to by a fraction in
    [0, 1) of its unit, zero exactly when the polynomial rest is zero"""
    r = _prove_rounded(R2, E, k, F, depth, lo, hi, polys, rest)
    if r is not None:
        b = 1 << (k - 1) if k else 0

        def whole(C):
            """the same as one question about given operands"""
            e, q = C.poly(E), C.poly(R2)
            t = C.poly(rest) if rest is not None else 0
            return lo <= q <= hi and -b <= e <= b and not (e == -b and t > 0) and \
                not (k and abs(e) == b and not t and q & 1) and not (k == 0 and t)
        r[1].whole = whole, [broken_tie(R2, E, v) for v in (-b, b)] if k else []
    return r


def broken_tie(R2, E, v):
    def f(F):
        F.assume_range(E, v, v)
        low = split_at(R2, 1)[1]
        F.assume_range(U(from_poly(low, 1, F), F), 1, 1)
    return f


def _prove_rounded(R2, E, k, F, depth, lo, hi, polys, rest):
    if rest is not None and k == 0:
        r = prove(in_range(rest, 0, 0), F, depth, [rest])
        if r is not None:
            return "exact result", r
    if k == 0:
        b = 0
    else:
        b = 1 << (k - 1)
    pl = [R2, E] + list(polys)
    r = prove(in_range(R2, lo, hi), F, depth, pl)
    if r is not None:
        return "result in the binade of the exact value", r
    r = prove(in_range(E, -b, b), F, depth, pl)
    if r is not None:
        return "error at most half a unit in the last place", r
    if k:
        low = split_at(R2, 1)[1]
        low = U(from_poly(low, 1, F), F)

        def tie(F):
            l, h = F.prange(E)
            for e in (-b, b):
                if not l <= e <= h:
                    continue
                H = F.copy()
                try:
                    if rest is None and lp_range(H, low, 0, 0, [(E, e, e)]) == (0, 0):
                        continue
                    H.assume_range(E, e, e)
                    H._propagate_parts(E, e, e)
                    H.recheck()
                    if rest is not None:
                        if e < 0 and prove(in_range(rest, 0, 0), H, 2, [rest]) is not None:
                            return False
                        H.assume_range(rest, 0, 0)
                        H.recheck()
                    if H.prange(low) != (0, 0) and lp_range(H, low, 0, 0) != (0, 0):
                        return False
                except Contradiction:
                    pass
            return True

        def broken(e, above=0):
            def f(F):
                F.assume_range(E, e, e)
                if above:
                    F.assume_range(rest, 1, None)
                else:
                    F.assume_range(low, 1, 1)
                    if rest is not None:
                        F.assume_range(rest, 0, 0)
            return f
        tie.alts = [broken(-b), broken(b)] + ([broken(-b, 1)] if rest is not None else [])
        r = prove(tie, F, depth, pl + [low])
        if r is not None:
            return "a tie rounds to the even neighbour", r
    return None
