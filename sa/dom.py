"""Numeric abstract domain.

Integers are tracked in two linked views.

* bit view  - a concatenation of *pieces*: constants and slices of atoms
  (bit provenance);
* value view - an integer polynomial over the canonical basis F_k(atom) =
  floor(atom / 2**k); a slice atom[lo:lo+n] is F_lo - 2**n * F_{lo+n}, so that
  slices of one number that are put together again cancel.

Path facts are intervals on slices and on polynomials plus known bits.
Nothing is solved: every answer is an interval evaluation of a normal form.
"""


from math import gcd


import math


class Contradiction(Exception):
    pass


class NeedSplit(Exception):
    """Transfer function asks for a case split: alternatives = list of
    functions state -> None (each adds an assumption)."""

    def __init__(self, alts, why=""):
        self.alts = alts
        self.why = why


class Imprecise(Exception):
    pass


class Atom:
    __slots__ = ("id", "w", "kind", "name", "args", "poly", "rng", "K", "_cf")

    def __init__(self, id, w, kind, name, args=None, poly=None, rng=None):
        self.id = id
        self.w = w
        self.kind = kind
        self.name = name
        self.args = args
        self.poly = poly
        self.rng = rng if rng is not None else (0, (1 << w) - 1)
        self._cf = {}

    def __repr__(self):
        return f"{self.name}"


class Poly:
    __slots__ = ("t", "c", "_k", "_pf", "_br", "_nk", "_pc")

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self._k = None
        self._pf = None
        self._br = None
        self._nk = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def __repr__(self):
        return pstr(self)


ATOMS = []
BASIS = []          # (atom, k)
BASIS_IX = {}
LIN_IX = {}
OP_IX = {}
KS = {}             # atom id -> [(k, key of F_k)]
LIN_NK = {}         # primitive form -> lin atoms with that form
FLOORS = {}
ALIAS = {}         # monomial -> floors of sums whose canonical form has it


COARSE = {}
VISITS = 3            # re-evaluations of one number per assumption


def reset():
    COARSE.clear()
    SCALE_SIG.clear()
    ATOMS.clear()
    BASIS.clear()
    BASIS_IX.clear()
    LIN_IX.clear()
    OP_IX.clear()
    KS.clear()
    FLOORS.clear()
    ALIAS.clear()
    LIN_NK.clear()


def new_atom(w, name, kind="in", args=None, poly=None, rng=None):
    a = Atom(len(ATOMS), w, kind, name, args, poly, rng)
    ATOMS.append(a)
    return a


def basis(atom, k):
    key = (atom.id, k)
    i = BASIS_IX.get(key)
    if i is None:
        i = len(BASIS)
        KS.setdefault(atom.id, []).append((k, (((i,), 1),)))
        BASIS.append((atom, k))
        BASIS_IX[key] = i
    return i


def pstr(p, lim=12):
    out = []
    for m, c in list(p.t.items())[:lim]:
        s = "*".join(
            f"{BASIS[b][0].name}" + (f">>{BASIS[b][1]}" if BASIS[b][1] else "")
            for b in m
        )
        out.append(f"{cstr(c)}*{s}" if c != 1 else s)
    if len(p.t) > lim:
        out.append("...")
    if p.c or not out:
        out.append(cstr(p.c))
    return " + ".join(out)


def cstr(c):
    if abs(c) < 1 << 20:
        return str(c)
    s = "-" if c < 0 else ""
    a = abs(c)
    if a & (a - 1) == 0:
        return f"{s}2^{a.bit_length()-1}"
    return s + hex(a)


ZERO = Poly({}, 0)


def pconst(c):
    return Poly({}, c)


def padd(a, b, k=1):
    if not b.t:
        return Poly(a.t, a.c + k * b.c)
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + k * c
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return Poly(t, a.c + k * b.c)


def pscale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()}, a.c * k)


def pmul(a, b):
    if not a.t:
        return pscale(b, a.c)
    if not b.t:
        return pscale(a, b.c)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2))
            n = t.get(m, 0) + c1 * c2
            if n:
                t[m] = n
            else:
                t.pop(m, None)
    for m, c in a.t.items():
        if b.c:
            n = t.get(m, 0) + c * b.c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
    for m, c in b.t.items():
        if a.c:
            n = t.get(m, 0) + c * a.c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
    return Poly(t, a.c * b.c)


def _prefix(l, a):
    """[(k, c)] sorted -> [(W, k, n)] with sum c*F_k = sum W*piece(k, n)"""
    out = []
    W = 0
    for i, (k, c) in enumerate(l):
        if i:
            W = W * (1 << (k - l[i - 1][0])) + c
        else:
            W = c
        if W:
            if i + 1 < len(l):
                n = l[i + 1][0] - k
            else:
                n = (a.w - k) if a.w is not None else None
            out.append((W, k, n))
    return out


def _fold(p):
    """p = lam * (a - 2^k floor(a/2^k)) + q with fewer terms"""
    if len(p.t) < 2:
        return None
    best = None
    n = len(p.t)
    for m, c in p.t.items():
        if len(m) != 1:
            continue
        a, k = BASIS[m[0]]
        if a.kind != "lin" or k == 0 or c & ((1 << k) - 1) or len(a.poly.t) >= 2 * n:
            continue
        lam = -(c >> k)
        t = dict(p.t)
        del t[m]
        for m2, c2 in a.poly.t.items():
            nn = t.get(m2, 0) - lam * c2
            if nn:
                t[m2] = nn
            else:
                t.pop(m2, None)
        if len(t) < n and (best is None or len(t) < len(best[3].t)):
            best = (lam, a, k, Poly(t, p.c - lam * a.poly.c))
    return best


def pieces_form(p):
    """-> (linear, nonlinear): linear = [(coef, atom, lo, n|None)],
    nonlinear = [(coef, ((atom, lo, n|None), ...))]"""
    if p._pf is not None:
        return p._pf
    fold = _fold(p)
    if fold is not None:
        lam, a, k, q = fold
        lin, nl = pieces_form(q)
        p._pf = ([(lam, a, 0, k)] + lin, nl)
        p._pc = q._pc
        return p._pf
    p._pc = p.c
    by = {}
    bi = {}
    nl = []
    for m, c in p.t.items():
        if len(m) == 1:
            a, k = BASIS[m[0]]
            by.setdefault(a.id, []).append((k, c))
        elif len(m) == 2:
            a, k = BASIS[m[0]]
            b, l = BASIS[m[1]]
            if a.id > b.id:
                a, k, b, l = b, l, a, k
            bi.setdefault((a.id, b.id), {})[(k, l)] = \
                bi.get((a.id, b.id), {}).get((k, l), 0) + c
        else:
            nl.append((c, tuple((BASIS[b][0], BASIS[b][1], None) for b in m)))
    lin = []
    for aid, l in by.items():
        a = ATOMS[aid]
        l.sort()
        for W, k, n in _prefix(l, a):
            lin.append((W, a, k, n))
    for (ia, ib), d in bi.items():
        a, b = ATOMS[ia], ATOMS[ib]
        sym = ia == ib
        if sym:
            d2 = {}
            for (k, l), c in d.items():
                d2[(k, l)] = d2.get((k, l), 0) + c
                d2[(l, k)] = d2.get((l, k), 0) + c
            d = d2
        cols = {}
        for (k, l), c in d.items():
            cols.setdefault(l, []).append((k, c))
        K1 = sorted({k for k, _ in d})
        rows = {}
        for l, cc in cols.items():
            m = dict(cc)
            W = 0
            for i, k in enumerate(K1):
                if i:
                    W <<= k - K1[i - 1]
                W += m.get(k, 0)
                if W:
                    rows.setdefault(k, []).append((l, W))
        for i, k in enumerate(K1):
            if k not in rows:
                continue
            n = K1[i + 1] - k if i + 1 < len(K1) else (
                a.w - k if a.w is not None else None)
            r = sorted(rows[k])
            for W, l, n2 in _prefix(r, b):
                if sym:
                    if k > l:
                        continue
                    if k == l:
                        W >>= 1
                nl.append((W, ((a, k, n), (b, l, n2))))
    p._pf = (lin, nl)
    return p._pf


def base_range_F(a, k):
    lo, hi = a.rng
    return lo >> k, hi >> k


def base_range_piece(a, lo, n):
    l, h = base_range_F(a, lo)
    if n is None:
        return l, h
    if l >> n == h >> n:
        m = (1 << n) - 1
        return l & m, h & m
    return 0, (1 << n) - 1


def base_range(p):
    if p._br is not None:
        return p._br
    lin, nl = pieces_form(p)
    lo = hi = p._pc
    for c, a, k, n in lin:
        l, h = base_range_piece(a, k, n)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    for c, m in nl:
        l, h = 1, 1
        for b in m:
            l2, h2 = base_range_piece(*b)
            xs = (l * l2, l * h2, h * l2, h * h2)
            l, h = min(xs), max(xs)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    p._br = (lo, hi)
    return p._br


def lin_atom(p):
    """atom whose integer value is the polynomial p"""
    key = (p.key(), p.c)
    a = LIN_IX.get(key)
    if a is None:
        lo, hi = base_range(p)
        w = hi.bit_length() if lo >= 0 else None
        a = new_atom(w, f"L{len(ATOMS)}", "lin", poly=p, rng=(lo, hi))
        LIN_IX[key] = a
        if p.t:
            LIN_NK.setdefault(normkey(p)[0], []).append(a)
    return a


def split_at(p, k):
    """p = A * 2^k + B  with B made of the parts below bit k"""
    lin, nl = pieces_form(p)
    M = 1 << k
    mask = M - 1
    A = pconst(p._pc >> k)
    B = pconst(p._pc & mask)
    for c, a, lo, n in lin:
        if c & mask == 0:
            A = padd(A, piece_poly(a, lo, n), c >> k)
            continue
        s = (c & -c).bit_length() - 1
        cut = k - s
        m = n
        if m is None:
            l, h = base_range_F(a, lo)
            m = max(h.bit_length(), (-l - 1).bit_length() if l < 0 else 0)
        if cut >= m:
            B = padd(B, piece_poly(a, lo, n), c)
        else:
            A = padd(A, piece_poly(a, lo + cut, None if n is None else n - cut),
                     c >> s)
            B = padd(B, piece_poly(a, lo, cut), c)
    for c, m in nl:
        q = pconst(1)
        for b in m:
            q = pmul(q, piece_poly(*b))
        if c & mask == 0:
            A = padd(A, q, c >> k)
        else:
            B = padd(B, q, c)
    return A, B


def strip_low(p, kmax=None):
    """p = A*2^t + B with B in [0, 2^t): -> (A, t) for the largest such t"""
    lin, nl = pieces_form(p)
    if nl or not lin:
        return p, 0
    cuts = set()
    for c, a, lo, n in lin:
        t = (c & -c).bit_length() - 1
        if t and (kmax is None or t <= kmax):
            cuts.add(t)
    for t in sorted(cuts, reverse=True):
        A, B = split_at(p, t)
        if not A.t:
            continue
        l, h = base_range(B)
        if l >= 0 and h >> t == 0:
            return A, t
    return p, 0


def split_whole(p, k):
    """p = A * 2^k + B moving only whole pieces that lie above bit k"""
    lin, nl = pieces_form(p)
    mask = (1 << k) - 1
    A = ZERO
    B = pconst(p._pc & mask)
    A = pconst(p._pc >> k)
    moved = p._pc >> k != 0
    for c, a, lo, n in lin:
        if c & mask == 0:
            A = padd(A, piece_poly(a, lo, n), c >> k)
            moved = True
    for c, m in nl:
        if c & mask == 0:
            q = pconst(1)
            for b in m:
                q = pmul(q, piece_poly(*b))
            A = padd(A, q, c >> k)
            moved = True
    if not moved:
        return A, p
    return A, padd(p, A, -(1 << k))


def canonF(a, k):
    """polynomial of floor(a / 2^k)"""
    if a.kind != "lin":
        if k >= a.w:
            return ZERO
        return Poly({(basis(a, k),): 1}, 0)
    r = a._cf.get(k)
    if r is not None:
        return r
    if k == 0:
        r = a.poly
    else:
        r = floor_poly(a.poly, k, a)
        if len(r.t) > 1:
            for m in r.t:
                FLOORS.setdefault(m, []).append((a, k, r))
        else:
            for m, c in r.t.items():
                b, kb = BASIS[m[0]]
                if len(m) == 1 and c == 1 and b is not a and b.kind == "lin":
                    ALIAS.setdefault(b.id, []).append((a, k, kb, r.c))
    a._cf[k] = r
    return r


def floor_poly(p, k, self_=None, rng=base_range):
    """polynomial of floor(p / 2^k)"""
    lo, hi = rng(p)
    if lo >> k == hi >> k:
        return pconst(lo >> k)
    A, B = split_at(p, k)
    l, h = rng(B)
    if l >> k == h >> k:
        return padd(A, pconst(l >> k))
    A, B = split_whole(p, k)
    l, h = rng(B)
    if l >> k == h >> k:
        return padd(A, pconst(l >> k))
    b = lin_atom(B)
    if self_ is not None and b is self_:
        return _selfF(b, k)
    if not A.t and A.c == 0:
        return _selfF(b, k)
    return padd(A, canonF(b, k))


def _selfF(a, k):
    lin, nl = pieces_form(a.poly)
    cuts = set()
    for c in [x[0] for x in lin + nl]:
        t = (c & -c).bit_length() - 1
        if 0 < t <= k:
            cuts.add(t)
    for t in sorted(cuts, reverse=True):
        A, B = split_at(a.poly, t)
        if not A.t:
            continue
        p = padd(A, canonF(lin_atom(B), t)) if B.t else padd(A, pconst(B.c >> t))
        if p.t and len(p.t) <= len(a.poly.t) + 2:
            return canonF(lin_atom(p), k - t)
    lo, hi = a.rng
    kk = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0)
    if kk == 0:
        return a.poly               # value 0 or -1
    k = min(k, kk)
    b = basis(a, k)
    if b not in COARSE:
        COARSE[b] = None
        M = (1 << k) - 1
        wh = {m: c >> k for m, c in a.poly.t.items() if c & M == 0}
        if wh:
            B = Poly({m: c for m, c in a.poly.t.items() if c & M}, a.poly.c)
            COARSE[b] = padd(Poly(wh, 0), canonF(lin_atom(B), k))
    return Poly({(b,): 1}, 0)


def coarsen(p):
    """rewrite floors of low parts as differences of floors (an identity)"""
    seen = set()
    while True:
        for m, c in p.t.items():
            if len(m) == 1 and m not in seen:
                q = COARSE.get(m[0])
                if q is not None:
                    seen.add(m)
                    t = dict(p.t)
                    del t[m]
                    p = padd(Poly(t, p.c), q, c)
                    break
        else:
            return p


def piece_poly(a, lo, n):
    p = canonF(a, lo)
    if n is not None:
        p = padd(p, canonF(a, lo + n), -(1 << n))
    return p


# ---------------------------------------------------------------- bit vectors
# piece: (atom or None, lo | const value, n, neg)


class BV:
    __slots__ = ("w", "p", "sp", "_up")

    def __init__(self, w, p, sp=None):
        self.w = w
        self.p = p          # tuple of pieces or None
        self.sp = sp        # exact signed value (Poly) or None
        self._up = None

    def isconst(self):
        p = self.p
        return p is not None and len(p) == 1 and p[0][0] is None

    def __repr__(self):
        if self.p is None:
            return f"<{self.w}: s {self.sp}>"
        return f"<{self.w}:" + ",".join(
            (cstr(x[1]) + f"#{x[2]}") if x[0] is None
            else ("~" if x[3] else "") + f"{x[0].name}[{x[1]}+:{x[2]}]"
            for x in self.p) + ">"


_CONSTS = {}


def const(w, v):
    v &= (1 << w) - 1
    k = (w, v)
    r = _CONSTS.get(k)
    if r is None:
        r = BV(w, ((None, v, w, False),))
        if len(_CONSTS) < 200000:
            _CONSTS[k] = r
    return r


def cval(b):
    return b.p[0][1]


def mk(w, pieces):
    """normalise pieces (merge neighbours)"""
    out = []
    for q in pieces:
        a, lo, n, neg = q
        if n == 0:
            continue
        if out:
            a0, lo0, n0, neg0 = out[-1]
            if a is None and a0 is None:
                out[-1] = (None, lo0 | (lo << n0), n0 + n, False)
                continue
            if a is not None and a is a0 and neg == neg0 and lo == lo0 + n0:
                out[-1] = (a, lo0, n0 + n, neg)
                continue
        out.append(q)
    if len(out) == 1 and out[0][0] is None:
        return const(w, out[0][1])
    return BV(w, tuple(out))


def atom_bv(a):
    return BV(a.w, ((a, 0, a.w, False),))


def lin_slice_pieces(a, lo, n):
    """pieces for bits [lo,lo+n) of lin atom a"""
    if lo:
        q = canonF(a, lo)
        if len(q.t) == 1 and q.c == 0:
            (m, c), = q.t.items()
            if c == 1 and len(m) == 1:
                at, k = BASIS[m[0]]
                if at.w is None or k + n <= at.w:
                    return ((at, k, n, False),)
    else:
        q = a.poly
    l, h = base_range(q)
    if l < 0 or h >> n:
        A, q = split_whole(q, n)
        if n == 1 and q.c & 1 and q.t:
            return tuple((None, x[1] ^ 1, 1, False) if x[0] is None
                         else (x[0], x[1], 1, not x[3])
                         for x in lin_slice_pieces(lin_atom(padd(q, pconst(1), -1)), 0, 1))
        l, h = base_range(q)
    if l >= 0 and h >> n == 0:
        pp = poly_to_pieces(q, n)
        if pp is not None:
            return pp
    return ((lin_atom(q), 0, n, False),)


def poly_to_pieces(p, w):
    """p known to be in [0, 2^w): bit view if p is a plain concatenation"""
    lin, nl = pieces_form(p)
    if nl:
        return None
    segs = []
    cst = p._pc
    for c, a, lo, n in lin:
        if n is None:
            return None
        neg = False
        if c < 0:
            neg = True
            c = -c
            if c & (c - 1):
                return None
            cst -= c * ((1 << n) - 1)
        elif c & (c - 1):
            return None
        s = c.bit_length() - 1
        # piece may be narrower than n thanks to its base range
        l, h = base_range_piece(a, lo, n)
        n2 = h.bit_length() if not neg else n
        segs.append((s, min(n, max(n2, 0)), a, lo, neg))
    if cst < 0:
        return None
    segs.sort(key=lambda x: x[0])
    out = []
    pos = 0
    for s, n, a, lo, neg in segs:
        if n == 0:
            continue
        if s < pos:
            return None
        if s > pos:
            g = s - pos
            out.append((None, (cst >> pos) & ((1 << g) - 1), g, False))
        if (cst >> s) & ((1 << n) - 1):
            return None
        out.append((a, lo, n, neg))
        pos = s + n
    if pos > w:
        return None
    if pos < w:
        out.append((None, (cst >> pos) & ((1 << (w - pos)) - 1), w - pos, False))
    if cst >> w:
        return None
    return tuple(out)


def upoly(b):
    """unsigned value polynomial of bit view"""
    if b._up is None:
        p = ZERO
        off = 0
        for a, lo, n, neg in b.p:
            if a is None:
                p = Poly(p.t, p.c + (lo << off))
            else:
                q = piece_poly(a, lo, n)
                if neg:
                    p = padd(p, q, -(1 << off))
                    p = Poly(p.t, p.c + (((1 << n) - 1) << off))
                else:
                    p = padd(p, q, 1 << off)
            off += n
        b._up = p
    return b._up


def op_atom(w, name, *args, rng=None):
    key = (w, name) + args
    a = OP_IX.get(key)
    if a is None:
        a = new_atom(w, f"{name}#{len(ATOMS)}", name, args=args, rng=rng)
        OP_IX[key] = a
    return a


def slice_pieces(pieces, lo, n):
    out = []
    pos = 0
    hi = lo + n
    for q in pieces:
        a, l, m, neg = q
        e = pos + m
        if e > lo and pos < hi:
            s = max(lo, pos)
            t = min(hi, e)
            if a is None:
                out.append((None, (l >> (s - pos)) & ((1 << (t - s)) - 1), t - s, False))
            else:
                out.append((a, l + s - pos, t - s, neg))
        pos = e
        if pos >= hi:
            break
    return out


class Facts:
    """path facts"""
    __slots__ = ("known", "rng", "prng", "ne", "trace", "work", "busy", "vers", "rc", "rcv", "eqs", "lp", "goal", "root", "whole")
    concrete = False

    def __init__(self):
        self.goal = self.root = None
        self.known = {}
        self.rng = {}      # atom.id -> {(lo,n): (l,h)}
        self.prng = {}     # polykey -> (l,h)   (constant-free, primitive)
        self.ne = {}       # polykey -> frozenset of excluded values
        self.trace = ()
        self.work = None
        self.busy = set()
        self.vers = 0
        self.rc = {}
        self.rcv = 0
        self.eqs = None
        self.lp = None     # exact refinement of goals (poly.lp_range)

    def learn_equalities(self):
        """triangular system of the recorded forms that are constant"""
        eqs = []
        self.eqs = None
        for fk in list(self.prng):
            if len(fk) < 2:
                continue
            p = Poly(dict(fk), 0)
            l, h = self.prange(p)
            if l != h:
                continue
            p = reduce_by(eqs, Poly(dict(fk), -l))
            if not p.t:
                if p.c:
                    raise Contradiction()
                continue
            best = None
            for m, c in p.t.items():
                if c in (1, -1):
                    key = (max(BASIS[b][0].id for b in m), len(m), -min(BASIS[b][1] for b in m))
                    if best is None or key > best[0]:
                        best = (key, m, c)
            if best:
                eqs.append((best[1], best[2], p))
        self.eqs = eqs
        self.vers += 1
        return eqs

    def cache(self):
        if self.rcv != self.vers:
            self.rc = {}
            self.rcv = self.vers
        return self.rc

    def copy(self):
        f = Facts()
        f.known = dict(self.known)
        f.rng = {k: v for k, v in self.rng.items()}
        f.prng = dict(self.prng)
        f.ne = dict(self.ne)
        f.trace = self.trace
        f.vers = self.vers
        return f

    # ---- ranges
    def range_F(self, a, k):
        c = self.cache()
        key = (a.id, k, -1) if self.busy else (a.id, k)
        r = c.get(key)
        if r is None:
            r = self._range_F(a, k)
            if self.rcv == self.vers:
                self.rc[key] = r
        return r

    def _range_F(self, a, k):
        lo, hi = a.rng
        if a.kind == "lin" :
            if a.id not in self.busy:
                self.busy.add(a.id)
                try:
                    l2, h2 = self.prange(a.poly, depth=max(1, 4 - len(self.busy)))
                finally:
                    self.busy.discard(a.id)
                lo = max(lo, l2)
                hi = min(hi, h2)
                m, v = self.known.get(a.id, (0, 0))
                if m & 1:
                    # congruent to the known low bits
                    t = (m ^ (m + 1)).bit_length() - 1
                    lo += (v - lo) & ((1 << t) - 1)
                    hi -= (hi - v) & ((1 << t) - 1)
                    if lo > hi:
                        raise Contradiction()
        elif a.args is not None or a.id in self.known or a.id in self.rng:
            l, h = self.range_piece(a, k, a.w - k)
            r = self.prng.get((((basis(a, k),), 1),))
            if r:
                l = max(l, r[0])
                h = min(h, r[1])
            return l, h
        lo >>= k
        hi >>= k
        ks = [(k2, self.prng.get(key)) for k2, key in KS.get(a.id, ())]
        if lo < hi and a.id not in self.busy and len(self.busy) < 4:
            for A, ka, k2, c in ALIAS.get(a.id, ()):
                if A.id not in self.busy:
                    self.busy.add(a.id)
                    try:
                        l, h = self.range_F(A, ka)
                    finally:
                        self.busy.discard(a.id)
                    ks.append((k2, (l - c, h - c)))
        for k2, r in ks:
            if r:
                if k2 == k:
                    lo = max(lo, r[0])
                    hi = min(hi, r[1])
                elif k2 > k:
                    lo = max(lo, r[0] << (k2 - k))
                    hi = min(hi, ((r[1] + 1) << (k2 - k)) - 1)
                else:
                    lo = max(lo, r[0] >> (k - k2))
                    hi = min(hi, r[1] >> (k - k2))
        return lo, hi

    def range_piece(self, a, lo, n):
        if n is None:
            return self.range_F(a, lo)
        if n <= 0:
            return 0, 0
        c = self.cache()
        key = (a.id, lo, n, -1) if self.busy else (a.id, lo, n)
        r = c.get(key)
        if r is None:
            r = self._range_piece(a, lo, n)
            if self.rcv == self.vers:
                self.rc[key] = r
        return r

    def _fact(self, p):
        k, g, s = normkey(p)
        r = self.prng.get(k)
        if r is None:
            return None
        l, h = r
        if s > 0:
            return g * l + p.c, g * h + p.c
        return -g * h + p.c, -g * l + p.c

    def _range_piece(self, a, lo, n):
        if a.kind == "lin":
            l, h = self.range_F(a, lo)
            if l >> n == h >> n:
                m = (1 << n) - 1
                l &= m
                h &= m
            else:
                l, h = 0, (1 << n) - 1
            if l < h and lo == 0 and len(self.busy) < 4 and a.id not in self.busy:
                # low bits from the low bits of the terms
                self.busy.add(a.id)
                try:
                    v = self._low_bits(a.poly, n)
                finally:
                    self.busy.discard(a.id)
                if v is not None:
                    l = h = v
            if l < h and self.prng:
                pp = piece_poly(a, lo, n)
                if pp.t:
                    r = self._fact(pp)
                    if r:
                        l, h = max(l, r[0]), min(h, r[1])
            if l < h:
                cuts = [c for c in a._cf if lo < c < lo + n]
                if cuts and len(cuts) <= 12:
                    for c in sorted(cuts):
                        l1, h1 = self.range_piece(a, lo, c - lo)
                        l2, h2 = self.range_piece(a, c, lo + n - c)
                        l = max(l, l1 + (l2 << (c - lo)))
                        h = min(h, h1 + (h2 << (c - lo)))
        else:
            l, h = a.rng
            if a.args is not None:
                l, h = self.op_eval(a, l, h)
            if l or h != (1 << a.w) - 1:
                l >>= lo
                h >>= lo
                if l >> n == h >> n:
                    m = (1 << n) - 1
                    l &= m
                    h &= m
                else:
                    l, h = 0, (1 << n) - 1
            else:
                l, h = 0, (1 << n) - 1
        kn = self.known.get(a.id)
        if kn:
            m = (kn[0] >> lo) & ((1 << n) - 1)
            if m:
                v = (kn[1] >> lo) & m
                l = max(l, v)
                h = min(h, v | (((1 << n) - 1) & ~m))
        rg = self.rng.get(a.id)
        if rg:
            ex = rg.get((lo, n))
            if ex:
                l = max(l, ex[0])
                h = min(h, ex[1])
            sub = 0
            subs = []
            for (lo2, n2), (l2, h2) in rg.items():
                e2 = lo2 + n2
                if lo2 >= lo and e2 <= lo + n:
                    subs.append((lo2, n2, l2, h2))
                elif lo2 <= lo and e2 >= lo + n:
                    # super slice
                    s = lo - lo2
                    a1, b1 = l2, h2
                    if s:
                        mm = ((1 << s) - 1) << lo2
                        if kn and kn[0] & mm == mm:
                            v = (kn[1] & mm) >> lo2
                            a1 = max(0, a1 - v + (1 << s) - 1)
                            b1 = b1 - v
                            if b1 < 0:
                                raise Contradiction()
                        a1 >>= s
                        b1 >>= s
                    if a1 >> n == b1 >> n:
                        mm = (1 << n) - 1
                        l = max(l, a1 & mm)
                        h = min(h, b1 & mm)
            if subs:
                subs.sort(key=lambda x: (-x[1], x[0]))
                used = []
                low = 0
                high = 0
                cov = 0
                for lo2, n2, l2, h2 in subs:
                    if any(not (lo2 + n2 <= u or lo2 >= u + m) for u, m in used):
                        continue
                    used.append((lo2, n2))
                    low += l2 << (lo2 - lo)
                    high += h2 << (lo2 - lo)
                    cov |= ((1 << n2) - 1) << (lo2 - lo)
                rest = ((1 << n) - 1) & ~cov
                if kn:
                    m = (kn[0] >> lo) & rest
                    v = (kn[1] >> lo) & m
                    low += v
                    high += (rest & ~m) | v
                else:
                    high += rest
                l = max(l, low)
                h = min(h, high)
        if kn and l < h and (kn[0] >> lo) & 1:
            l, h = congruent(l, h, kn, lo)
        if l < h and lo == 0 and a.kind == "lin" and a.poly.t:
            # the terms are multiples of a power of two
            t = min((c & -c).bit_length() - 1 for c in a.poly.t.values())
            if t:
                t = (1 << min(t, n)) - 1
                l += (a.poly.c - l) & t
                h -= (h - a.poly.c) & t
        if l > h:
            raise Contradiction()
        return l, h

    def _monotone(self, p, lo, hi, depth):
        """x|y >= x, x&y <= x"""
        for m, c in p.t.items():
            if len(m) != 1:
                continue
            a, k = BASIS[m[0]]
            if a.kind not in ("or", "and"):
                continue
            for q, off, n, neg in a.args:
                if q is None or n != 1:
                    continue
                bit = piece_poly(q, off, 1)
                if neg:
                    bit = padd(pconst(1), bit, -1)
                t = dict(p.t)
                del t[m]
                r = padd(Poly(t, p.c), bit, c)
                if len(r.t) > len(p.t) + 1:
                    continue
                l, h = self.prange(r, depth - 1)
                if (a.kind == "or") == (c > 0):
                    lo = max(lo, l)
                else:
                    hi = min(hi, h)
        return lo, hi

    def _low_bits(self, p, n):
        """p mod 2**n when the low bits of all terms are known"""
        v = p.c
        for m, c in p.t.items():
            z = (c & -c).bit_length() - 1
            if z >= n:
                continue
            if len(m) != 1:
                return None
            a, k = BASIS[m[0]]
            w = n - z
            if a.w is not None:
                w = min(w, a.w - k)
            l, h = self.range_piece(a, k, w)
            if l != h:
                return None
            v += c * l
        return v & ((1 << n) - 1)

    def prange(self, p, depth=3, flat=False):
        if not p.t:
            return p.c, p.c
        if self.lp is not None and depth == 3:
            lp, self.lp = self.lp, None
            try:
                return lp(self, p)
            finally:
                self.lp = lp
        if self.eqs and depth == 3:
            q = reduce_by(self.eqs, p)
            if q is not p and len(q.t) <= len(p.t) + 2:
                eqs, self.eqs = self.eqs, None
                try:
                    l, h = self.prange(p)
                    if l < h:
                        l2, h2 = self.prange(q)
                        l, h = max(l, l2), min(h, h2)
                        if l > h:
                            raise Contradiction()
                finally:
                    self.eqs = eqs
                return l, h
        lin, nl = pieces_form(p)
        lo = hi = p._pc
        for c, a, k, n in lin:
            if depth <= 0:
                l, h = base_range_piece(a, k, n)
            else:
                l, h = self.range_piece(a, k, n)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        for c, m in nl:
            l, h = 1, 1
            for b in m:
                l2, h2 = self.range_piece(*b) if depth > 0 else base_range_piece(*b)
                xs = (l * l2, l * h2, h * l2, h * h2)
                l, h = min(xs), max(xs)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if self.prng or FLOORS:
            k, g, s = normkey(p)
            r = self.prng.get(k)
            if r:
                l, h = r
                if s > 0:
                    l, h = g * l + p.c, g * h + p.c
                else:
                    l, h = -g * h + p.c, -g * l + p.c
                lo = max(lo, l)
                hi = min(hi, h)
            if lo < hi:
                for a in LIN_NK.get(k, ()):
                    if a.id not in self.busy and a.poly is not p:
                        k2, g2, s2 = normkey(a.poly)
                        l, h = self.range_F(a, 0)
                        l -= a.poly.c
                        h -= a.poly.c
                        if s2 != s:
                            l, h = -h, -l
                        l = -(-l // g2)
                        h = h // g2
                        lo = max(lo, g * l + p.c)
                        hi = min(hi, g * h + p.c)
            if lo < hi and depth >= 2 and len(p.t) > 1:
                q, f = p, True
                if not flat:
                    q = self.fold(p)
                    if q is p:
                        q = coarsen(p)
                    else:
                        f = False
                if q is not p:
                    l, h = self.prange(q, depth, f)
                    lo, hi = max(lo, l), min(hi, h)
                else:
                    lo, hi = self._combine(p, lo, hi, depth)
                    if lo < hi and len(p.t) <= 4:
                        lo, hi = self._monotone(p, lo, hi, depth)
        ne = self.ne.get(normkey(p)[0]) if self.ne else None
        if ne:
            k, g, s = normkey(p)
            while lo <= hi and (lo - p.c) % g == 0 and ((lo - p.c) // g * s) in ne:
                lo += g
            while lo <= hi and (hi - p.c) % g == 0 and ((hi - p.c) // g * s) in ne:
                hi -= g
        if lo > hi:
            raise Contradiction()
        return lo, hi

    def fold(self, p):
        """replace the terms with a known value"""
        fx = 0
        t = None
        for m, c in p.t.items():
            if len(m) == 1:
                a, kk = BASIS[m[0]]
                l, h = self.range_F(a, kk)
                if l == h:
                    if t is None:
                        t = dict(p.t)
                    del t[m]
                    fx += c * l
        return p if t is None else Poly(t, p.c + fx)

    def _combine(self, p, lo, hi, depth):
        """tighten by p = lam*f + rest for recorded forms f"""
        cands = []
        n = len(p.t)
        for fk, r in self.prng.items():
            if len(fk) >= 2 and len(fk) <= n + 2 and fk[0][0] in p.t:
                cands.append((fk, 0, r))
        seen = set()
        for m in p.t:
            fl = FLOORS.get(m)
            if fl:
                for a, k, q in fl:
                    if len(q.t) <= n + 2 and (a.id, k) not in seen:
                        seen.add((a.id, k))
                        cands.append((q.key(), q.c, (a, k)))
        for fk, c, r in cands:
            m0, c0 = fk[0]
            cp = p.t.get(m0)
            if cp is None or cp % c0:
                continue
            lam = cp // c0
            t = dict(p.t)
            for m, cc in fk:
                nn = t.get(m, 0) - lam * cc
                if nn:
                    t[m] = nn
                else:
                    t.pop(m, None)
            if len(t) > n or len(t) == n and depth < 3:
                continue
            if type(r[0]) is Atom:
                l, h = self.range_F(r[0], r[1])
                l -= c
                h -= c
            else:
                l, h = r
            r2 = self.prange(Poly(t, p.c), depth - 1) if t else (p.c, p.c)
            if lam > 0:
                l2, h2 = r2[0] + lam * l, r2[1] + lam * h
            else:
                l2, h2 = r2[0] + lam * h, r2[1] + lam * l
            if l2 > lo:
                lo = l2
            if h2 < hi:
                hi = h2
            if lo >= hi:
                return lo, hi
        # low part of a sum: a - 2^k floor(a/2^k) in [0, 2^k)
        for m, c in p.t.items():
            if len(m) != 1:
                continue
            a, k = BASIS[m[0]]
            if a.kind != "lin" or k == 0 or a.w is None and a.rng[0] < -(1 << 4096):
                continue
            v = (c & -c).bit_length() - 1
            D = 1 << max(0, k - v)
            lam = -(c * D >> k)
            q = padd(pscale(p, D), a.poly, -lam)
            t = dict(q.t)
            nn = t.get(m, 0) + (lam << k)
            if nn:
                t[m] = nn
            else:
                t.pop(m, None)
            if len(t) > n or len(t) == n and depth < 3:
                continue
            l, h = self.range_piece(a, 0, k)
            r2 = self.prange(Poly(t, q.c), depth - 1) if t else (q.c, q.c)
            if lam > 0:
                l2, h2 = r2[0] + lam * l, r2[1] + lam * h
            else:
                l2, h2 = r2[0] + lam * h, r2[1] + lam * l
            lo = max(lo, -((-l2) // D))
            hi = min(hi, h2 // D)
        return lo, hi

    def op_eval(self, a, l, h):
        """range of an operation atom from its arguments"""
        k = a.kind
        if k == "eq0":
            p = Poly(dict(a.args[0][0]), a.args[0][1])
            if p.c == 0 and p.t:
                nk, g, s = normkey(p)
                ne = self.ne.get(nk)
                if ne and 0 in ne:
                    return 0, 0
            elif p.t:
                nk, g, s = normkey(p)
                v = -p.c * s
                ne = self.ne.get(nk)
                if v % g or (ne and v // g in ne):
                    return 0, 0
            l2, h2 = self.prange(p, 1)
            if l2 > 0 or h2 < 0:
                return 0, 0
            if l2 == h2 == 0:
                return 1, 1
            return l, h
        if k in ("or", "and", "xor"):
            l1, h1 = self.q_range(a.args[0])
            l2, h2 = self.q_range(a.args[1])
            if a.w == 1:
                if k == "or":
                    return max(l1, l2), max(h1, h2)
                if k == "and":
                    return min(l1, l2), min(h1, h2)
                if l1 == h1 and l2 == h2:
                    return l1 ^ l2, l1 ^ l2
                return l, h
            if k == "or":
                m = (1 << max(h1.bit_length(), h2.bit_length())) - 1
                return max(l, l1, l2), min(h, m)
            if k == "and":
                return l, min(h, h1, h2)
            m = (1 << max(h1.bit_length(), h2.bit_length())) - 1
            return l, min(h, m)
        if k == "clz":
            p = Poly(dict(a.args[0][0]), a.args[0][1])
            w = a.args[1]
            l2, h2 = self.prange(p, 1)
            return max(l, w - h2.bit_length()), min(h, w - max(l2, 0).bit_length())
        return l, h

    def q_range(self, q):
        a, lo, n, neg = q
        if a is None:
            return lo, lo
        l, h = self.range_piece(a, lo, n)
        if neg:
            m = (1 << n) - 1
            return m - h, m - l
        return l, h

    # ---- assumptions
    def assume_ge(self, p, bound):
        """p >= bound"""
        self.assume_range(p, bound, None)

    def assume_le(self, p, bound):
        self.assume_range(p, None, bound)

    def assume_range(self, p, lo, hi, flat=False):
        if not p.t:
            if (lo is not None and p.c < lo) or (hi is not None and p.c > hi):
                raise Contradiction()
            return
        if len(p.t) > 1 and not flat:
            q = self.fold(p)
            if q is not p:
                self.assume_range(q, lo, hi)
                return
            q = coarsen(p)
            if q is not p and len(q.t) <= len(p.t) + 1:
                self.assume_range(q, lo, hi, True)
        cl, ch = self.prange(p)
        nl = cl if lo is None else max(cl, lo)
        nh = ch if hi is None else min(ch, hi)
        if nl > nh:
            raise Contradiction()
        k, g, s = normkey(p)
        a, b = nl - p.c, nh - p.c
        if s < 0:
            a, b = -b, -a
        a = -((-a) // g)
        b = b // g
        if a > b:
            raise Contradiction()
        old = self.prng.get(k)
        if old is not None and old[0] >= a and old[1] <= b:
            return
        if old is None and nl == cl and nh == ch:
            l, h = base_range(p)
            if l >= nl and h <= nh:
                return
        self.vers += 1
        rs = [self.range_piece(*x[1:]) for x in pieces_form(p)[0]]
        top = self.work is None
        if top:
            self.work = []
        self.prng[k] = (a, b)
        self.vers += 1
        try:
            if len(k) > 1:
                self._scaled(k, a, b)
            self._propagate(p, nl, nh, rs)
            if nl == nh and len(p.t) > 1:
                self._propagate_congruence(p, nl)
                if 2 < len(p.t) <= 6:
                    self._propagate_rests(p, nl)
            if len(p.t) > 2:
                self._propagate_units(p, nl, nh)
            if top:
                self._settle()
        finally:
            if top:
                self.work = None

    def _settle(self):
        seen = {}
        n = 0
        while self.work and n < 60:
            aid = self.work.pop()
            k = seen.get(aid, 0)
            if k >= VISITS:
                continue
            seen[aid] = k + 1
            n += 1
            self._revisit(aid)

    def _revisit(self, aid):
        for fk, (l, h) in list(self.prng.items()):
            if len(fk) < 2:
                continue
            if any(BASIS[b][0].id == aid for m, _ in fk for b in m):
                p = Poly(dict(fk), 0)
                cl, ch = self.prange(p)
                if cl > h or ch < l:
                    raise Contradiction()
                self._propagate(p, max(l, cl), min(h, ch))
                if len(fk) > 2:
                    self._propagate_units(p, max(l, cl), min(h, ch))

    def _propagate(self, p, nl, nh, rg=None):
        """p in [nl,nh] -> tighten its pieces"""
        lin, nlm = pieces_form(p)
        if nlm:
            if len(nlm) == 1 and not lin and len(nlm[0][1]) == 2:
                self._propagate_product(nlm[0], nl - p._pc, nh - p._pc)
            else:
                self._propagate_parts(p, nl, nh)
            return
        rs = []
        tl = th = p._pc
        for i, (c, a, k, n) in enumerate(lin):
            l, h = rg[i] if rg else self.range_piece(a, k, n)
            x, y = (c * l, c * h) if c > 0 else (c * h, c * l)
            rs.append((x, y, l, h))
            tl += x
            th += y
        for (c, a, k, n), (x, y, l, h) in zip(lin, rs):
            # c*piece in [nl - (th - y), nh - (tl - x)]
            lo = nl - (th - y)
            hi = nh - (tl - x)
            if c > 0:
                l2 = -((-lo) // c)
                h2 = hi // c
            else:
                l2 = -((hi) // (-c))
                h2 = (-lo) // (-c)
            if l2 > l or h2 < h:
                l2 = max(l, l2)
                h2 = min(h, h2)
                if l2 > h2:
                    raise Contradiction()
                self.set_piece(a, k, n, l2, h2)

    def _propagate_congruence(self, p, v):
        """p = v: the low bits of the only term not divisible by 2^w"""
        ts = sorted(((c & -c).bit_length() - 1, m, c) for m, c in p.t.items())
        u, m, c = ts[0]
        w = ts[1][0]
        if w == u or len(m) != 1:
            if (v - p.c) & ((1 << u) - 1):
                raise Contradiction()
            return
        a, k = BASIS[m[0]]
        r = v - p.c
        if r & ((1 << u) - 1):
            raise Contradiction()
        n = w - u
        if a.w is not None:
            n = min(n, a.w - k)
        M = 1 << n
        x = (r >> u) * pow(c >> u, -1, M) % M
        if a.w is None and a.kind != "lin":
            return
        self.set_piece(a, k, n, x, x)

    def _propagate_units(self, p, nl, nh):
        """p = g*a + (terms below g): bounds of the sum a itself"""
        small, big = {}, {}
        for m, c in p.t.items():
            d = small if len(m) == 1 and abs(c) == 1 and BASIS[m[0]][0].w == 1 else big
            d[m] = c
        if not small or len(big) < 2:
            return
        g = math.gcd(*big.values())
        if g < 2:
            return
        l, h = self.prange(Poly(small, p.c))
        a = Poly({m: c // g for m, c in big.items()}, 0)
        self.assume_range(a, -((h - nl) // g), (nh - l) // g)

    def _propagate_rests(self, p, v):
        """c*x + Q = v: bounds of the floor x from what is known about Q"""
        for m, c in p.t.items():
            if len(m) == 1 and BASIS[m[0]][0].kind == "lin":
                l, h = self.range_F(*BASIS[m[0]])
                if l == h:
                    continue
                t = dict(p.t)
                del t[m]
                l2, h2 = self.prange(Poly(t, p.c))
                l2, h2 = v - h2, v - l2
                if c < 0:
                    l2, h2 = -h2, -l2
                l2, h2 = -(-l2 // abs(c)), h2 // abs(c)
                if l2 > l or h2 < h:
                    if l2 > h2:
                        raise Contradiction()
                    self.set_piece(*BASIS[m[0]], None, max(l, l2), min(h, h2))

    def _propagate_product(self, m, nl, nh):
        c, (x, y) = m
        if c < 0:
            c, nl, nh = -c, -nh, -nl
        nl = -(-nl // c)
        nh = nh // c
        if x == y:
            return
        for u, v in ((x, y), (y, x)):
            l, h = self.range_piece(*v)
            a, b = self.range_piece(*u)
            if l < 0 or a < 0 or nh < 0:
                return
            # u in [ceil(nl/h), floor(nh/l)]
            a2 = -(-nl // h) if h > 0 and nl > 0 else a
            b2 = nh // l if l > 0 else b
            if a2 > a or b2 < b:
                a, b = max(a, a2), min(b, b2)
                if a > b:
                    raise Contradiction()
                self.set_piece(*u, a, b)

    def low_parts(self, p):
        """D*p = rest + sum lam * (a mod 2**k), greedily, with fewer terms
        -> (D, rest, [(lam, a, k)]) or None"""
        D = 1
        out = []
        while p.t:
            best = None
            for m, c in p.t.items():
                if len(m) != 1:
                    continue
                a, k = BASIS[m[0]]
                if a.kind != "lin" or k == 0:
                    continue
                v = (c & -c).bit_length() - 1
                d = 1 << max(0, k - v)
                lam = -(c * d >> k)
                t = dict(pscale(p, d).t)
                for m2, c2 in a.poly.t.items():
                    nn = t.get(m2, 0) - lam * c2
                    if nn:
                        t[m2] = nn
                    else:
                        t.pop(m2, None)
                nn = t.get(m, 0) + (lam << k)
                if nn:
                    t[m] = nn
                else:
                    t.pop(m, None)
                if len(t) < len(p.t) and (best is None or len(t) < len(best[0].t)):
                    best = (Poly(t, p.c * d - lam * a.poly.c), d, lam, a, k)
            if best is None:
                break
            p, d, lam, a, k = best
            D *= d
            out = [(l * d, a2, k2) for l, a2, k2 in out] + [(lam, a, k)]
        if not out:
            return None
        return D, p, out

    def _propagate_parts(self, p, nl, nh):
        r = self.low_parts(p)
        if r is None:
            return
        D, rest, parts = r
        rl, rh = self.prange(rest)
        rs = [(c, a, k, self.range_piece(a, 0, k)) for c, a, k in parts]
        tl, th = rl, rh
        for c, a, k, (l, h) in rs:
            tl += min(c * l, c * h)
            th += max(c * l, c * h)
        nl *= D
        nh *= D
        for c, a, k, (l, h) in rs:
            x, y = min(c * l, c * h), max(c * l, c * h)
            lo = nl - (th - y)
            hi = nh - (tl - x)
            if c > 0:
                l2, h2 = -((-lo) // c), hi // c
            else:
                l2, h2 = -(hi // -c), (-lo) // -c
            if l2 > l or h2 < h:
                l2, h2 = max(l, l2), min(h, h2)
                if l2 > h2:
                    raise Contradiction()
                self.set_piece(a, 0, k, l2, h2)

    def _scaled(self, k, a, b):
        """facts on the same sum over coarser or finer floors:
        sum c*(x>>i) = 2^d * sum c*(x>>(i+d)) + sum c*(low bits), where a
        term may also be carried over exactly with a coefficient c*2^d"""
        g = scale_sig(k)
        if g is None:
            return
        todo = []
        for k2, (l, h) in self.prng.items():
            if len(k2) != len(k) or k2 is k:
                continue
            g2 = scale_sig(k2)
            if g2 is None or g2[0] != g[0] or g2[1] == g[1]:
                continue
            r = scaled(g[1], g2[1])
            if r is not None:
                # k is the fine one: k = sg * 2^d * k2 + [neg, pos]
                d, sg, neg, pos = r
                if sg < 0:
                    l, h = -h, -l
                if (l << d) + neg > b or (h << d) + pos < a:
                    raise Contradiction()
                l2, h2 = -(-(a - pos) >> d), (b - neg) >> d
            else:
                r = scaled(g2[1], g[1])
                if r is None:
                    continue
                d, sg, neg, pos = r
                a2, b2 = (a, b) if sg > 0 else (-b, -a)
                l2, h2 = (a2 << d) + neg, (b2 << d) + pos
                sg = 1
                if l2 > h or h2 < l:
                    raise Contradiction()
            if l2 > l or h2 < h:
                todo.append((k2, l2, h2) if sg > 0 else (k2, -h2, -l2))
        for k2, l2, h2 in todo:
            self.assume_range(Poly(dict(k2), 0), l2, h2, True)

    def recheck(self):
        """re-evaluate the recorded facts (raises Contradiction)"""
        for fk in list(self.prng):
            if len(fk) > 1 or len(fk[0][0]) > 1:
                p = Poly(dict(fk), 0)
                l, h = self.prange(p)
                self._propagate(p, l, h)

    def set_piece(self, a, k, n, l, h):
        if n is None or (a.kind == "lin" and a.w is not None and k + n >= a.w):
            # suffix floor of a lin atom
            if a.kind == "lin":
                bp = Poly({(basis(a, k),): 1}, 0)
                key = bp.key()
                old = self.prng.get(key)
                if old is None or old[0] < l or old[1] > h:
                    self.vers += 1
                    self.prng[key] = (max(l, old[0]) if old else l,
                                      min(h, old[1]) if old else h)
                    self._touch(a)
                self.assume_range(a.poly, l << k, ((h + 1) << k) - 1)
            if n is None:
                return
        kn = self.known.get(a.id)
        if kn and l < h and (kn[0] >> k) & 1:
            l, h = congruent(l, h, kn, k)
            if l > h:
                raise Contradiction()
        if l == h:
            self.set_bits(a, k, n, l)
            return
        self.vers += 1
        d = self.rng.get(a.id)
        d = dict(d) if d else {}
        d[(k, n)] = (l, h)
        self.rng[a.id] = d
        self._touch(a)
        # leading bits in common
        x = l ^ h
        j = x.bit_length()
        if j < n:
            self.set_bits(a, k + j, n - j, l >> j)
        if n == 1:
            return
        if a.kind not in ("in", "lin"):
            self._op_range(a)

    def set_bits(self, a, k, n, v):
        m = ((1 << n) - 1) << k
        v = v << k
        om, ov = self.known.get(a.id, (0, 0))
        if (om & m) and ((ov ^ v) & om & m):
            raise Contradiction()
        if om & m == m:
            return
        self.vers += 1
        self.known[a.id] = (om | m, ov | v)
        self._touch(a)
        rg = self.rng.get(a.id)
        if rg:
            for (k2, n2) in list(rg):
                if k2 < k + n and k < k2 + n2:
                    l2, h2 = self.range_piece(a, k2, n2)
        if a.kind == "lin":
            # top slice known -> bounds on the polynomial
            if a.w is not None and k + n >= a.w:
                self.assume_range(a.poly, (v >> k) << k, (((v >> k) + 1) << k) - 1)
            else:
                pp = piece_poly(a, k, n)
                self.assume_range(pp, v >> k, v >> k)
                if n == 1 and a.w is None and a.rng[0] >= -1 << k and a.rng[1] < 1 << k:
                    self.assume_range(a.poly, *((None, -1) if v else (0, None)))
        elif a.kind != "in":
            self._op_known(a)

    def _touch(self, a):
        if self.work is not None and a.id not in self.work:
            self.work.append(a.id)

    def _op_known(self, a):
        kn = self.known.get(a.id)
        full = (1 << a.w) - 1
        if kn[0] & full != full:
            return
        v = kn[1]
        k = a.kind
        if k == "eq0":
            p = a.args[0]
            p = Poly(dict(p[0]), p[1])
            if v:
                self.assume_range(p, 0, 0)
            else:
                self.assume_ne(p, 0)
        elif k == "or" and a.w == 1:
            if v == 0:
                for q in a.args:
                    self.assume_bit(q, 0)
            else:
                self._unit(a, 0, 1)
        elif k == "and" and a.w == 1:
            if v == 1:
                for q in a.args:
                    self.assume_bit(q, 1)
            else:
                self._unit(a, 1, 0)
        elif k == "xor" and a.w == 1:
            p, q = a.args
            rp = self.bit_range(p)
            rq = self.bit_range(q)
            if rp[0] == rp[1]:
                self.assume_bit(q, v ^ rp[0])
            elif rq[0] == rq[1]:
                self.assume_bit(p, v ^ rq[0])
        elif k == "ctz":
            pcs = a.args[0]
            w = a.args[1]
            pos = 0
            for q in pcs:
                qa, lo, n, neg = q
                lo_, hi_ = pos, pos + n
                pos = hi_
                if qa is None:
                    for i in range(n):
                        if lo_ + i <= v and ((lo >> i) & 1) != (lo_ + i == v):
                            raise Contradiction()
                    continue
                m = max(0, min(v, hi_) - lo_)
                if m:
                    self.set_bits(qa, lo, m, ((1 << m) - 1) if neg else 0)
                if lo_ <= v < hi_:
                    self.set_bits(qa, lo + v - lo_, 1, 0 if neg else 1)
        elif k == "clz":
            x = a.args[0]
            w = a.args[1]
            p = Poly(dict(x[0]), x[1])
            if v == w:
                self.assume_range(p, 0, 0)
            else:
                self.assume_range(p, 1 << (w - 1 - v), (1 << (w - v)) - 1)
        elif k == "or" and v == 0:
            pass

    def _unit(self, a, other, val):
        """or(...)=1 with one arg known 0 -> other arg 1"""
        p, q = a.args
        rp = self.bit_range(p)
        rq = self.bit_range(q)
        if rp == (other, other):
            self.assume_bit(q, val)
        elif rq == (other, other):
            self.assume_bit(p, val)

    def _op_range(self, a):
        if a.kind == "clz":
            x = a.args[0]
            w = a.args[1]
            l, h = self.range_piece(a, 0, a.w)
            p = Poly(dict(x[0]), x[1])
            hi = (1 << (w - l)) - 1
            lo = (1 << (w - 1 - h)) if h < w else 0
            self.assume_range(p, lo, hi)

    def bit_range(self, q):
        """q = piece of width 1"""
        a, lo, n, neg = q
        if a is None:
            return lo, lo
        l, h = self.range_piece(a, lo, 1)
        return (1 - h, 1 - l) if neg else (l, h)

    def assume_bit(self, q, v):
        a, lo, n, neg = q
        if a is None:
            if lo != v:
                raise Contradiction()
            return
        if neg:
            v = 1 - v
        l, h = self.range_piece(a, lo, 1)
        if l == h:
            if l != v:
                raise Contradiction()
            # known already, but make sure it is recorded
        top = self.work is None
        if top:
            self.work = []
        try:
            if l != h:
                self.set_piece(a, lo, 1, v, v)
            if top:
                self._settle()
        finally:
            if top:
                self.work = None

    def assume_ne(self, p, val):
        if not p.t:
            if p.c == val:
                raise Contradiction()
            return
        k, g, s = normkey(p)
        v = (val - p.c) * s
        if v % g:
            return
        v //= g
        self.vers += 1
        self.ne[k] = self.ne.get(k, frozenset()) | {v}
        lo, hi = self.prange(p)   # applies ne
        top = self.work is None
        if top:
            self.work = []
        try:
            rs = [self.range_piece(*x[1:]) for x in pieces_form(p)[0]]
            self.vers += 1
            self.prng[k] = (-(-(lo - p.c) // g), (hi - p.c) // g) if s > 0 else \
                (-((hi - p.c) // g), (-(lo - p.c)) // g)
            if len(k) > 1:
                self._scaled(k, *self.prng[k])
            self._propagate(p, lo, hi, rs)
            if len(p.t) > 2:
                self._propagate_units(p, lo, hi)
            if top:
                self._settle()
        finally:
            if top:
                self.work = None

    # ---- simplification of bit views under known bits
    def simp(self, b):
        p = b.p
        if p is None:
            return b
        kn = self.known
        hit = False
        for q in p:
            a = q[0]
            if a is not None and a.id in kn:
                if (kn[a.id][0] >> q[1]) & ((1 << q[2]) - 1):
                    hit = True
                    break
        if not hit:
            return b
        out = []
        for q in p:
            a, lo, n, neg = q
            if a is None or a.id not in kn:
                out.append(q)
                continue
            m, v = kn[a.id]
            m = (m >> lo) & ((1 << n) - 1)
            if not m:
                out.append(q)
                continue
            v >>= lo
            i = 0
            while i < n:
                bit = (m >> i) & 1
                # run length
                t = m >> i
                if bit:
                    r = ((t + 1) & ~t).bit_length() - 1
                else:
                    r = (t & -t).bit_length() - 1 if t else n - i
                r = min(r, n - i)
                if bit:
                    c = (v >> i) & ((1 << r) - 1)
                    if neg:
                        c ^= (1 << r) - 1
                    out.append((None, c, r, False))
                else:
                    out.append((a, lo + i, r, neg))
                i += r
        return mk(b.w, out)


def reduce_by(eqs, p):
    """eliminate the pivots of the equalities q = 0 from p"""
    for _ in range(10):
        ch = False
        for m, c, q in eqs:
            x = p.t.get(m)
            if x:
                p = padd(p, q, -x * c)
                ch = True
            if len(m) == 1:
                b = m[0]
                for n, x in list(p.t.items()):
                    if len(n) > 1 and b in n:
                        r = list(n)
                        r.remove(b)
                        p = padd(p, pmul(q, Poly({tuple(r): 1}, 0)), -x * c)
                        ch = True
        if not ch:
            break
    return p


def congruent(l, h, kn, k):
    """tighten [l, h] to numbers with the known low bits"""
    m, v = kn[0] >> k, kn[1] >> k
    t = (m ^ (m + 1)).bit_length() - 1
    M = (1 << t) - 1
    return l + ((v - l) & M), h - ((h - v) & M)


SCALE_SIG = {}


def scale_sig(k):
    """the atoms, and the coefficients and shifts, of a linear sum of floors"""
    r = SCALE_SIG.get(k, 0)
    if r == 0:
        r = None
        if all(len(m) == 1 for m, _ in k):
            x = sorted((BASIS[m[0]][0].id, c, BASIS[m[0]][1]) for m, c in k)
            if len({t[0] for t in x}) == len(x):
                r = tuple(i for i, _, _ in x), tuple(x)
        SCALE_SIG[k] = r
    return r


def scaled(fine, coarse):
    """(d, sign, neg, pos) with fine = sign * 2^d * coarse + [neg, pos]"""
    d = max(y[2] - x[2] for x, y in zip(fine, coarse))
    if d <= 0:
        return None
    sg = 0
    neg = pos = 0
    for (_, c, i), (_, e, j) in zip(fine, coarse):
        if j - i == d:
            if abs(c) != abs(e):
                return None
            m = c * ((1 << d) - 1)
            if m > 0:
                pos += m
            else:
                neg += m
        elif i != j or abs(c) != abs(e) << d:
            return None
        t = 1 if (c > 0) == (e > 0) else -1
        if sg not in (0, t):
            return None
        sg = t
    return d, sg, neg, pos


def normkey(p):
    """primitive, sign-normalised key of the non-constant part: p = s*g*key + c"""
    if p._nk is not None:
        return p._nk
    k = p.key()
    g = 0
    for _, c in k:
        g = gcd(g, c)
        if g == 1:
            break
    s = 1 if k[0][1] > 0 else -1
    if g == 1 and s == 1:
        r = k, 1, 1
    else:
        d = g * s
        r = tuple((m, c // d) for m, c in k), g, s
    p._nk = r
    return r
