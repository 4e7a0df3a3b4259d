"""Confirmation of an obligation that stayed open.

An obligation that could not be discharged is either violated or only too hard
for the domain.  It is reported as a violation when the abstract state in
which it stayed open has a member that violates it: an assignment to the
unknowns of the region that satisfies every fact of the path and falsifies the
goal.  All derived atoms of the domain are defined in terms of the unknowns, so
both are decided by evaluating the state's own definitions.  Without such a
member the obligation is reported as undecided."""
import random, time
from dom import *
import dom


class Concrete:
    """a Facts look-alike for one assignment"""
    concrete = True
    eqs = ()
    lp = None
    vers = 0

    def __init__(self, env):
        self.env = dict(env)
        self.prng = {}
        self.known = {}
        self.rng = {}
        self.ne = {}

    def at(self, a):
        v = self.env.get(a.id)
        if v is None:
            v = self.env[a.id] = self._at(a)
        return v

    def poly(self, p):
        s = p.c
        for m, c in p.t.items():
            for b in m:
                a, k = BASIS[b]
                c *= self.at(a) >> k
            s += c
        return s

    def key(self, k, c=0):
        for m, x in k:
            for b in m:
                a, j = BASIS[b]
                x *= self.at(a) >> j
            c += x
        return c

    def piece(self, q):
        a, lo, n, neg = q
        if a is None:
            return lo
        v = (self.at(a) >> lo) & ((1 << n) - 1)
        return v ^ ((1 << n) - 1) if neg else v

    def pieces(self, ps):
        v = s = 0
        for q in ps:
            v |= self.piece(q) << s
            s += q[2]
        return v

    def _at(self, a):
        k = a.kind
        if k == "lin":
            return self.poly(a.poly)
        if k == "eq0":
            return int(self.key(*a.args[0]) == 0)
        if k in ("or", "and", "xor"):
            x, y = (self.piece(q) for q in a.args)
            return x | y if k == "or" else x & y if k == "and" else x ^ y
        if k == "clz":
            return a.args[1] - self.key(*a.args[0]).bit_length()
        if k == "ctz":
            v = self.pieces(a.args[0])
            return (v & -v).bit_length() - 1 if v else a.args[1]
        if k == "div":
            d = self.key(*a.args[1])
            if d == 0:
                raise Contradiction()
            return self.key(*a.args[0]) // d
        if k == "cut":
            return self.key(*a.args[0]) & ((1 << a.args[1]) - 1)
        if k == "mod":
            d = self.key(*a.args[2])
            if d == 0:
                raise Contradiction()
            return (self.key(*a.args[0]) << a.args[1]) % d
        raise Unknown(a)

    # the interface goals use
    def copy(self):
        return self

    def prange(self, p, depth=3, flat=False):
        v = self.poly(p)
        return v, v

    def range_F(self, a, k):
        v = self.at(a) >> k
        return v, v

    def range_piece(self, a, lo, n):
        v = self.at(a) >> lo
        if n is not None:
            v &= (1 << n) - 1
        return v, v

    def q_range(self, q):
        v = self.piece(q)
        return v, v

    bit_range = q_range

    def assume_range(self, p, lo, hi, flat=False):
        v = self.poly(p)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Contradiction()

    def assume_ne(self, p, val):
        if self.poly(p) == val:
            raise Contradiction()

    def assume_bit(self, q, v):
        if self.piece(q) != v:
            raise Contradiction()

    def set_bits(self, a, k, n, v):
        if (self.at(a) >> k) & ((1 << n) - 1) != v:
            raise Contradiction()

    def recheck(self, *a):
        pass

    def learn_equalities(self):
        return ()

    def _propagate_parts(self, *a):
        pass

    def simp(self, b):
        return b

    def meets(self, F):
        """the first recorded fact of F this assignment breaks, or None"""
        try:
            for i, (m, v) in F.known.items():
                if (self.at(ATOMS[i]) ^ v) & m:
                    return ATOMS[i]
            for i, d in F.rng.items():
                for (lo, n), (l, h) in d.items():
                    if not l <= self.range_piece(ATOMS[i], lo, n)[0] <= h:
                        return ATOMS[i]
            for k, (l, h) in F.prng.items():
                if not l <= self.key(k) <= h:
                    return k
            for k, vs in F.ne.items():
                if self.key(k) in vs:
                    return k
        except Contradiction:
            return "undefined"
        return None


class Unknown(Exception):
    pass


def violates(goal, C):
    if goal is None:
        return True
    try:
        return not goal(C)
    except Contradiction:
        return False


def unknowns(F):
    ids = set()
    seen = set()

    def key(k):
        for m, _ in k:
            for b in m:
                at(BASIS[b][0])

    def at(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind == "in":
            ids.add(a.id)
        elif a.kind == "lin":
            key(a.poly.key())
        else:
            for q in a.args:
                arg(q)

    def arg(q):
        if isinstance(q, tuple):
            if len(q) == 4 and isinstance(q[0], Atom):
                at(q[0])
            elif len(q) == 2 and isinstance(q[0], tuple) and isinstance(q[1], int):
                key(q[0])
            else:
                for x in q:
                    arg(x)
    for i in list(F.known) + list(F.rng):
        at(ATOMS[i])
    for k in list(F.prng) + list(F.ne):
        key(k)
    return ids


def fix(G, a, v):
    G.assume_range(Poly({(basis(a, 0),): 1}, 0), v, v)
    G.set_bits(a, 0, a.w, v)


def pick(R, l, h, w):
    """a number in [l, h], with a preference for ends and for few set bits"""
    s = R.random()
    if l == h:
        return l
    if s < 0.12:
        return l
    if s < 0.24:
        return h
    if s < 0.34:
        return min(h, l + R.choice((1, 2, 3, 4)))
    if s < 0.42:
        return max(l, h - R.choice((1, 2, 3, 4)))
    v = R.randint(l, h)
    if s < 0.85:
        # few leading bits, then zeros (or ones)
        k = R.randrange((h - l).bit_length() + 1)
        v = v >> k << k
        if s > 0.68:
            v |= R.getrandbits(1) << max(k - 1, 0)
        elif s > 0.6:
            v |= (1 << k) - 1
        v = min(max(v, l), h)
    return v


def solved(F, a, env):
    """bounds of the unknown a from the facts that are linear in it once the
    assigned atoms are put in"""
    lo, hi = 0, (1 << a.w) - 1
    C = Concrete(env)
    for k, (l, h) in F.prng.items():
        A, B = 0, 0
        try:
            for m, x in k:
                n = 0
                for b in m:
                    t, j = BASIS[b]
                    if t is a and j == 0:
                        n += 1
                    elif t.id in env:
                        x *= env[t.id] >> j
                    else:
                        raise Unknown(t)
                if n > 1:
                    raise Unknown(a)
                if n:
                    A += x
                else:
                    B += x
        except Unknown:
            continue
        l, h = l - B, h - B
        if A < 0:
            A, l, h = -A, -h, -l
        if A:
            lo = max(lo, -(-l // A))
            hi = min(hi, h // A)
    return lo, hi


def label(F, R, end):
    """one attempt to choose all unknowns, narrowing after every choice"""
    G = F.copy()
    todo = [a for a in ATOMS if a.kind == "in"]
    divs = [a for a in ATOMS if a.kind == "div"]
    todo.sort(key=lambda a: (a.w > 1, a.w > 40, R.random()))
    if divs and R.random() < 0.9:
        # a quotient before its dividend or divisor
        todo[-1:-1] = divs
    env = {}
    for a in todo:
        if a.w <= 40:
            l, h = G.range_F(a, 0)
            kn = G.known.get(a.id, (0, 0))
            for t in range(6):
                v = pick(R, l, h, a.w)
                v = v & ~kn[0] | kn[1] & kn[0]
                H = G.copy()
                try:
                    fix(H, a, v)
                    H.recheck()
                except Contradiction:
                    continue
                G = H
                break
            else:
                return None
        elif divs and a is todo[-1]:
            l, h = solved(G, a, env)
            if l > h:
                return None
            v = pick(R, l, h, a.w)
            kn = G.known.get(a.id, (0, 0))
            env[a.id] = v & ~kn[0] | kn[1] & kn[0]
            continue
        else:
            # slices, from the top or from the bottom
            if R.random() < 0.6:
                cuts = [0, a.w]
            else:
                n = R.randint(1, 4)
                cuts = sorted({0, a.w} | {R.randrange(1, a.w) for _ in range(n)})
            sl = [(x, y) for x, y in zip(cuts, cuts[1:])]
            if R.random() < 0.7:
                sl.reverse()
            for lo, hi in sl:
                for t in range(4):
                    if time.time() > end:
                        return None
                    kn = G.known.get(a.id, (0, 0))
                    m = (1 << (hi - lo)) - 1
                    if hi == a.w:
                        l, h = G.range_F(a, lo)
                    else:
                        l, h = G.range_piece(a, lo, hi - lo)
                    v = pick(R, l, h, hi - lo)
                    v = (v & ~(kn[0] >> lo) | (kn[1] & kn[0]) >> lo) & m
                    H = G.copy()
                    try:
                        if lo == 0 and hi == a.w:
                            fix(H, a, v)
                        else:
                            if hi == a.w:
                                H.assume_range(Poly({(basis(a, lo),): 1}, 0), v, v)
                            H.set_bits(a, lo, hi - lo, v)
                        H.recheck()
                    except Contradiction:
                        continue
                    G = H
                    break
                else:
                    return None
        l, h = G.range_F(a, 0)
        m, v = G.known.get(a.id, (0, 0))
        if m == (1 << a.w) - 1:
            l = h = v
        if l != h:
            return None
        env[a.id] = l
    for a in divs:
        env.pop(a.id, None)
    return env


STAT = [0]
PROPOSE = []      # an analysis may propose assignments of its own unknowns


def sparse(R, w):
    """a number with few set bits, few clear low bits, or a short run"""
    v = 0
    for _ in range(R.choice((0, 1, 1, 2, 2, 3, 4))):
        b = 1 << R.randrange(w)
        v = v - b if R.random() < 0.15 else v + b
    if R.random() < 0.1:
        v += (1 << R.randrange(w)) - 1
    return v & ((1 << w) - 1)


def direct(F, R, small):
    """unknowns chosen independently: narrow ones within their ranges, wide
    ones sparse"""
    env = {}
    for a in ATOMS:
        if a.kind != "in":
            continue
        m, v = F.known.get(a.id, (0, 0))
        if a.w <= 40:
            if a.id not in small:
                small[a.id] = F.range_F(a, 0)
            x = pick(R, *small[a.id], a.w)
        else:
            x = sparse(R, a.w)
        env[a.id] = x & ~m | v & m
    return env


def search(goal, states, seconds=6.0, salt=0, whole=None):
    """an assignment in one of the states that falsifies the goal, or None;
    whole: a property of which the goal is one part, and further states where
    it may fail"""
    bad = lambda C: violates(goal, C) or whole is not None and violates(whole[0], C)
    R = random.Random(salt)
    end = time.time() + seconds
    starts = []
    for F in states:
        if F is None:
            continue
        p, lo, hi = getattr(goal, "spec", (None, None, None))
        alts = []
        if p is not None:
            for l, h in ((None, lo - 1) if lo is not None else None, (hi + 1, None) if hi is not None else None) if False else \
                    [x for x in ((None, lo - 1) if lo is not None else None,
                                 (hi + 1, None) if hi is not None else None) if x]:
                G = F.copy()
                try:
                    G.assume_range(p, l, h)
                    G.recheck()
                    alts.append(G)
                except Contradiction:
                    pass
                except Exception:
                    alts.append(F)
        else:
            for f in getattr(goal, "alts", ()):
                G = F.copy()
                try:
                    f(G)
                    alts.append(G)
                except Contradiction:
                    pass
            if not getattr(goal, "alts", None):
                alts.append(F)
        for f in whole[1] if whole is not None else ():
            G = F.copy()
            try:
                f(G)
                G.recheck()
                alts.append(G)
            except (Contradiction, NeedSplit):
                pass
        starts += [(G, F) for G in alts]
    if not starts:
        return None
    n = 0
    small = [{} for _ in starts]
    while time.time() < end:
        G, F = starts[n % len(starts)]
        if n // len(starts) % 2:
            stop = time.time() + 0.3
            while time.time() < stop:
                try:
                    C = Concrete(PROPOSE[0](R) if PROPOSE and R.random() < 0.8 else
                                 direct(G, R, small[n % len(starts)]))
                    if C.meets(F) is None and bad(C):
                        return {ATOMS[i].name: hex(v) for i, v in C.env.items() if ATOMS[i].kind == "in"}
                except (Contradiction, NeedSplit):
                    pass
                STAT[0] += 1
        n += 1
        try:
            env = label(G, R, end)
        except (Contradiction, NeedSplit):
            continue
        if env is None:
            continue
        C = Concrete(env)
        if C.meets(F) is None and bad(C):
            return {ATOMS[i].name: hex(v) for i, v in env.items()}
    return None
