"""The square root: induction over the digit recurrence.

The loop is cut at its head.  There the live values that change from one
iteration to the next must be a root q = S*Q and a remainder r with
Y = q*q + r*S and 0 <= r < 2*q + S, where Y is the operand's significand (an
even power of two apart) and S = 2**(237 - i) in iteration i.  The relation is
an identity of polynomials; it is shown at the first arrival, carried over by
every path through the body, and at every exit the rounded result is compared
with q and whether r is zero, which determine the rounded root.  A body that
does not keep to this relation is followed for single operands instead."""
import math, random, time
import witness
from props_arith import *
from props_arith import rounded, is_nan, is_exact, msb_range, Q0
from contracts import leaves, build

HEADS = {}


def heads(fn):
    """targets of back edges in the functions of the square root's module"""
    k = id(fn)
    if k not in HEADS:
        HEADS[k] = frozenset()
        if "math::sqrt::" in fn.get("name", "") and "blocks" in fn:
            HEADS[k] = frozenset(back(fn))
    return HEADS[k]


def succ(t):
    k = t[0]
    if k == "goto" or k == "drop":
        return [t[1]]
    if k == "sw":
        return [b for _, b in t[2]] + [t[3]]
    if k in ("call", "assert"):
        return [t[4]] if t[4] is not None else []
    return []


def back(fn):
    B = fn["blocks"]
    state = {}
    out = set()
    todo = [(0, iter(succ(B[0]["t"])))]
    state[0] = 1
    while todo:
        b, it = todo[-1]
        for n in it:
            if n is None:
                continue
            if state.get(n) == 1:
                out.add(n)
            elif n not in state:
                state[n] = 1
                todo.append((n, iter(succ(B[n]["t"]))))
                break
        else:
            state[b] = 2
            todo.pop()
    return out


def places(x, out):
    """locals an operand or right-hand side mentions"""
    if isinstance(x, dict):
        if "p" in x and isinstance(x["p"], list):
            place(x["p"], out)
        return
    if isinstance(x, list):
        if x and x[0] in ("ref", "discr", "len", "addr") and len(x) > 1 and isinstance(x[1], list):
            place(x[1], out)
        for y in x:
            places(y, out)


def place(p, out):
    if p and isinstance(p[0], int):
        out.add(p[0])
    for q in p[1:]:
        if isinstance(q, list) and q and q[0] == "i" and isinstance(q[1], int):
            out.add(q[1])


def live(fn, head):
    """locals that may be read before they are written when control is at the
    given block"""
    B = fn["blocks"]
    use, kill = [], []
    for b in B:
        u, k = set(), set()
        for st in b["s"]:
            r = set()
            if st[0] == "=":
                places(st[2], r)
                if len(st[1]) > 1:
                    place(st[1], r)
            else:
                places(list(st[1:]), r)
                place(st[1], r) if isinstance(st[1], list) else None
            u |= r - k
            if st[0] == "=" and len(st[1]) == 1:
                k.add(st[1][0])
        t = b["t"]
        r = set()
        if t[0] == "call":
            places(t[1], r)
            for o in t[2]:
                places(o, r)
            if t[3] and len(t[3]) > 1:
                place(t[3], r)
        elif t[0] in ("sw", "assert"):
            places(t[1], r)
        elif t[0] == "ret":
            r.add(0)
        u |= r - k
        if t[0] == "call" and t[3] and len(t[3]) == 1:
            k.add(t[3][0])
        use.append(u)
        kill.append(k)
    I = [set() for _ in B]
    change = True
    while change:
        change = False
        for i in range(len(B) - 1, -1, -1):
            o = set().union(*(I[n] for n in succ(B[i]["t"]) if n is not None), set())
            n = use[i] | (o - kill[i])
            if n != I[i]:
                I[i] = n
                change = True
    return I[head]


def run(M, st, c):
    for o in M.explore(st):
        if o.kind == "panic":
            c.obl += 1
            c.fail("panic", f"{o.msg}", o)
            continue
        c.paths += 1
        if o.kind == "ret" and c.panics:
            c.obl += 1
            c.ok += 1
            continue
        yield o


def flat(v):
    return v if isinstance(v, BV) else tuple(flat(x) for x in v.f) if isinstance(v, Agg) else v


def simple(v, F):
    if isinstance(v, BV):
        p = psimp(U(v, F), F)
        return ("n", p.c) if not p.t else ("p", p.key(), p.c)
    if isinstance(v, Agg):
        return (v.v,) + tuple(simple(x, F) for x in v.f)
    return repr(v)


def is_const(s):
    return s[0] == "n" if isinstance(s, tuple) and s and isinstance(s[0], str) else \
        all(is_const(x) if isinstance(x, tuple) else True for x in s[1:]) if isinstance(s, tuple) else True


def two_words(v):
    l = leaves(v) if isinstance(v, Agg) else None
    return l if l and len(l) == 2 else None


def num2(v, F):
    h, l = two_words(v)
    return psimp(padd(U(l, F), U(h, F), 1 << 128), F)


class Off(Exception):
    """the loop does not keep to the relation"""


class Loop:
    def __init__(self, c, what, M, Y, X0, visits):
        self.c, self.what, self.M, self.Y, self.X0 = c, what, M, Y, X0
        self.visits = visits          # iterations to analyse, None: all
        self.roles = None

    def exit(self, o, Q, R, i):
        """the root is S*Q plus a fraction of S in [0, 1) that is zero when R is"""
        rounded(self.c, self.what, o, Q, padd(self.X0, pconst(237 - i)), pconst(0), rest=R)

    def start(self, st):
        """st: the state at the first arrival"""
        f = st.frames[-1]
        self.head = f.bb
        self.live = sorted(live(f.fn, f.bb) & {i for i, v in enumerate(f.L) if v is not None})
        self.first = st.copy()
        s = st.copy()
        s.skip = (f.uid, f.bb)
        arrived = []
        for o in run(self.M, s, self.c):
            if o.kind == "cut":
                arrived.append(o.mem)
            else:
                # left without an iteration
                self.leave(o, 0)
        if not arrived:
            return
        L0 = self.first.frames[-1].L
        names = [l for l in self.live if two_words(L0[l])]
        why = None
        for q in names:
            for r in names:
                if q != r:
                    try:
                        self.relation(self.first, q, r, 0)
                        for t in arrived:
                            self.relation(t, q, r, 1)
                    except Off as e:
                        why = e
                        continue
                    self.roles = q, r
                    break
        if self.roles is None:
            raise Off(why or "no root and remainder found")
        for o in self.left:
            self.exit(o, pconst(1), num2(L0[self.roles[1]], o.F), 0)
        self.induct(arrived)

    left = ()

    def leave(self, o, i):
        self.left = list(self.left) + [o]

    def relation(self, t, q, r, i):
        """q*q + r*S = Y, S | q, 2**237 <= q < 2**238, 0 <= r < 2*q + S"""
        F = t.F
        L = t.frames[-1].L
        S = 1 << 237 - i
        qv, rv = num2(L[q], F), num2(L[r], F)
        Y = self.Y if i <= 1 else self.Yi
        one = [("the relation between root, remainder and operand",
                padd(padd(pmul(qv, qv), rv, S), Y, -1), 0, 0),
               ("the root's lower bound", qv, 1 << 237, None),
               ("the remainder is not negative", rv, 0, None),
               ("the remainder is below twice the root", padd(padd(qv, qv), rv, -1), 1 - S, None)]
        for w, p, lo, hi in one:
            if prove(in_range(p, lo, hi), F.copy(), 5, [p]) is not None:
                raise Off(f"iteration {i}: {w}")
        if any(k % S for k in qv.t.values()) or qv.c % S:
            raise Off(f"iteration {i}: the root is a multiple of {S:#x}")

    def induct(self, arrived):
        c = self.c
        q, r = self.roles
        i = 1
        self.top = math.isqrt(self.first.F.prange(self.Y)[1])
        while arrived:
            if i > 237:
                raise Off("more iterations than digits")
            S = 1 << 237 - i
            # one state for all arrivals
            F = self.first.F.copy()
            s = arrived[0].copy()
            s.F = F
            f = s.frames[-1]
            for l in range(len(f.L)):
                if l not in self.live:
                    f.L[l] = None
            for l in self.live:
                if l in self.roles:
                    continue
                vs = {simple(t.frames[-1].L[l], t.F) for t in arrived}
                if len(vs) > 1:
                    raise Off(f"iteration {i}: another value differs between paths")
                v = simple(f.L[l], F)
                if not is_const(v) and v != simple(self.first.frames[-1].L[l], self.first.F):
                    raise Off(f"iteration {i}: another value changes")
            Qa = op_atom(i + 1, "in", f"Q{i}") if False else new_atom(i + 1, f"Q{i}")
            Ra = new_atom(241, f"R{i}")
            Q, R = (Poly({(basis(a, 0),): 1}, 0) for a in (Qa, Ra))
            F.assume_range(Q, 1 << i, self.top // S)
            F.assume_range(R, 0, None)
            F.assume_range(padd(pscale(Q, 2 * S), R, -1), 1 - S, None)
            z = 237 - i
            qb = (((None, 0, z, False),) if z else ()) + ((Qa, 0, i + 1, False), (None, 0, 18, False))
            f.L[q] = build(mk(256, qb), 2)
            f.L[r] = build(mk(256, ((Ra, 0, 241, False), (None, 0, 15, False))), 2)
            self.Yi = padd(pmul(pscale(Q, S), pscale(Q, S)), R, S)
            s.skip = (f.uid, f.bb)
            s.steps = 0
            s.notes = ()
            self.at = (i, Qa, Ra)
            nxt = []
            for o in run(self.M, s, c):
                if o.kind == "cut":
                    nxt.append(o.mem)
                else:
                    self.exit(o, Q, R, i)
            for t in nxt:
                if t.frames[-1].bb != self.head:
                    raise Off("another loop")
                self.relation(t, q, r, i + 1)
                c.obl += 4
                c.ok += 4
            arrived = nxt
            i += 1


# ------------------------------------------------ single operands
def exact(m, be):
    """bits of the rounded square root of m * 2**(be - 1 + Q0)"""
    u = be - 1 + Q0
    k = 0
    while m >> k & 1 == 0:
        k += 1
    sh = 480 + (u & 1)
    n = m << sh
    v = math.isqrt(n)
    e = (u - sh) // 2
    d = v.bit_length() - 237
    q, low = v >> d, v & ((1 << d) - 1)
    half = 1 << (d - 1)
    if low > half or low == half and (v * v != n or q & 1):
        q += 1
    return q - NORM + ((e + d - Q0 + 1) << 236)


def square_root(a, K, R):
    """q in [2**237, 2**238) with q*q = a modulo 2**K, if a is 1 modulo 8"""
    if a % 8 != 1:
        return None
    q = 1
    for k in range(3, K):
        if (q * q - a) >> k & 1:
            q += 1 << k - 1
    h = 1 << K - 1
    if R.random() < .5:
        q = -q
    q %= h
    lo = 1 << 237
    if q < lo:
        q += -(-(lo - q) // h) * h
    if q < 2 * lo and R.random() < .5 and q + h < 2 * lo:
        q += h
    return q if q < 2 * lo else None


def operands(R, cls, j, odd):
    """operands whose root or remainder is remarkable"""
    while True:
        kind = R.random()
        t = 236 if cls == "norm" else j
        if t > 190 and R.random() < 0.4:
            # a square just below or above a multiple of a power of two
            K = 238 + odd + 236 - t
            d = R.choice((7, 7 - 8 * R.randrange(1, 99), 7 + 8 * R.getrandbits(R.choice((4, 30, 64, 120, 126, 127, 128, 129, 200)))))
            if R.random() < .3:
                d = -(d + 2)
            q = square_root(-d, K, R)
            if q is None:
                continue
            n = q * q + d
            if n % (1 << K) or n < 0:
                continue
            m = n >> K
            if m >> t == 1:
                kind = 9
        if kind == 9:
            pass
        elif kind < 0.2:
            m = R.getrandbits(t) | 1 << t
        elif kind < 0.4:
            m = (1 << t) | witness.sparse(R, t) if t else 1
        elif kind < 0.55:
            m = (1 << t + 1) - 1 - (witness.sparse(R, max(t - 1, 1)) if t > 1 else 0)
        else:
            # a short root, squared, and a little more or less
            b = R.randint(1, max(1, min(118, t // 2)))
            a = 1 << b | R.getrandbits(b)
            m = a * a
            m = m << t - m.bit_length() + 1 if m.bit_length() <= t + 1 else m >> m.bit_length() - t - 1
            m += R.choice((0, 0, 1, -1, 2, -2, R.randrange(-99, 100)))
        m &= (2 << t) - 1
        if m >> t != 1:
            continue
        if cls != "norm":
            return m, 1
        be = R.choice((1, 2, 3, EMAX - 1, EMAX - 2, 262143, 262144, R.randint(1, EMAX - 1)))
        if (be - 1 & 1) != odd:
            be += 1 if be < EMAX - 1 else -1
        return m, be


def single(c, what, m, be):
    """follow the code for one operand; the result differs from the root"""
    F = Facts()
    bits = (m & NORM - 1) + ((be if m >> 236 else 0) << 236)
    v = f256v(const(128, bits >> 128), const(128, bits & (1 << 128) - 1))
    M = c.machine()
    key = c.P.entries["probe::sqrt"]
    for o in M.run(key, [v], F):
        if o.kind == "panic":
            c.obl += 1
            c.fail(f"{what}: panic for the operand {bits:#x}", o.msg, definite=True)
            return True
        got = psimp(fbits(o.val, o.F), o.F)
        want = exact(m, be)
        if got.t:
            raise Imprecise("result of a single operand is not a constant")
        if got.c != want:
            c.obl += 1
            c.fail(f"{what}: rounded square root", f"operand {bits:#x}: result {got.c:#x}, correctly rounded {want:#x}",
                   definite=True)
            return True
    return False


def candidates(c, L, cls, j, odd, seconds):
    """operands that reach the abstract states in which an obligation stayed
    open, then others"""
    R = random.Random(7)
    end = time.time() + seconds
    t = 236 if cls == "norm" else j
    for m in sorted({(2 << t) - 1, 1 << t, (1 << t) + (t > 0), (2 << t) - 1 - (t > 0), (2 << t) - 1 - (t > 1) * 2}):
        for be in ((1, EMAX - 1, 262142, 262143) if cls == "norm" else (1,)):
            if (cls != "norm" or (be - 1 & 1) == odd) and single(c, L.what, m, be):
                return True
    while time.time() < end:
        if single(c, L.what, *operands(R, cls, j, odd)):
            return True
    return False


def root(c, cls, odd, j=None):
    F = Facts()
    x = FX(F, "x", cls, 0)
    what = f"sqrt of a {'normal' if cls == 'norm' else 'subnormal'} number"
    if cls == "norm":
        F.set_bits(x.ea, 0, 1, 1 - odd)
        h = padd(Poly({(basis(x.ea, 1),): 1}, 0), pconst(-odd))
        m = x.m
        X0 = padd(h, pconst(-Q0 // 2 - 119))
    else:
        msb_range(F, x, j)
        odd = j & 1
        m = pscale(x.m, 1 << 236 - j)
        X0 = pconst((Q0 - 236 + j - odd - 238) // 2 - Q0)
    M = c.machine()
    M.recombine = False
    M.cut = heads
    keep = c.obl, c.ok, list(c.viol)
    L = Loop(c, what, M, pscale(m, 1 << 238 + odd), X0, None)
    st = State([], F)
    M.push(st, c.P.entries["probe::sqrt"], c.P.fns[c.P.entries["probe::sqrt"]], [x.val], None, None)
    why = None
    try:
        n = 0
        for o in run(M, st, c):
            if o.kind == "cut":
                n += 1
                L.roles, L.left = None, ()
                L.start(o.mem)
            else:
                # no iteration at all
                raise Off("returned without a loop")
        if n == 0 and not c.panics:
            raise Off("no loop")
    except Off as e:
        why = str(e)
    except (Imprecise, NeedSplit) as e:
        why = f"the analysis could not follow the code: {e}"
    finally:
        c.steps += M.stat_steps
        for k in M.fns_seen:
            c.fns.add(c.P.fns[k]["name"])
    if c.panics:
        if why is not None:
            c.fail("analysable", why)
        return
    if why is None and len(c.viol) == len(keep[2]):
        return
    # open obligations alone decide nothing: is some root really wrong?
    viol = c.viol[len(keep[2]):]
    c.viol[:] = keep[2]
    if not candidates(c, L, cls, j, odd, 20):
        c.obl, c.ok, c.viol = keep[0], keep[1], keep[2] + viol
        for v in viol:
            v["confirmed"] = False
        if why is not None:
            c.obl += 1
            c.fail("analysable", why)


def special(c, cls, sign):
    F = Facts()
    x = FX(F, "x", cls, sign)
    what = f"sqrt({'-' if sign else ''}{x.base})"
    for o in c.explore("sqrt", [x.val], F):
        if x.base == "nan" or sign and x.base != "zero":
            is_nan(c, what, o)
        else:
            is_exact(c, what, o, x.bits)


def sqrt_jobs(tier):
    J = [Job(f"sqrt/{cls} {'-+'[1 - s]}", special, cls, s)
         for cls in ("nanh", "nanl", "inf", "zero", "subh", "subl", "norm") for s in (0, 1)
         if s or cls[:3] not in ("sub", "nor")]
    J += [Job(f"sqrt/normal, exponent {'odd' if odd else 'even'}", root, "norm", odd) for odd in (0, 1)]
    for j in sel(range(236), (0, 1, 2, 127, 128, 234, 235), tier, 91, 3):
        J.append(Job(f"sqrt/subnormal, top bit {j}", root, "sub", j & 1, j))
    return J
