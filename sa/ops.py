"""Transfer functions of the machine operations on the numeric domain."""
from dom import *
import dom

SPLIT_MAX = 700


def bits(b, F):
    if b.p is None:
        return from_poly(b.sp, b.w, F)
    return F.simp(b)


def psimp(p, F):
    """drop floor terms whose value is fixed by the path facts"""
    if not p.t:
        return p
    hit = None
    for m in p.t:
        for i in m:
            a, k = BASIS[i]
            if a.kind == "in" and a.id not in F.known and a.id not in F.rng:
                continue
            l, h = F.range_F(a, k)
            if l == h:
                if hit is None:
                    hit = {}
                hit[i] = l
    if not hit:
        return p
    out = pconst(p.c)
    for m, c in p.t.items():
        mm = []
        for i in m:
            if i in hit:
                c *= hit[i]
            else:
                mm.append(i)
        if c:
            out = padd(out, Poly({tuple(mm): 1}, 0) if mm else pconst(1), c)
    return out


def U(b, F):
    if b.p is None:
        b = from_poly(b.sp, b.w, F)
    else:
        b = F.simp(b)
    return psimp(upoly(b), F)


def S(b, F):
    if b.sp is not None:
        return psimp(b.sp, F)
    b = F.simp(b)
    if b.isconst():
        v = cval(b)
        return pconst(v - (1 << b.w) if v >> (b.w - 1) else v)
    u = psimp(upoly(b), F)
    t = b.p[-1]
    if t[0] is None:
        return padd(u, pconst(1 << b.w), -1) if (t[1] >> (t[2] - 1)) & 1 else u
    l, h = F.prange(u)
    if h < 1 << (b.w - 1):
        return u
    if l >= 1 << (b.w - 1):
        return padd(u, pconst(1 << b.w), -1)
    a, lo, n, neg = t
    tp = upoly(BV(1, ((a, lo + n - 1, 1, neg),)))
    return padd(u, tp, -(1 << b.w))


def from_poly(Q, w, F):
    if not Q.t:
        return const(w, Q.c)
    lo, hi = F.prange(Q)
    if lo == hi:
        return const(w, lo)
    M = 1 << w
    if lo >> w == hi >> w:
        B = padd(Q, pconst((lo >> w) << w), -1)
    else:
        A, B = split_whole(Q, w)
        lb, hb = F.prange(B)
        if lb >> w == hb >> w:
            B = padd(B, pconst((lb >> w) << w), -1)
            if not B.t:
                return const(w, B.c)
        else:
            b = lin_atom(B)
            r = BV(w, mk(w, lin_slice_pieces(b, 0, w)).p)
            r._up = padd(B, canonF(b, w), -M)
            return r
    pp = poly_to_pieces(B, w)
    if pp is not None:
        return mk(w, pp)
    b = lin_atom(B)
    r = BV(w, ((b, 0, w, False),) if b.w is None or b.w >= w else
           ((b, 0, b.w, False), (None, 0, w - b.w, False)))
    r._up = B
    return r


def lt0(diff, F):
    """1-bit BV: diff < 0"""
    lo, hi = F.prange(diff)
    if hi < 0:
        return const(1, 1)
    if lo >= 0:
        return const(1, 0)
    diff = strip_low(diff)[0]
    lo, hi = F.prange(diff)
    if hi < 0:
        return const(1, 1)
    if lo >= 0:
        return const(1, 0)
    if hi == 0:
        return bnot(eq0(diff, F))
    if lo == -1:
        return eq0(padd(diff, pconst(1)), F)
    a = lin_atom(diff)
    l, h = a.rng
    K = max(h.bit_length(), (-l - 1).bit_length() if l < 0 else 0)
    r = BV(1, ((a, K, 1, False),))
    return F.simp(r)


def eq0(diff, F):
    if not diff.t:
        return const(1, int(diff.c == 0))
    lo, hi = F.prange(diff)
    if lo > 0 or hi < 0:
        return const(1, 0)
    if lo == hi == 0:
        return const(1, 1)
    k, g, s = normkey(diff)
    if diff.c % g:
        return const(1, 0)
    v = -diff.c // g * s
    ne = F.ne.get(k)
    if ne and v in ne:
        return const(1, 0)
    # low bits of the difference: a non-zero residue settles it
    a = op_atom(1, "eq0", (k, -v))
    l, h = F.range_piece(a, 0, 1)
    if l == h:
        return const(1, l)
    # single 1-bit piece
    if len(k) == 1 and len(k[0][0]) == 1 and v in (0, 1):
        at, kk = BASIS[k[0][0][0]]
        if at.kind != "lin" and at.w == kk + 1:
            return BV(1, ((at, kk, 1, v == 0),))
    return BV(1, ((a, 0, 1, False),))


def bnot(b):
    if b.isconst():
        return const(b.w, ~cval(b))
    return BV(b.w, tuple(
        (None, ~lo & ((1 << n) - 1), n, False) if a is None else (a, lo, n, not neg)
        for a, lo, n, neg in b.p))


def inv(q):
    a, lo, n, neg = q
    if a is None:
        return (None, ~lo & ((1 << n) - 1), n, False)
    return (a, lo, n, not neg)


def qkey(q):
    return (q[0].id if q[0] is not None else -1, q[1], q[2], q[3])


def bitop(op, x, y, F):
    x = bits(x, F)
    y = bits(y, F)
    w = x.w
    if x.isconst() and y.isconst():
        a, b = cval(x), cval(y)
        return const(w, a & b if op == "and" else a | b if op == "or" else a ^ b)
    px, py = list(x.p), list(y.p)
    out = []
    i = j = 0
    ox = oy = 0
    while i < len(px):
        a = px[i]
        b = py[j]
        n = min(a[2] - ox, b[2] - oy)
        sa = sub(a, ox, n)
        sb = sub(b, oy, n)
        out.extend(bit1(op, sa, sb, F))
        ox += n
        oy += n
        if ox == a[2]:
            i += 1
            ox = 0
        if oy == b[2]:
            j += 1
            oy = 0
    return F.simp(mk(w, out))


def sub(q, o, n):
    a, lo, m, neg = q
    if a is None:
        return (None, (lo >> o) & ((1 << n) - 1), n, False)
    return (a, lo + o, n, neg)


def runs(v, n):
    i = 0
    while i < n:
        b = (v >> i) & 1
        j = i
        while j < n and (v >> j) & 1 == b:
            j += 1
        yield i, j - i, b
        i = j


def expand(p):
    """rewrite floors of sums so that nested carries meet"""
    out = pconst(p.c)
    for m, c in p.t.items():
        q = None
        if len(m) == 1:
            a, k = BASIS[m[0]]
            if a.kind == "lin" and k:
                A, B = split_terms(a.poly, k)
                if A.t or A.c:
                    q = padd(A, canonF(lin_atom(B), k))
        out = padd(out, q if q is not None else Poly({m: 1}, 0), c)
    return out


def split_terms(p, k):
    mask = (1 << k) - 1
    A = {}
    B = {}
    for m, c in p.t.items():
        if c & mask == 0:
            A[m] = c >> k
        else:
            B[m] = c
    return Poly(A, p.c >> k), Poly(B, p.c & mask)


def bit1(op, a, b, F):
    n = a[2]
    if b[0] is None:
        a, b = b, a
    if a[0] is None:
        if b[0] is None:
            v = a[1] & b[1] if op == "and" else a[1] | b[1] if op == "or" else a[1] ^ b[1]
            return [(None, v, n, False)]
        out = []
        for o, m, bit in runs(a[1], n):
            q = sub(b, o, m)
            if op == "and":
                out.append(q if bit else (None, 0, m, False))
            elif op == "or":
                out.append((None, (1 << m) - 1, m, False) if bit else q)
            else:
                out.append(inv(q) if bit else q)
        return out
    if a[0] is b[0] and a[1] == b[1]:
        if a[3] == b[3]:
            return [a] if op != "xor" else [(None, 0, n, False)]
        if op == "and":
            return [(None, 0, n, False)]
        return [(None, (1 << n) - 1, n, False)]
    if n == 1:
        if op == "or":
            # two flags that exclude each other add up to one flag
            sp = padd(psimp(upoly(BV(1, (a,))), F), psimp(upoly(BV(1, (b,))), F))
            if len(sp.t) <= 6:
                l, h = F.prange(sp)
                if h > 1:
                    l, h = F.prange(expand(sp))
                    if 0 <= l and h <= 1:
                        F.assume_range(sp, 0, 1)
                if 0 <= l and h <= 1:
                    r = from_poly(sp, 1, F)
                    if len(r.p) == 1:
                        return list(r.p)
        # bits fixed by the facts
        l, h = F.bit_range(a)
        if l == h:
            return bit1(op, (None, l, 1, False), b, F)
        l, h = F.bit_range(b)
        if l == h:
            return bit1(op, a, (None, l, 1, False), F)
    else:
        # leading zeros by range: x | y with one side known zero
        for u, v in ((a, b), (b, a)):
            l, h = F.q_range(u)
            if h.bit_length() < n:
                m = h.bit_length()
                lowr = bit1(op, sub(a, 0, m), sub(b, 0, m), F) if m else []
                hv = sub(v, m, n - m)
                if op == "and":
                    return lowr + [(None, 0, n - m, False)]
                return lowr + [hv]
    neg = False
    if op == "xor":
        neg = a[3] != b[3]
        a = (a[0], a[1], a[2], False)
        b = (b[0], b[1], b[2], False)
    if qkey(a) > qkey(b):
        a, b = b, a
    at = op_atom(n, op, a, b)
    return [(at, 0, n, neg)]


def zext(b, w, F):
    b = bits(b, F)
    if w == b.w:
        return b
    r = mk(w, b.p + ((None, 0, w - b.w, False),))
    if b._up is not None and r._up is None:
        r = BV(w, r.p)
        r._up = b._up
    return r


def trunc(b, w, F):
    b = bits(b, F)
    return mk(w, slice_pieces(b.p, 0, w))


def sext(b, w, F):
    s = S(b, F)
    if not s.t:
        return const(w, s.c)
    l, h = F.prange(s)
    if l >= 0:
        return zext(b, w, F)
    return BV(w, None, s)


def cast(b, w, signed_src, F):
    if w < b.w:
        if b.sp is not None:
            l, h = F.prange(b.sp)
            if -(1 << (w - 1)) <= l and h < 1 << (w - 1):
                return BV(w, None, b.sp)
        return trunc(b, w, F)
    if w == b.w:
        return b
    return sext(b, w, F) if signed_src else zext(b, w, F)


def amount(b, F, why):
    """concrete value of a small operand, else ask for a case split"""
    u = U(b, F)
    if not u.t:
        return u.c
    l, h = F.prange(u)
    if l == h:
        return l
    split_values(u, l, h, why)


def split_values(u, l, h, why):
    if h - l > SPLIT_MAX:
        raise Imprecise(f"{why}: operand range [{l},{h}] too wide: {u}")
    raise NeedSplit([(lambda F, v=v: F.assume_range(u, v, v))
                     for v in range(l, h + 1)], why)


def shl(b, n, F):
    b = bits(b, F)
    if n >= b.w:
        raise Imprecise("shift too wide")
    if n == 0:
        return b
    return mk(b.w, [(None, 0, n, False)] + slice_pieces(b.p, 0, b.w - n))


def shr(b, n, F):
    b = bits(b, F)
    if n >= b.w:
        raise Imprecise("shift too wide")
    if n == 0:
        return b
    return mk(b.w, slice_pieces(b.p, n, b.w - n) + [(None, 0, n, False)])


def sar(b, n, F):
    if n == 0:
        return b
    s = S(b, F)
    if not s.t:
        return const(b.w, s.c >> n)
    return BV(b.w, None, floor_poly(s, n, None, F.prange))


def clamp(p, w, signed, F):
    l, h = F.prange(p)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    return max(l, lo), min(h, hi)


def arith(op, x, y, w, signed, F):
    """-> (exact poly) for Add/Sub/Mul"""
    g = S if signed else U
    a, b = g(x, F), g(y, F)
    if op == "Add":
        Q = padd(a, b)
    elif op == "Sub":
        Q = padd(a, b, -1)
    else:
        Q = pmul(a, b)
    if Q.t and (len(a.t) > 1 or len(b.t) > 1):
        la, ha = clamp(a, w, signed, F)
        lb, hb = clamp(b, w, signed, F)
        if op == "Add":
            lo, hi = la + lb, ha + hb
        elif op == "Sub":
            lo, hi = la - hb, ha - lb
        else:
            xs = (la * lb, la * hb, ha * lb, ha * hb)
            lo, hi = min(xs), max(xs)
        l, h = F.prange(Q)
        if l < lo or h > hi:
            F.assume_range(Q, lo, hi)
    return Q


def wrap(Q, w, signed, F):
    if signed:
        l, h = F.prange(Q)
        if -(1 << (w - 1)) <= l and h < 1 << (w - 1):
            if l == h:
                return const(w, l)
            return BV(w, None, Q)
    return from_poly(Q, w, F)


def overflow(Q, w, signed, F):
    l, h = F.prange(Q)
    if signed:
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    else:
        lo, hi = 0, (1 << w) - 1
    if lo <= l and h <= hi:
        return const(1, 0)
    if l > hi or h < lo:
        return const(1, 1)
    if not signed and (-1 <= l >> w and h >> w <= 0 or 0 <= l >> w and h >> w <= 1):
        C = canonF(lin_atom(Q), w)
        if l < 0:
            C = pscale(C, -1)
        cl, ch = F.prange(C)
        if cl < 0 or ch > 1:
            F.assume_range(C, 0, 1)
        return from_poly(C, 1, F)
    if l >= lo:
        return lt0(padd(pconst(hi), Q, -1), F)
    if h <= hi:
        return lt0(padd(Q, pconst(lo), -1), F)
    return bitop("or", lt0(padd(Q, pconst(lo), -1), F),
                 lt0(padd(pconst(hi), Q, -1), F), F)


def clz(b, F):
    b = bits(b, F)
    if b.isconst():
        return const(32, b.w - cval(b).bit_length())
    # constant zeros on top
    top = 0
    p = list(b.p)
    while p and p[-1][0] is None and p[-1][1] == 0:
        top += p.pop()[2]
    if p and p[-1][0] is None:
        return const(32, top + p[-1][2] - p[-1][1].bit_length())
    u = U(b, F)
    l, h = F.prange(u)
    lo, hi = b.w - h.bit_length(), b.w - max(l, 0).bit_length()
    if lo == hi:
        return const(32, lo)
    if len(u.t) > 1 and hi - lo <= 3:
        from poly import lp_range
        l, h = lp_range(F, u)
        F.assume_range(u, l, h)
        lo, hi = b.w - h.bit_length(), b.w - max(l, 0).bit_length()
        if lo == hi:
            return const(32, lo)
    a = op_atom(32, "clz", (u.key(), u.c), b.w, rng=(0, b.w))
    l2, h2 = F.range_piece(a, 0, 32)
    if l2 == h2:
        return const(32, l2)
    k = b.w.bit_length()
    return mk(32, ((a, 0, k, False), (None, 0, 32 - k, False)))


def ctz(b, F):
    b = bits(b, F)
    if b.isconst():
        v = cval(b)
        return const(32, (v & -v).bit_length() - 1 if v else b.w)
    low = 0
    for q in b.p:
        if q[0] is None and q[1] == 0:
            low += q[2]
            continue
        if q[0] is None:
            return const(32, low + (q[1] & -q[1]).bit_length() - 1)
        break
    # a known one bit bounds the result
    pos = 0
    hi = b.w
    for q in b.p:
        if q[0] is None and q[1]:
            hi = pos + (q[1] & -q[1]).bit_length() - 1
            break
        pos += q[2]
    a = op_atom(32, "ctz", b.p, b.w, rng=(low, hi))
    k = b.w.bit_length()
    return F.simp(mk(32, ((a, 0, k, False), (None, 0, 32 - k, False))))


def divrem(x, y, w, signed, F):
    """-> (q, r) BVs"""
    if signed:
        a, b = S(x, F), S(y, F)
        la, ha = F.prange(a)
        lb, hb = F.prange(b)
        if la < 0 <= ha:
            raise NeedSplit([lambda F: F.assume_range(a, 0, None),
                             lambda F: F.assume_range(a, None, -1)], "sign of dividend")
        if lb < 0 <= hb:
            raise NeedSplit([lambda F: F.assume_range(b, 0, None),
                             lambda F: F.assume_range(b, None, -1)], "sign of divisor")
        na, nb = ha < 0, hb < 0
        if na:
            a = pscale(a, -1)
        if nb:
            b = pscale(b, -1)
        q, r = udivrem(a, b, w, F)
        if na != nb:
            q = pscale(q, -1)
        if na:
            r = pscale(r, -1)
        return wrap(q, w, True, F), wrap(r, w, True, F)
    q, r = udivrem(U(x, F), U(y, F), w, F)
    return from_poly(q, w, F), from_poly(r, w, F)


WORDS = []          # word sizes a quotient is compared with


def udivrem(a, b, w, F):
    if not a.t and not b.t:
        return pconst(a.c // b.c), pconst(a.c % b.c)
    la, ha = F.prange(a)
    lb, hb = F.prange(b)
    if ha < lb:
        return pconst(0), a
    if not b.t:
        c = b.c
        if c & (c - 1) == 0:
            k = c.bit_length() - 1
            q = floor_poly(a, k, None, F.prange)
            return q, padd(a, q, -c)
        if la // c == ha // c:
            return pconst(la // c), padd(a, pconst(la // c * c), -1)
    qa = op_atom(w, "div", (a.key(), a.c), (b.key(), b.c))
    q = Poly({(basis(qa, 0),): 1}, 0)
    r = padd(a, pmul(q, b), -1)
    ql, qh = la // max(hb, 1), ha // max(lb, 1)
    for k in range(max(ql.bit_length(), 1) - 1, qh.bit_length())[:6]:
        # a known order of the dividend and 2**k times the divisor
        dl, dh = F.prange(padd(a, b, -1 << k))
        if dl >= 0:
            ql = max(ql, 1 << k)
        if dh < 0:
            qh = min(qh, (1 << k) - 1)
    for k in WORDS:
        if qh >> k and F.prange(padd(a, b, -1 << k))[1] < 0:
            qh = min(qh, (1 << k) - 1)
    F.assume_range(q, ql, qh)
    F.assume_range(r, 0, hb - 1)
    if b.t:
        F.assume_range(padd(b, r, -1), 1, None)
    for k in (128, 256, 512):
        if (hb - 1) >> k == 0 and k < 2 * w:
            # the words above the remainder are zero
            z = canonF(lin_atom(r), k)
            if z.t:
                F.assume_range(z, 0, 0)
            break
    return q, r


MODS = {}


def umod(a, b, w, F):
    """the remainder of a by b alone: one atom per residue, so that chained
    reductions (a * 2**m % b) * 2**n % b meet the direct one a * 2**(m+n) % b"""
    la, ha = F.prange(a)
    lb, hb = F.prange(b)
    if ha < lb or not b.t:
        return udivrem(a, b, w, F)[1]
    if la // max(hb, 1) == ha // max(lb, 1):
        return padd(a, b, -(la // max(hb, 1)))
    base, n = twos(a)
    if base.c == 0 and len(base.t) == 1:
        (m, k), = base.t.items()
        if k == 1 and len(m) == 1 and BASIS[m[0]][1] == 0 and BASIS[m[0]][0].kind == "mod":
            at = BASIS[m[0]][0]
            (bk, bc), n0, dv = at.args
            if dv == (b.key(), b.c):
                base, n = Poly(dict(bk), bc), n + n0
    return mod_atom(base, n, b, w, F)


def twos(a):
    v = [x for x in a.t.values()] + ([a.c] if a.c else [])
    n = min((x & -x).bit_length() - 1 for x in v)
    return Poly({m: x >> n for m, x in a.t.items()}, a.c >> n), n


def mod_atom(base, n, b, w, F):
    bk, dv = (base.key(), base.c), (b.key(), b.c)
    hb = F.prange(b)[1]
    at = op_atom(hb.bit_length(), "mod", bk, n, dv)
    MODS.setdefault((bk, dv), {})[n] = at
    r = Poly({(basis(at, 0),): 1}, 0)
    lo = 0
    for m, t in MODS[(bk, dv)].items():
        # a zero residue stays zero
        if m > n and F.range_F(t, 0)[0] > 0:
            lo = 1
        if m < n and F.range_F(t, 0)[1] == 0:
            F.assume_range(r, 0, 0)
    F.assume_range(r, lo, hb - 1)
    F.assume_range(padd(b, r, -1), 1, None)
    return r


def decide(b, F, why="branch"):
    """value of a 1-bit BV or a case split"""
    b = bits(b, F)
    if b.isconst():
        return cval(b)
    q = b.p[0]
    l, h = F.bit_range(q)
    if l == h:
        return l
    raise NeedSplit([lambda F: F.assume_bit(q, 1), lambda F: F.assume_bit(q, 0)], why)
