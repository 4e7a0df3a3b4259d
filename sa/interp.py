"""Path-wise abstract interpreter for the extracted MIR."""
import json
import sys
from ops import *

sys.setrecursionlimit(20000)


class Agg:
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __repr__(self):
        return f"{self.v}{list(self.f)}"


class Ptr:
    """pointer into a frame local ('l', frame uid, local) or a constant
    allocation ('a', id, byte offset); path = field/index steps"""
    __slots__ = ("k", "a", "b", "path", "meta", "ty")

    def __init__(self, k, a, b, path=(), meta=None, ty=None):
        self.k = k
        self.a = a
        self.b = b
        self.path = path
        self.meta = meta
        self.ty = ty

    def with_(self, path=None, meta="keep", ty="keep", b=None):
        return Ptr(self.k, self.a, self.b if b is None else b,
                   self.path if path is None else path,
                   self.meta if meta == "keep" else meta,
                   self.ty if ty == "keep" else ty)

    def __repr__(self):
        return f"&{self.k}{self.a}:{self.b}{list(self.path)}" + (
            f"#{self.meta}" if self.meta is not None else "")


class FnVal:
    __slots__ = ("key", "env")

    def __init__(self, key, env=False):
        """env: a closure coerced to a function pointer (its body takes the
        empty environment as first argument)"""
        self.key = key
        self.env = env


UNIT = Agg(0, ())


class Program:
    def __init__(self, path=None, data=None):
        d = data if data is not None else json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.allocs = d["allocs"]
        self.entries = dict(d["entries"])
        self.values = d.get("values", [])
        self._dec = {}
        self._cc = {}
        self._bytes = {}
        self.anon = {}
        for t in self.types:
            l = t.get("lay")

    def alloc_bytes(self, aid):
        b = self._bytes.get(aid)
        if b is None:
            a = self.allocs[str(aid)] if not isinstance(aid, str) else self.anon[aid]
            b = bytes.fromhex(a["b"])
            rel = {o: p for o, p in a.get("p", [])}
            b = (b, rel)
            self._bytes[aid] = b
        return b

    def size(self, ti):
        t = self.types[ti]
        k = t["k"]
        if k == "int":
            return t["w"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k == "float":
            return {"F16": 2, "F32": 4, "F64": 8, "F128": 16}[t["s"]]
        if k == "ptr":
            e = self.types[t["e"]]["k"]
            return 16 if e in ("slice", "str", "dyn") else 8
        if k == "pat":
            return self.size(t["e"])
        if k == "never":
            return 0
        if k in ("fndef",):
            return 0
        if k == "fnptr":
            return 8
        return t["lay"]["size"]

    def decode(self, data, off, ti):
        """value of type ti at byte offset off of data=(bytes, relocs)"""
        t = self.types[ti]
        k = t["k"]
        b, rel = data
        if k in ("int", "bool", "char", "float"):
            n = self.size(ti)
            w = 1 if k == "bool" else n * 8
            return const(w, int.from_bytes(b[off:off + n], "little"))
        if k == "pat":
            return self.decode(data, off, t["e"])
        if k == "ptr":
            et = self.types[t["e"]]
            meta = None
            if et["k"] in ("slice", "str"):
                meta = const(64, int.from_bytes(b[off + 8:off + 16], "little"))
            if off in rel:
                o = int.from_bytes(b[off:off + 8], "little")
                return Ptr("a", rel[off], o, (), meta, t["e"])
            return Ptr("n", 0, int.from_bytes(b[off:off + 8], "little"), (), meta, t["e"])
        if k == "array":
            st = t["lay"].get("stride")
            if st is None:
                st = self.size(t["e"])
            return Agg(0, tuple(self.decode(data, off + i * st, t["e"])
                                for i in range(t["n"])))
        if k == "tuple":
            offs = t["lay"].get("offsets", [])
            return Agg(0, tuple(self.decode(data, off + o, f)
                                for o, f in zip(offs, t["f"])))
        if k == "adt":
            vi, offs = self.variant_of(data, off, t)
            v = t["v"][vi]
            return Agg(vi, tuple(self.decode(data, off + o, f[1])
                                 for o, f in zip(offs, v["f"])))
        if k == "closure":
            return Agg(0, tuple(self.decode(data, off + o, f) for o, f in
                                zip(t["lay"].get("offsets", []), t["up"])))
        if k == "fndef":
            return FnVal(t["inst"])
        if k == "fnptr":
            if off in rel:
                a = self.allocs[str(rel[off])]
                if "fn" in a:
                    return FnVal(a["fn"])
        raise Imprecise(f"decode {t}")

    def variant_of(self, data, off, t):
        lay = t["lay"]
        if "multi" in lay:
            m = lay["multi"]
            b, rel = data
            offs = lay.get("offsets", [0])
            to = off + (offs[m["tag_field"]] if offs else 0)
            ts = m["tag_size"]
            tag = int.from_bytes(b[to:to + ts], "little")
            if m["enc"] == "direct":
                for i, d in enumerate(t["d"]):
                    if int(d) & ((1 << (8 * ts)) - 1) == tag:
                        return i, m["variants"][i]
                raise Imprecise("bad tag")
            e = m["enc"]
            isptr = to in rel
            rl = (tag - int(e["start"])) & ((1 << (8 * ts)) - 1)
            n = e["hi"] - e["lo"]
            vi = e["lo"] + rl if (not isptr and rl <= n) else e["untagged"]
            return vi, m["variants"][vi]
        if t["kind"] == "Enum":
            return lay.get("single", 0), lay.get("offsets", [])
        return 0, lay.get("offsets", [])

    def layout_variant(self, ti):
        return self.types[ti]


class Frame:
    __slots__ = ("uid", "fn", "L", "bb", "si", "dest", "ret", "loop")

    def __init__(self, uid, fn, L, dest, ret):
        self.uid = uid
        self.fn = fn
        self.L = L
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.ret = ret

    def copy(self):
        f = Frame(self.uid, self.fn, list(self.L), self.dest, self.ret)
        f.bb = self.bb
        f.si = self.si
        return f


class State:
    __slots__ = ("frames", "F", "steps", "notes", "skip")

    def __init__(self, frames, F):
        self.skip = None
        self.frames = frames
        self.F = F
        self.steps = 0
        self.notes = ()

    def copy(self):
        s = State([f.copy() for f in self.frames], self.F.copy())
        s.steps = self.steps
        s.notes = self.notes
        s.skip = self.skip
        return s


class Outcome:
    __slots__ = ("kind", "val", "F", "msg", "stack", "mem", "notes")

    def __init__(self, kind, val, F, msg=None, stack=None, mem=None):
        self.kind = kind
        self.val = val
        self.F = F
        self.msg = msg
        self.stack = stack
        self.mem = mem
        self.notes = ()

    def __repr__(self):
        return f"<{self.kind} {self.msg or ''} {self.val}>"


class Panic(Exception):
    pass


def is_uninit(v):
    return v is None


class Machine:
    def __init__(self, prog, overflow_checks=False, max_steps=400000,
                 max_paths=20000, summaries=None, recombine=True, trace=None, hook=None):
        self.hook = hook
        self.cut = None
        self.P = prog
        self.oc = overflow_checks
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.uid = 0
        self.paths = 0
        self.stat_steps = 0
        self.fns_seen = set()
        self.summaries = summaries or {}
        self.sumcache = {}
        self.recombine = recombine
        self.fmeta = {}
        self.trace = trace
        self.splits = {}
        self.ccache = {}

    # ------------------------------------------------------------- running
    def run(self, key, args, F, max_paths=None):
        """yield outcomes of calling function `key` with argument values"""
        fn = self.P.fns[key]
        st = State([], F)
        # pointers in args refer to a root frame holding the objects
        self.push(st, key, fn, args, None, None)
        yield from self.explore(st, max_paths)

    def explore(self, st, max_paths=None):
        work = [st]
        n = 0
        lim = max_paths or self.max_paths
        while work:
            s = work.pop()
            try:
                out = self.go(s)
            except Contradiction:
                continue
            except NeedSplit as e:
                self.splits[e.why] = self.splits.get(e.why, 0) + 1
                at = (s.frames[-1].fn.get("name"), self.line(s.frames[-1]), e.why)
                for ai, alt in reversed(list(enumerate(e.alts))):
                    c = s.copy()
                    c.notes = s.notes + (at + (ai,),)
                    try:
                        alt(c.F)
                    except Contradiction:
                        continue
                    work.append(c)
                if len(work) > lim:
                    raise Imprecise("too many paths")
                continue
            except Imprecise as e:
                st_ = self.where(s)
                raise Imprecise(f"{e} at {st_}") from None
            n += 1
            out.notes = s.notes
            self.paths += 1
            if n > lim:
                raise Imprecise("too many paths")
            yield out

    def where(self, s):
        return " < ".join(f"{(f.fn or {}).get('name','?')}:{self.line(f)}" for f in reversed(s.frames[-4:]))

    def line(self, f):
        if f.fn is None:
            return "?"
        b = f.fn["blocks"][f.bb]
        if f.si < len(b["s"]):
            st = b["s"][f.si]
            if st[0] == "=":
                return st[3]
        t = b["t"]
        if t[0] == "call":
            return t[5].split(":")[-2]
        if t[0] == "assert":
            return t[5].split(":")[-2]
        return "?"

    def push(self, st, key, fn, args, dest, ret):
        if "blocks" not in fn:
            raise Imprecise(f"call of {fn['name']} without body")
        self.fns_seen.add(key)
        L = [None] * len(fn["locals"])
        if fn.get("spread") is not None and len(args) != fn["nargs"]:
            k = fn["spread"]
            pre = args[:k - 1]
            L[1:1 + len(pre)] = pre
            L[k] = Agg(0, tuple(args[k - 1:]))
        elif len(args) != fn["nargs"] and len(args) >= 1 and fn["nargs"] > 0 \
                and isinstance(args[-1], Agg) and \
                len(args) - 1 + len(args[-1].f) == fn["nargs"]:
            a = list(args[:-1]) + list(args[-1].f)
            L[1:1 + len(a)] = a
        else:
            if len(args) != fn["nargs"]:
                raise Imprecise(f"arity {fn['name']} {len(args)} {fn['nargs']}")
            L[1:1 + len(args)] = args
        self.uid += 1
        st.frames.append(Frame(self.uid, fn, L, dest, ret))
        if len(st.frames) > 200:
            raise Imprecise("call depth")

    def go(self, s):
        while True:
            f = s.frames[-1]
            if self.cut is not None:
                heads = self.cut(f.fn)
                if f.bb in heads:
                    # the head of a loop: handed back unless resumed here
                    if s.skip != (f.uid, f.bb):
                        return Outcome("cut", None, s.F, None, None, s)
                elif heads and s.skip and s.skip[0] == f.uid:
                    s.skip = None
            blk = f.fn["blocks"][f.bb]
            ss = blk["s"]
            while f.si < len(ss):
                st = ss[f.si]
                k = st[0]
                if k == "=":
                    v = self.rvalue(s, f, st[2], st[1])
                    self.store(s, f, st[1], v)
                elif k == "sd":
                    v = self.read_place(s, f, st[1])
                    flds = v.f if isinstance(v, Agg) else ()
                    self.store(s, f, st[1], Agg(st[2], flds))
                elif k == "cno":
                    src = self.operand(s, f, st[1])
                    dst = self.operand(s, f, st[2])
                    cnt = amount(self.operand(s, f, st[3]), s.F, "copy count")
                    for i in range(cnt):
                        v = self.load(s, self.ptr_add(src, i) if i else src)
                        self.store_ptr(s, self.ptr_add(dst, i) if i else dst, v)
                f.si += 1
                s.steps += 1
                self.stat_steps += 1
            if s.steps > self.max_steps:
                raise Imprecise("step limit (loop bound not established)")
            t = blk["t"]
            k = t[0]
            s.steps += 1
            if k == "goto":
                f.bb = t[1]
                f.si = 0
            elif k == "sw":
                v = self.operand(s, f, t[1])
                f.bb = self.switch(s, v, t[2], t[3])
                f.si = 0
            elif k == "call":
                r = self.call(s, f, t)
                if r is not None:
                    return r
            elif k == "assert":
                c = self.operand(s, f, t[1])
                v = decide(c, s.F, "assert " + t[3])
                if bool(v) == bool(t[2]):
                    f.bb = t[4]
                    f.si = 0
                else:
                    return Outcome("panic", None, s.F, t[3], self.stack(s))
            elif k == "ret":
                v = f.L[0]
                if v is None:
                    v = UNIT
                if self.recombine:
                    v = self.recomb(v, s.F)
                s.frames.pop()
                if not s.frames:
                    return Outcome("ret", v, s.F, None, None, f)
                g = s.frames[-1]
                if g.fn is None:
                    return Outcome("ret", v, s.F, None, None, s.frames)
                self.store(s, g, f.dest, v)
                g.bb = f.ret
                g.si = 0
            elif k == "drop":
                f.bb = t[1]
                f.si = 0
            elif k == "unreach":
                raise Contradiction()
            elif k == "resume":
                return Outcome("panic", None, s.F, "resume", self.stack(s))
            else:
                raise Imprecise(f"terminator {k}")

    def stack(self, s):
        return [(f.fn.get("name"), f.fn.get("span"), self.line(f)) for f in s.frames if f.fn]

    def switch(self, s, v, brs, other):
        if isinstance(v, Ptr):
            raise Imprecise("switch on pointer")
        b = bits(v, s.F)
        if b.isconst():
            c = cval(b)
            for val, t in brs:
                if int(val) & ((1 << b.w) - 1) == c:
                    return t
            return other
        if b.w == 1:
            c = decide(b, s.F)
            for val, t in brs:
                if int(val) == c:
                    return t
            return other
        u = U(b, s.F)
        lo, hi = s.F.prange(u)
        if lo == hi:
            for val, t in brs:
                if int(val) & ((1 << b.w) - 1) == lo:
                    return t
            return other
        vals = [int(val) & ((1 << b.w) - 1) for val, _ in brs]
        # already excluded?
        left = []
        for val in vals:
            e = eq0(padd(u, pconst(val), -1), s.F)
            if e.isconst():
                if cval(e):
                    return [t for v2, t in brs if int(v2) & ((1 << b.w) - 1) == val][0]
                continue
            left.append(val)
        if not left:
            return other

        def others(F):
            for val in left:
                F.assume_ne(u, val)
        raise NeedSplit([(lambda F, val=val: F.assume_range(u, val, val))
                         for val in left] + [others], "switch")

    # ------------------------------------------------------------- places
    def frame(self, s, uid):
        for f in reversed(s.frames):
            if f.uid == uid:
                return f
        raise Imprecise("dangling frame pointer")

    def resolve(self, s, f, pl):
        """place -> Ptr (frame-local or alloc) """
        k, a, b, path = "l", f.uid, pl[0], ()
        meta = None
        ty = f.fn["locals"][pl[0]] if f.fn else None
        for e in pl[1:]:
            if e == "*":
                if k == "l":
                    v = self.get_local(s, a, b, path)
                else:
                    v = self.load(s, Ptr(k, a, b, path, None, ty))
                if isinstance(v, Agg) and len(v.f) == 1:   # Box-like / NonNull wrappers
                    while isinstance(v, Agg) and v.f:
                        v = v.f[0]
                if not isinstance(v, Ptr):
                    raise Imprecise(f"deref of {v!r}")
                k, a, b, path, meta, ty = v.k, v.a, v.b, v.path, v.meta, v.ty
            elif e[0] == "f":
                if k == "a":
                    ty_, b = self.field_off(s, ty, b, e[1], path, a)
                    path = ()
                    ty = e[2]
                else:
                    path = path + (e[1],)
                    ty = e[2]
                meta = None if not (k == "l") else None
            elif e[0] == "d":
                if k == "a":
                    path = (("v", e[1]),)
            elif e[0] in ("i", "ci"):
                if e[0] == "i":
                    iv = f.L[e[1]]
                    u = U(iv, s.F)
                    if u.t:
                        l, h = s.F.prange(u)
                        if l == h:
                            i = l
                        else:
                            split_values(u, l, h, "index")
                    else:
                        i = u.c
                else:
                    if e[3]:
                        n = self.length(s, Ptr(k, a, b, path, meta, ty))
                        i = n - e[1]
                    else:
                        i = e[1]
                k, a, b, path, ty = self.index(Ptr(k, a, b, path, meta, ty), i)
                meta = None
            elif e[0] == "ss":
                p = Ptr(k, a, b, path, meta, ty)
                n = self.length(s, p)
                to = n - e[2] if e[3] else e[2]
                k, a, b, path, ty2 = self.index(p, e[1])
                if k == "l":
                    path = path[:-1] + (("s", path[-1]),)
                meta = const(64, to - e[1])
            else:
                raise Imprecise(f"projection {e}")
        return Ptr(k, a, b, path, meta, ty)

    def length(self, s, p):
        if p.meta is not None:
            return amount(p.meta, s.F, "slice length")
        if p.ty is not None:
            t = self.P.types[p.ty]
            if t["k"] == "array":
                return t["n"]
        v = self.load(s, p)
        return len(v.f)

    def index(self, p, i):
        if p.k == "a":
            t = self.P.types[p.ty]
            if t["k"] in ("array", "slice"):
                e = t["e"]
            elif t["k"] == "str":
                return "a", p.a, p.b + i, (), self.u8ty()
            else:
                raise Imprecise(f"index into {t['k']}")
            return "a", p.a, p.b + i * self.P.size(e), (), e
        path = p.path
        if path and isinstance(path[-1], tuple) and path[-1][0] == "s":
            path = path[:-1] + (path[-1][1] + i,)
        else:
            path = path + (i,)
        e = None
        if p.ty is not None:
            t = self.P.types[p.ty]
            e = t.get("e") if t["k"] in ("array", "slice") else \
                self.u8ty() if t["k"] == "str" else None
        return p.k, p.a, p.b, path, e

    def u8ty(self):
        for i, t in enumerate(self.P.types):
            if t["k"] == "int" and t["w"] == 8 and not t["s"]:
                return i

    def field_off(self, s, ty, b, i, path, aid):
        t = self.P.types[ty]
        k = t["k"]
        if k == "tuple" or k == "closure":
            return None, b + t["lay"]["offsets"][i]
        if k == "adt":
            lay = t["lay"]
            if "multi" in lay:
                vi = path[0][1] if path else self.P.variant_of(self.P.alloc_bytes(aid), b, t)[0]
                return None, b + lay["multi"]["variants"][vi][i]
            return None, b + (lay["offsets"][i] if lay.get("offsets") else 0)
        raise Imprecise(f"field of {k}")

    def get_local(self, s, uid, loc, path):
        fr = self.frame(s, uid)
        v = fr.L[loc]
        for p in path:
            v = self.sub(v, p)
        return v

    def sub(self, v, p):
        if isinstance(p, tuple):
            return v
        if isinstance(v, Agg):
            if p >= len(v.f):
                raise Imprecise("index out of object")
            return v.f[p]
        raise Imprecise(f"projection {p} of {type(v).__name__} {v!r}")

    def read_place(self, s, f, pl):
        # fast paths
        n = len(pl)
        if n == 1:
            return f.L[pl[0]]
        v = f.L[pl[0]]
        i = 1
        while i < n:
            e = pl[i]
            if e[0] == "f" and isinstance(v, Agg):
                if e[1] >= len(v.f):
                    return None
                v = v.f[e[1]]
            elif e[0] == "d":
                pass
            else:
                break
            i += 1
        else:
            return v
        p = self.resolve(s, f, pl)
        return self.load(s, p)

    def load(self, s, p):
        if p.k == "l":
            v = self.get_local(s, p.a, p.b, p.path)
            if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "s":
                raise Imprecise("load of unsized slice")
            return v
        if p.k == "a":
            if p.ty is None:
                raise Imprecise("untyped load")
            key = (p.a, p.b, p.ty)
            v = self.ccache.get(key)
            if v is None:
                d = self.P.alloc_bytes(p.a)
                if p.b < 0 or p.b + self.P.size(p.ty) > len(d[0]):
                    raise Panic("out-of-bounds read of a constant")
                v = self.P.decode(d, p.b, p.ty)
                self.ccache[key] = v
            return v
        raise Imprecise(f"load through {p}")

    def store(self, s, f, pl, v):
        if len(pl) == 1:
            f.L[pl[0]] = v
            return
        if pl[1] != "*" and all(e[0] in "fd" and e != "*" for e in pl[1:]):
            path = [e[1] for e in pl[1:] if e[0] == "f"]
            var = None
            for e in pl[1:]:
                if e[0] == "d":
                    var = e[1]
            f.L[pl[0]] = self.upd(f.L[pl[0]], path, 0, v)
            return
        self.store_ptr(s, self.resolve(s, f, pl), v)

    def upd(self, v, path, i, nv):
        if i == len(path):
            return nv
        p = path[i]
        if isinstance(p, tuple):
            p = p[1] if p[0] == "s" else None
            raise Imprecise("store through unsized path")
        if v is None:
            flds = (None,) * (p + 1)
            v = Agg(0, flds)
        if not isinstance(v, Agg):
            raise Imprecise(f"store into {type(v).__name__}")
        fl = list(v.f)
        while len(fl) <= p:
            fl.append(None)
        fl[p] = self.upd(fl[p], path, i + 1, nv)
        return Agg(v.v, tuple(fl))

    def store_ptr(self, s, p, v):
        if p.k != "l":
            raise Imprecise(f"store through {p}")
        fr = self.frame(s, p.a)
        fr.L[p.b] = self.upd(fr.L[p.b], p.path, 0, v)

    def ptr_add(self, p, i):
        if p.k == "a":
            return p.with_(b=p.b + i * self.P.size(p.ty))
        if p.k == "l" and p.path and isinstance(p.path[-1], int):
            return p.with_(path=p.path[:-1] + (p.path[-1] + i,))
        raise Imprecise(f"pointer arithmetic on {p}")

    # ------------------------------------------------------------- operands
    def operand(self, s, f, o):
        p = o.get("p")
        if p is not None:
            v = self.read_place(s, f, p)
            return v
        if "c" in o:
            v = o.get("_v")
            if v is None:
                a = o["c"]
                rel = {x: y for x, y in a.get("p", [])}
                data = (bytes.fromhex(a["b"]), rel)
                v = self.P.decode(data, 0, o["t"])
                o["_v"] = v
            return v
        if "z" in o:
            t = self.P.types[o["t"]]
            if t["k"] == "fndef":
                return FnVal(t["inst"])
            if t["k"] == "closure":
                return Agg(0, ())
            return UNIT
        if "rc" in o:
            if o["rc"].startswith("Overflow"):
                return const(1, int(self.oc))
            return const(1, 0)
        raise Imprecise(f"operand {o}")

    def opty(self, f, o):
        if "t" in o:
            return o["t"]
        if "rc" in o:
            return None
        pl = o["p"]
        return self.placety(f, pl)

    def placety(self, f, pl):
        ti = f.fn["locals"][pl[0]]
        for e in pl[1:]:
            t = self.P.types[ti]
            if e == "*":
                if t["k"] == "adt":      # Box
                    ti = self.box_elem(t)
                else:
                    ti = t["e"]
            elif e[0] == "f":
                ti = e[2]
            elif e[0] in ("i", "ci"):
                ti = t["e"]
            elif e[0] == "ss":
                pass
        return ti

    def box_elem(self, t):
        raise Imprecise("box deref")

    def tinfo(self, ti):
        """(width, signed)"""
        t = self.P.types[ti]
        k = t["k"]
        if k == "int":
            return t["w"], t["s"]
        if k == "bool":
            return 1, False
        if k == "char":
            return 32, False
        if k == "float":
            return {"F16": 16, "F32": 32, "F64": 64, "F128": 128}[t["s"]], False
        if k == "pat":
            return self.tinfo(t["e"])
        return None, None

    # ------------------------------------------------------------- rvalues
    def rvalue(self, s, f, rv, dst):
        k = rv[0]
        if k == "use":
            return self.operand(s, f, rv[1])
        if k == "bin" or k == "cbin":
            return self.binop(s, f, rv, k == "cbin")
        if k == "ref":
            p = self.resolve(s, f, rv[1])
            if p.meta is None and p.k == "l" and p.path and isinstance(p.path[-1], tuple):
                pass
            return p
        if k == "agg":
            ops = [self.operand(s, f, o) for o in rv[3]]
            if rv[2] == -1 and len(ops) == 2:
                # raw fat pointer
                p, m = ops
                if isinstance(p, Ptr):
                    t = self.P.types[rv[1]]
                    if isinstance(m, BV):
                        if p.k == "l" and p.path and isinstance(p.path[-1], int):
                            p = p.with_(path=p.path[:-1] + (("s", p.path[-1]),))
                        return p.with_(meta=m, ty=t["e"])
                    return p
                raise Imprecise("raw pointer aggregate")
            if rv[2] <= -2:
                raise Imprecise("union aggregate")
            return Agg(rv[2], tuple(ops))
        if k == "cast":
            return self.castop(s, f, rv)
        if k == "un":
            return self.unop(s, f, rv)
        if k == "discr":
            p = rv[1]
            v = self.read_place(s, f, p)
            ti = self.placety(f, p)
            t = self.P.types[ti]
            w, sg = self.tinfo(rv[2])
            if not isinstance(v, Agg):
                raise Imprecise(f"discriminant of {v!r}")
            if t["k"] == "adt" and t["d"]:
                return const(w, int(t["d"][v.v]))
            return const(w, v.v)
        if k == "len":
            p = self.resolve(s, f, rv[1])
            return const(64, self.length(s, p))
        if k == "rep":
            v = self.operand(s, f, rv[1])
            return Agg(0, (v,) * rv[2])
        raise Imprecise(f"rvalue {k} {rv[1] if len(rv)>1 else ''}")

    def unop(self, s, f, rv):
        v = self.operand(s, f, rv[2])
        op = rv[1]
        if op == "Not":
            return bnot(bits(v, s.F))
        if op == "Neg":
            w, sg = self.tinfo(self.opty(f, rv[2]))
            if self.P.types[self.opty(f, rv[2])]["k"] == "float":
                raise Imprecise("float negation")
            return wrap(pscale(S(v, s.F), -1), w, True, s.F)
        if op == "PtrMetadata":
            if isinstance(v, Ptr):
                if v.meta is not None:
                    return v.meta
                ti = self.opty(f, rv[2])
                t = self.P.types[ti] if isinstance(ti, int) else {}
                e = self.P.types[t["e"]] if t.get("k") == "ptr" else {}
                if e.get("k") == "slice":
                    # unsized from an array in place
                    x = self.load(s, v)
                    if isinstance(x, Agg):
                        return const(64, len(x.f))
                    raise Imprecise("length of a slice")
                return UNIT
        raise Imprecise(f"unop {op}")

    def binop(self, s, f, rv, checked):
        op = rv[1]
        F = s.F
        x = self.operand(s, f, rv[2])
        y = self.operand(s, f, rv[3])
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptrop(s, op, x, y, f, rv)
        ti = self.opty(f, rv[2])
        w, sg = self.tinfo(ti)
        if w is None:
            t = self.P.types[ti]
            raise Imprecise(f"binop {op} on {t['k']}")
        if self.P.types[ti]["k"] == "float":
            raise Imprecise("hardware float operation " + op)
        un = op.endswith("Unchecked")
        if un:
            op = op[:-9]
        if op in ("Add", "Sub", "Mul"):
            Q = arith(op, x, y, w, sg, F)
            if checked:
                o = overflow(Q, w, sg, F)
                return Agg(0, (wrap(Q, w, sg, F), o))
            return wrap(Q, w, sg, F)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], x, y, F)
        if op in ("Shl", "Shr"):
            n = amount(y, F, "shift amount")
            if n >= w:
                if checked or un:
                    raise Imprecise("shift amount out of range")
                yw, ys = self.tinfo(self.opty(f, rv[3]))
                n &= w - 1
            if op == "Shl":
                return shl(x, n, F)
            return sar(x, n, F) if sg else shr(x, n, F)
        if op in ("Eq", "Ne"):
            if sg and (x.p is None or y.p is None):
                d = padd(S(x, F), S(y, F), -1)
            else:
                d = padd(U(x, F), U(y, F), -1)
            e = eq0(d, F)
            return e if op == "Eq" else bnot(e)
        if op in ("Lt", "Le", "Gt", "Ge"):
            g = S if sg else U
            a, b = g(x, F), g(y, F)
            if op in ("Gt", "Le"):
                a, b = b, a
            r = lt0(padd(a, b, -1), F)
            return bnot(r) if op in ("Le", "Ge") else r
        if op == "Cmp":
            g = S if sg else U
            d = padd(g(x, F), g(y, F), -1)
            if decide(lt0(d, F), F, "cmp"):
                return Agg(0, ())
            if decide(eq0(d, F), F, "cmp"):
                return Agg(1, ())
            return Agg(2, ())
        if op in ("Div", "Rem"):
            q, r = divrem(x, y, w, sg, F)
            return q if op == "Div" else r
        raise Imprecise(f"binop {op}")

    def ptrop(self, s, op, x, y, f, rv):
        if op == "Offset":
            w, sg = self.tinfo(self.opty(f, rv[3]))
            u = S(y, s.F) if sg else U(y, s.F)
            if u.t:
                l, h = s.F.prange(u)
                split_values(u, l, h, "pointer offset")
            return self.ptr_add(x, u.c)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.k == y.k and x.a == y.a and (x.k == "a" or x.b == y.b):
                a = x.b if x.k == "a" else self.plain(x.path)
                b = y.b if y.k == "a" else self.plain(y.path)
                r = {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b,
                     "Gt": a > b, "Ge": a >= b}[op]
                return const(1, int(r))
        raise Imprecise(f"pointer op {op} {x} {y}")

    def plain(self, path):
        return tuple(p[1] if isinstance(p, tuple) else p for p in path)

    def castop(self, s, f, rv):
        kind, o, st, tt = rv[1], rv[2], rv[3], rv[4]
        v = self.operand(s, f, o)
        T = self.P.types
        if kind == "IntToInt":
            w2, _ = self.tinfo(tt)
            sw, ss = self.tinfo(st)
            if isinstance(v, Agg):
                d = T[st]["d"]
                return const(w2, int(d[v.v]))
            return cast(v, w2, ss, s.F)
        if kind in ("PtrToPtr", "MutToConstPointer", "Unsize", "ArrayToPointer"):
            if not isinstance(v, Ptr):
                if isinstance(v, Agg):
                    return v
                raise Imprecise(f"cast {kind} of {v!r}")
            src, dst = T[st], T[tt]
            if kind == "Unsize" and T[src["e"]]["k"] == "array" and T[dst["e"]]["k"] == "slice":
                return v.with_(meta=const(64, T[src["e"]]["n"]), ty=dst["e"])
            if kind == "Unsize":
                return v.with_(ty=v.ty)
            if dst["k"] == "ptr":
                de = T[dst["e"]]
                se = T[src["e"]] if src["k"] == "ptr" else None
                if se is not None and se["k"] in ("slice", "array", "str") and de["k"] not in ("slice", "array", "str"):
                    # thin element pointer
                    esz = 1 if se["k"] == "str" else self.P.size(se["e"])
                    if self.P.size(dst["e"]) == esz or de["k"] in ("tuple", "adt"):
                        if v.k == "l":
                            path = v.path
                            if path and isinstance(path[-1], tuple):
                                path = path[:-1] + (path[-1][1],)
                            else:
                                path = path + (0,)
                            return v.with_(path=path, meta=None, ty=dst["e"])
                        return v.with_(meta=None, ty=dst["e"])
                if de["k"] not in ("slice", "str", "dyn"):
                    return v.with_(meta=None, ty=dst["e"])
                return v.with_(ty=dst["e"])
            return v
        if kind == "Transmute":
            if T[tt]["k"] == "adt" and "fmt::" in T[tt]["s"]:
                return Agg(0, ())       # a message under construction
            return self.transmute(s, v, st, tt)
        if kind in ("ReifyFnPointer", "ClosureFnPointer", "UnsafeFnPointer"):
            if isinstance(v, FnVal):
                return v
            t = T[st]
            if t["k"] == "closure":
                return FnVal(t["inst"], True)
            return v
        if kind in ("PointerExposeAddress", "PointerExposeProvenance"):
            raise Imprecise("pointer to int")
        raise Imprecise(f"cast {kind}")

    def flatten(self, v, ti, base, out):
        """-> [(bit offset, BV)]"""
        t = self.P.types[ti]
        k = t["k"]
        if k in ("int", "char", "float", "pat"):
            out.append((base, v))
        elif k == "bool":
            out.append((base, v))
        elif k == "array":
            sz = self.P.size(t["e"]) * 8
            for i in range(t["n"]):
                self.flatten(v.f[i], t["e"], base + i * sz, out)
        elif k == "tuple":
            for fv, ft, o in zip(v.f, t["f"], t["lay"].get("offsets", [])):
                self.flatten(fv, ft, base + o * 8, out)
        elif k == "adt" and t["kind"] != "Enum":
            if t["kind"] == "Union":
                raise Imprecise("union")
            for fv, fd, o in zip(v.f, t["v"][0]["f"], t["lay"].get("offsets", [])):
                self.flatten(fv, fd[1], base + o * 8, out)
        else:
            raise Imprecise(f"flatten {k}")

    def unflatten(self, pieces, ti, base):
        t = self.P.types[ti]
        k = t["k"]
        if k in ("int", "char", "float", "pat"):
            w, _ = self.tinfo(ti)
            return mk(w, slice_pieces(pieces, base, w))
        if k == "array":
            sz = self.P.size(t["e"]) * 8
            return Agg(0, tuple(self.unflatten(pieces, t["e"], base + i * sz)
                                for i in range(t["n"])))
        if k == "tuple":
            return Agg(0, tuple(self.unflatten(pieces, ft, base + o * 8)
                                for ft, o in zip(t["f"], t["lay"].get("offsets", []))))
        if k == "adt" and t["kind"] != "Enum":
            return Agg(0, tuple(self.unflatten(pieces, fd[1], base + o * 8)
                                for fd, o in zip(t["v"][0]["f"], t["lay"].get("offsets", []))))
        raise Imprecise(f"unflatten {k}")

    def transmute(self, s, v, st, tt):
        T = self.P.types
        a, b = T[st], T[tt]
        if st == tt:
            return v
        if a["k"] == "ptr" and b["k"] == "ptr":
            return v.with_(ty=b["e"])
        if a["k"] == "array" and b["k"] == "array" and a["n"] == b["n"] and \
                T[b["e"]].get("n") == "std::mem::MaybeUninit" and self.P.size(a["e"]) == self.P.size(b["e"]):
            # an element in place of the wrapper around it
            return v
        if isinstance(v, Ptr):
            if b["k"] == "adt":
                # NonNull / Unique style wrappers
                return self.wrap_ptr(v, tt)
            raise Imprecise("transmute pointer")
        if b["k"] == "ptr" and isinstance(v, Agg):
            while isinstance(v, Agg) and v.f:
                v = v.f[0]
            if isinstance(v, Ptr):
                return v.with_(ty=b["e"])
        if a["k"] == "adt" and a["kind"] == "Enum" and b["k"] == "int":
            return const(b["w"], int(a["d"][v.v]))
        data = [i for i, x in enumerate(b.get("v", ())) if x["f"]] if b["k"] == "adt" and b["kind"] == "Enum" else []
        if data and isinstance(v, BV):
            # an optional non-zero number: zero is the empty variant
            if len(data) != 1 or len(b["v"]) != 2 or len(b["v"][data[0]]["f"]) != 1 or self.P.size(tt) * 8 != v.w:
                raise Imprecise("transmute to enum with data")
            if decide(eq0(upoly(bits(v, s.F)), s.F), s.F, "zero"):
                return Agg(1 - data[0], ())
            return Agg(data[0], (self.transmute(s, v, st, b["v"][data[0]]["f"][0][1]),))
        if b["k"] == "adt" and b["kind"] == "Enum" and isinstance(v, BV):
            c = amount(v, s.F, "transmute to enum")
            for i, d in enumerate(b["d"]):
                if int(d) & ((1 << v.w) - 1) == c:
                    return Agg(i, ())
            raise Imprecise("bad enum transmute")
        if b["k"] == "bool" or a["k"] == "bool":
            if isinstance(v, BV):
                return cast(v, 1 if b["k"] == "bool" else self.tinfo(tt)[0], False, s.F)
        out = []
        self.flatten(v, st, 0, out)
        out.sort(key=lambda x: x[0])
        pieces = []
        pos = 0
        for o, bv in out:
            if o > pos:
                pieces.append((None, 0, o - pos, False))
            bb = bits(bv, s.F)
            pieces.extend(bb.p)
            pos = o + bb.w
        tot = self.P.size(tt) * 8
        if pos < tot:
            pieces.append((None, 0, tot - pos, False))
        return self.unflatten(tuple(pieces), tt, 0)

    def wrap_ptr(self, v, ti):
        t = self.P.types[ti]
        if t["k"] == "ptr":
            return v.with_(ty=t["e"])
        if t["k"] == "pat":
            return self.wrap_ptr(v, t["e"])
        if t["k"] == "adt":
            fs = t["v"][0]["f"]
            return Agg(0, tuple(self.wrap_ptr(v, x[1]) if i == 0 else UNIT
                                for i, x in enumerate(fs)))
        raise Imprecise("wrap_ptr")

    # ------------------------------------------------------------- calls
    def call(self, s, f, t):
        fo = t[1]
        key = None
        env = []
        if "t" in fo and self.P.types[fo["t"]]["k"] == "fndef":
            ft = self.P.types[fo["t"]]
            key = ft["inst"]
            if key is None:
                raise Imprecise(f"unresolved call {ft['n']}")
        else:
            v = self.operand(s, f, fo)
            if isinstance(v, FnVal):
                key = v.key
                env = [Agg(0, ())] if v.env else []
                ft = {"a": [], "n": ""}
            else:
                raise Imprecise("indirect call")
        fn = self.P.fns.get(key)
        name = fn["name"] if fn else key
        args = None
        if key.startswith("intrinsic:"):
            r = self.intrinsic(s, f, key.split(":")[1], ft,
                               env + [self.operand(s, f, o) for o in t[2]], t)
        else:
            h = self.sumcache.get(key, 0)
            if h == 0:
                h = self.find_summary(key, name)
                self.sumcache[key] = h
            if h is None:
                if "blocks" not in fn:
                    if t[4] is None or "panic" in name or "unwrap_failed" in name or "expect_failed" in name or "slice_" in name:
                        return Outcome("panic", None, s.F, name,
                                       self.stack(s))
                    raise Imprecise(f"call of external {name}")
                self.push(s, key, fn, env + [self.operand(s, f, o) for o in t[2]], t[3], t[4])
                return None
            r = h(self, s, f, env + [self.operand(s, f, o) for o in t[2]], t)
            if isinstance(r, Outcome):
                return r
            if r is NOSUM:
                self.push(s, key, fn, env + [self.operand(s, f, o) for o in t[2]], t[3], t[4])
                return None
        if t[4] is None:
            return Outcome("panic", None, s.F, name, self.stack(s))
        self.store(s, f, t[3], r)
        f.bb = t[4]
        f.si = 0
        return None

    def find_summary(self, key, name):
        if self.hook is not None:
            h = self.hook(name)
            if h is not None:
                return h
        for pat, h in self.summaries.items():
            if pat == name or (pat.endswith("*") and name.startswith(pat[:-1])):
                return h
        return BUILTIN.get(name)

    def intrinsic(self, s, f, name, ft, a, t):
        F = s.F
        targs = ft.get("a") or []

        def ty0():
            return targs[0] if targs and isinstance(targs[0], int) else None
        if name in ("ctlz", "ctlz_nonzero"):
            return clz(a[0], F)
        if name in ("cttz", "cttz_nonzero"):
            return ctz(a[0], F)
        if name == "ctpop":
            b = bits(a[0], F)
            if b.isconst():
                return const(32, bin(cval(b)).count("1"))
            raise Imprecise("ctpop")
        if name in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add",
                    "unchecked_sub", "unchecked_mul"):
            w, sg = self.tinfo(ty0())
            op = {"a": "Add", "s": "Sub", "m": "Mul"}[name.split("_")[1][0]]
            return wrap(arith(op, a[0], a[1], w, sg, F), w, sg, F)
        if name in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
            w, sg = self.tinfo(ty0())
            op = {"a": "Add", "s": "Sub", "m": "Mul"}[name[0]]
            Q = arith(op, a[0], a[1], w, sg, F)
            return Agg(0, (wrap(Q, w, sg, F), overflow(Q, w, sg, F)))
        if name in ("saturating_add", "saturating_sub"):
            w, sg = self.tinfo(ty0())
            Q = arith("Add" if name.endswith("add") else "Sub", a[0], a[1], w, sg, F)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            if decide(lt0(padd(Q, pconst(lo), -1), F), F, "saturate"):
                return const(w, lo)
            if decide(lt0(padd(pconst(hi), Q, -1), F), F, "saturate"):
                return const(w, hi)
            return wrap(Q, w, sg, F)
        if name in ("integer_min", "integer_max"):
            w, sg = self.tinfo(ty0())
            g = S if sg else U
            lt = decide(lt0(padd(g(a[0], F), g(a[1], F), -1), F), F, "min/max")
            if name.endswith("min"):
                return a[0] if lt else a[1]
            return a[1] if lt else a[0]
        if name in ("unchecked_div", "unchecked_rem", "exact_div"):
            w, sg = self.tinfo(ty0())
            q, r = divrem(a[0], a[1], w, sg, F)
            return r if name.endswith("rem") else q
        if name in ("unchecked_shl", "unchecked_shr"):
            w, sg = self.tinfo(ty0())
            n = amount(a[1], F, "shift amount")
            return shl(a[0], n, F) if name.endswith("shl") else (
                sar(a[0], n, F) if sg else shr(a[0], n, F))
        if name in ("rotate_left", "rotate_right"):
            b = bits(a[0], F)
            n = amount(a[1], F, "rotate amount") % b.w
            if name.endswith("right"):
                n = (b.w - n) % b.w
            if n == 0:
                return b
            return mk(b.w, slice_pieces(b.p, b.w - n, n) + slice_pieces(b.p, 0, b.w - n))
        if name == "bswap":
            b = bits(a[0], F)
            out = []
            for i in range(b.w // 8 - 1, -1, -1):
                out.extend(slice_pieces(b.p, i * 8, 8))
            return mk(b.w, out)
        if name in ("cold_path", "assume", "assert_inhabited", "assert_zero_valid",
                    "assert_mem_uninitialized_valid"):
            return UNIT
        if name in ("likely", "unlikely", "black_box"):
            return a[0]
        if name == "is_val_statically_known":
            return const(1, 0)
        if name in ("size_of", "size_of_val") and ty0() is not None:
            tt = self.P.types[ty0()]
            if name == "size_of_val" and tt["k"] in ("slice", "str"):
                es = 1 if tt["k"] == "str" else self.P.size(tt["e"])
                return const(64, amount(a[0].meta, F, "len") * es)
            return const(64, self.P.size(ty0()))
        if name in ("min_align_of", "align_of"):
            raise Imprecise("align_of")
        if name == "transmute":
            return self.transmute(s, a[0], targs[0], targs[1])
        if name in ("offset", "arith_offset"):
            u = S(a[1], F)
            if u.t:
                l, h = F.prange(u)
                split_values(u, l, h, "pointer offset")
            return self.ptr_add(a[0], u.c)
        if name in ("ptr_offset_from_unsigned", "ptr_offset_from"):
            x, y = a
            if x.k == y.k and x.a == y.a:
                if x.k == "a":
                    return const(64, (x.b - y.b) // self.P.size(x.ty))
                px, py = self.plain(x.path), self.plain(y.path)
                if x.b == y.b and px[:-1] == py[:-1]:
                    return const(64, px[-1] - py[-1])
            raise Imprecise("offset_from")
        if name in ("copy_nonoverlapping", "copy"):
            n = amount(a[2], F, "copy count")
            vals = [self.load(s, self.ptr_add(a[0], i) if i else a[0]) for i in range(n)]
            for i, v in enumerate(vals):
                self.store_ptr(s, self.ptr_add(a[1], i) if i else a[1], v)
            return UNIT
        if name == "typed_swap_nonoverlapping":
            v, w = self.load(s, a[0]), self.load(s, a[1])
            self.store_ptr(s, a[0], w)
            self.store_ptr(s, a[1], v)
            return UNIT
        if name in ("read_via_copy", "volatile_load", "unaligned_volatile_load"):
            return self.load(s, a[0])
        if name == "write_via_move":
            self.store_ptr(s, a[0], a[1])
            return UNIT
        if name == "discriminant_value":
            v = self.load(s, a[0])
            tt = self.P.types[ty0()]
            w, _ = self.tinfo(tt["dt"]) if tt.get("dt") is not None else (64, False)
            return const(w, int(tt["d"][v.v]))
        if name == "three_way_compare":
            w, sg = self.tinfo(ty0())
            g = S if sg else U
            d = padd(g(a[0], F), g(a[1], F), -1)
            if decide(lt0(d, F), F, "cmp"):
                return Agg(0, ())
            return Agg(1, ()) if decide(eq0(d, F), F, "cmp") else Agg(2, ())
        if name == "select_unpredictable":
            return a[1] if decide(a[0], F, "select") else a[2]
        if name == "raw_eq":
            raise Imprecise("raw_eq")
        if name == "compare_bytes":
            n = amount(a[2], F, "compare length")
            for i in range(n):
                x = self.load(s, self.ptr_add(a[0], i) if i else a[0])
                y = self.load(s, self.ptr_add(a[1], i) if i else a[1])
                d = padd(U(x, F), U(y, F), -1)
                if decide(lt0(d, F), F, "memcmp"):
                    return const(32, -1)
                if not decide(eq0(d, F), F, "memcmp"):
                    return const(32, 1)
            return const(32, 0)
        if name == "abort" or name == "unreachable":
            return UNIT
        if name == "ub_checks" or name == "contract_checks":
            return const(1, 0)
        if name == "const_eval_select":
            raise Imprecise("const_eval_select")
        if name in ("ptr_metadata",):
            return a[0].meta if a[0].meta is not None else UNIT
        raise Imprecise(f"intrinsic {name}")

    # ------------------------------------------------------- recombination
    def recomb(self, v, F):
        """limbs that together are one integer are re-expressed as slices of
        that integer"""
        if not isinstance(v, Agg):
            return v
        leaves = []

        def walk(x, path):
            if isinstance(x, Agg):
                for i, y in enumerate(x.f):
                    walk(y, path + (i,))
            elif isinstance(x, BV) and x.w == 128:
                leaves.append((path, x))
        walk(v, ())
        if len(leaves) < 2 or len(leaves) > 8:
            return v
        if not any(x.p is None or any(q[0] is not None and q[0].kind == "lin" for q in x.p)
                   for _, x in leaves):
            return v
        if all(x.p is not None for _, x in leaves) and len(
                {q[0].id for _, x in leaves for q in x.p if q[0] is not None}) <= 1:
            return v
        polys = [U(x, F) for _, x in leaves]
        n = len(leaves)
        orders = [list(range(n)), list(range(n - 1, -1, -1))]
        if n == 4:
            orders += [[1, 0, 3, 2], [2, 3, 0, 1]]
        best = None
        nt = sum(len(p.t) for p in polys)
        for o in orders:
            P = ZERO
            for i, j in enumerate(o):
                P = padd(P, polys[j], 1 << (128 * i))
            if best is None or len(P.t) < len(best[0].t):
                best = (P, o)
        P, o = best
        if len(P.t) >= nt or len(P.t) == 0:
            return v
        P = psimp(P, F)
        l, h = F.prange(P)
        if l < 0 or h >> (128 * n):
            F.assume_range(P, 0, (1 << (128 * n)) - 1)
        new = {}
        pp = poly_to_pieces(P, 128 * n)
        if pp is None:
            a = lin_atom(P)
            W = a.w if a.w is not None else 128 * n
        for i, j in enumerate(o):
            if pp is not None:
                b = mk(128, slice_pieces(pp, 128 * i, 128))
            else:
                lo = 128 * i
                nn = max(0, min(128, (a.w - lo) if a.w is not None else 128))
                q = []
                if nn:
                    q.append((a, lo, nn, False))
                if nn < 128:
                    q.append((None, 0, 128 - nn, False))
                b = mk(128, q)
            new[leaves[j][0]] = b

        def rebuild(x, path):
            if isinstance(x, Agg):
                return Agg(x.v, tuple(rebuild(y, path + (i,)) for i, y in enumerate(x.f)))
            return new.get(path, x)
        return rebuild(v, ())


NOSUM = object()
BUILTIN = {}
