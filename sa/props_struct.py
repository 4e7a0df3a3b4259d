"""Structural properties: operand forms (value flow) and effects."""
import re
from spec import *
import contracts

# ------------------------------------------------------------ P21 value flow
PURE_ST = ("use", "ref", "agg")


def is_forwarding(P, fn, memo):
    """the body only moves, copies, borrows and calls: no branch on data and
    no operation of its own"""
    key = id(fn)
    if key in memo:
        return memo[key]
    r = "blocks" in fn
    if r:
        for b in fn["blocks"]:
            for st in b["s"]:
                if st[0] == "=" and st[2][0] not in PURE_ST and st[2][0] != "cast":
                    r = False
            if b["t"][0] not in ("call", "goto", "ret", "drop", "unreach", "resume"):
                r = False
    memo[key] = r
    return r


def fresh_of(P, ti, F, nm):
    """an opaque value of the type"""
    t = P.types[ti]
    k = t["k"]
    if k == "int":
        a = new_atom(t["w"], nm) if "w" in t else None
        if a is None:
            raise Imprecise("opaque integer")
        return mk(t["w"], ((a, 0, t["w"], False),))
    if k == "bool":
        return mk(1, ((new_atom(1, nm), 0, 1, False),))
    if k == "tuple":
        return Agg(0, tuple(fresh_of(P, x, F, nm) for x in t["f"]))
    if k == "adt" and t.get("kind") == "Struct":
        return Agg(0, tuple(fresh_of(P, x[1], F, nm) for x in t["v"][0]["f"]))
    raise Imprecise("opaque result type " + str(t)[:80])


def term_key(m, s, v, F):
    while isinstance(v, Ptr):
        v = m.load(s, v)
    if isinstance(v, Agg):
        return tuple(term_key(m, s, x, F) for x in v.f) + (v.v,)
    if isinstance(v, BV):
        return (v.w, U(v, F).key())
    return str(v)


class Flow:
    """evaluates an entry down to calls of non-forwarding crate functions,
    which are uninterpreted"""

    def __init__(self, c):
        self.c = c
        self.P = c.P
        self.calls = {}
        self.memo = {}
        self.trace = []

    def hook(self, name):
        fn = self.byname.get(name)
        if fn is None or "blocks" not in fn or is_forwarding(self.P, fn, self.memo):
            return None
        if fn["crate"] != "f256":
            return None

        def h(m, s, f, args, t):
            k = (name,) + tuple(term_key(m, s, a, s.F) for a in args)
            self.trace.append(name)
            if k not in self.calls:
                self.calls[k] = fresh_of(self.P, fn["locals"][0], s.F, f"r{len(self.calls)}_")
            return self.calls[k]
        return h

    def run(self, entry, args):
        self.byname = {f["name"]: f for f in self.P.fns.values()}
        M = Machine(self.P, hook=self.hook)
        out = list(M.run(self.P.entries["probe::" + entry], args, Facts()))
        for k in M.fns_seen:
            self.c.fns.add(self.P.fns[k]["name"])
        self.c.steps += M.stat_steps
        self.c.paths += len(out)
        if len(out) != 1 or out[0].kind != "ret":
            raise Imprecise(f"{entry} does not forward its operands")
        return out[0]


FORMS = {op: [(op + s, "xy", op, "xy") for s in ("_vr", "_rv", "_rr", "_a", "_ar")]
         for op in ("add", "sub", "mul", "div", "rem")}
FORMS["neg"] = [("neg_r", "x", "neg", "x")]
FORMS["square"] = [("square", "x", "mul", "xx")]
FORMS["square_add"] = [("square_add", "xy", "fma", "xxy")]
FORMS["recip"] = [("recip", "x", "div", "1x")]
FORMS["mul2"] = [("mul2", "x", "mul_pow2", "xI")]
FORMS["div2"] = [("div2", "x", "div_pow2", "xI")]


def j_form(c, form, fa, base, ba):
    F = Facts()
    v = {"1": cf256(BIAS << 236), "I": const(32, 1)}
    for n in "xy":
        a = new_atom(256, n)
        v[n] = f256v(mk(128, ((a, 128, 128, False),)), mk(128, ((a, 0, 128, False),)))
    fl = Flow(c)
    o1 = fl.run(base, [v[x] for x in ba])
    o2 = fl.run(form, [v[x] for x in fa])
    d = padd(fbits(o1.val, o1.F), fbits(o2.val, o2.F), -1)
    c.check(f"{form}({', '.join(fa)}) is {base}({', '.join(ba)}): same kernel call on the same operands",
            is_zero(d), o2, 3, [d])


def form_jobs(tier):
    return [Job(f"form/{f[0]}", j_form, *f) for fs in FORMS.values() for f in fs]


# ------------------------------------------------------------- P23 effects
PURE_EXT = re.compile(r"^(core|std)::(intrinsics::(?!.*(f16|f32|f64|f128|volatile|atomic))|panicking::|num::.*panic|"
                      r"fmt::num::|num::imp::overflow_panic|slice::index::slice_.*fail|str::slice_error_fail|result::unwrap_failed|option::)")
TEXT = {"parse", "try_from_str", "display", "debug", "lower_exp", "upper_exp"}


def float_type(P, ti):
    return ti is not None and P.types[ti]["k"] == "float"


def interior_mut(P, ti, seen=None):
    seen = seen or set()
    if ti in seen or not isinstance(ti, int):
        return False
    seen.add(ti)
    t = P.types[ti]
    if t["k"] == "adt":
        if "UnsafeCell" in t.get("n", ""):
            return True
        return any(interior_mut(P, x[1], seen) for v in t.get("v", []) for x in v["f"])
    if t["k"] == "tuple":
        return any(interior_mut(P, x, seen) for x in t["f"])
    if t["k"] in ("array", "slice"):
        return interior_mut(P, t["e"], seen)
    return False


def operands(x):
    """operand and place dictionaries inside a statement or terminator"""
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


class Effects:
    def __init__(self, P):
        self.P = P
        self.M = Machine(P)
        self.memo = {}

    def scan(self, key):
        """(effects of the body, callees)"""
        if key in self.memo:
            return self.memo[key]
        P = self.P
        fn = P.fns[key]
        eff, cal = [], []
        fr = Frame(0, fn, [], None, None)
        where = fn["span"]

        def note(line, what):
            eff.append((fn["name"], f"{fn['span'].rsplit(':', 2)[0]}:{line}", what))

        for b in fn.get("blocks", []):
            for st in b["s"]:
                if st[0] != "=":
                    continue
                rv, line = st[2], st[3]
                self.rvalue(fr, rv, line, note)
                for o in operands(rv):
                    self.const(o, line, note)
                    ft = P.types[o["t"]] if isinstance(o.get("t"), int) else None
                    if ft and ft["k"] == "fndef" and ft.get("inst"):
                        cal.append((ft["inst"], line))       # function passed as a value
                    if ft and ft["k"] == "closure" and ft.get("inst"):
                        cal.append((ft["inst"], line))
                if rv[0] == "agg" and isinstance(rv[1], int) and P.types[rv[1]]["k"] == "closure" and P.types[rv[1]].get("inst"):
                    cal.append((P.types[rv[1]]["inst"], line))
            t = b["t"]
            if t[0] == "call":
                line = t[5].split(":")[-2]
                for o in t[2]:
                    for q in operands(o):
                        self.const(q, line, note)
                        ft = P.types[q["t"]] if isinstance(q.get("t"), int) else None
                        if ft and ft["k"] in ("fndef", "closure") and ft.get("inst"):
                            cal.append((ft["inst"], line))
                if t[4] is None:
                    continue                       # diverging: a panic
                ft = P.types[t[1]["t"]] if "t" in t[1] else None
                if ft and ft["k"] == "fndef":
                    if ft["inst"] is None:
                        note(line, "call of an unresolved function " + ft["n"])
                    else:
                        cal.append((ft["inst"], line))
            elif t[0] not in ("goto", "sw", "assert", "ret", "drop", "unreach", "resume"):
                note("?", "terminator " + str(t[0]))
        self.memo[key] = (eff, cal)
        return self.memo[key]

    def rvalue(self, fr, rv, line, note):
        P = self.P
        k = rv[0]
        if k in ("bin", "cbin", "un"):
            for o in rv[1:]:
                if isinstance(o, dict):
                    try:
                        ti = self.M.opty(fr, o)
                    except Exception:
                        continue
                    if float_type(P, ti):
                        note(line, f"native floating point operation {rv[1]}")
        elif k == "cast":
            kind = [x for x in rv if isinstance(x, str) and x != "cast"]
            s = str(rv)
            if "FloatTo" in s or "ToFloat" in s:
                note(line, "native floating point conversion")
            if "PointerExpose" in s:
                note(line, "address-dependent value")
        elif k not in ("use", "ref", "agg", "discr", "len", "rep"):
            note(line, "rvalue " + str(k))

    def const(self, o, line, note):
        P = self.P
        a = o.get("c") if isinstance(o.get("c"), dict) else o
        for x, y in (a.get("p", []) if isinstance(a.get("p"), list) and "b" in a else []):
            al = P.allocs.get(str(y)) if isinstance(P.allocs, dict) else P.allocs[y]
            if al and al.get("static"):
                t = P.types[o["t"]] if isinstance(o.get("t"), int) else None
                if t is None or t["k"] != "ptr":
                    continue
                if t.get("raw") and t.get("m") or interior_mut(P, t["e"]):
                    note(line, f"global mutable state {al['static']}")


def j_effects(c, entry):
    P = c.P
    E = _EFF.setdefault(c.config, Effects(P))
    root = P.entries["probe::" + entry]
    seen, todo = {root: None}, [root]
    while todo:
        k = todo.pop()
        c.obl += 1
        fn = P.fns.get(k)
        name = fn["name"] if fn else k
        bad = []
        if k.startswith("intrinsic:"):
            if re.search(r"f(16|32|64|128)\b|volatile|atomic|float", k):
                bad = [(name, "", "intrinsic " + k)]
        elif fn is None or "blocks" not in fn:
            if not PURE_EXT.match(name) and "panic" not in name:
                bad = [(name, "", "call of the external function " + name)]
        else:
            c.fns.add(name)
            c.paths += 1
            c.steps += sum(len(b["s"]) for b in fn["blocks"])
            if fn.get("crate") not in ("core", "alloc", "std") or True:
                bad, cal = E.scan(k)
                for q, line in cal:
                    if q not in seen:
                        seen[q] = (k, line)
                        todo.append(q)
        if bad:
            chain, q = [], k
            while q is not None:
                chain.append(P.fns[q]["name"] if q in P.fns else q)
                q = seen[q][0] if seen[q] else None
            for b in bad[:3]:
                c.fail("integer-only and free of global state", f"{b[2]} at {b[1]} in {b[0]}; reached by "
                       + " <- ".join(chain[:8]), definite=True)
        else:
            c.ok += 1


_EFF = {}


def effect_jobs(tier, P=None):
    P = program("release")
    return [Job("effects/" + e.split("::")[1], j_effects, e.split("::")[1])
            for e in P.entries if e.startswith("probe::") and e.split("::")[1] not in TEXT]
