"""Specification layer: symbolic binary256 operands, obligations, the job
runner and the reports."""
import fnmatch, json, os, sys, time, multiprocessing as mp, traceback
from interp import *
from prove import prove, free_flags, open_flags, in_range, is_zero
import witness
import contracts, extract

HERE = extract.HERE
EMAX = (1 << 19) - 1          # biased exponent of infinities and NaNs
FB = 236                      # fraction bits
SIGN = 1 << 255
INF = EMAX << FB
NORM = 1 << FB
EMIN1 = -262142               # exponent of the smallest normal number
BIAS = 262143
MAXBITS = INF - 1


class FX:
    """a symbolic f256 operand of one IEEE class"""

    def __init__(self, F, pfx, cls, sign=None, e=None):
        """e: exponent of a normal operand as a polynomial"""
        self.cls = cls
        if sign is None:
            sa = new_atom(1, pfx + "s")
            self.s = atom_bv(sa)
        elif isinstance(sign, BV):
            self.s = sign
        else:
            self.s = const(1, sign)
        self.S = upoly(self.s)
        sp = self.s.p[0]
        base = cls.rstrip("0123456789hl")
        self.base = base
        f = None
        if base in ("zero", "inf"):
            fr = [(None, 0, 236, False)]
            self.f = pconst(0)
        else:
            f = new_atom(236, pfx + "f")
            fr = [(f, 0, 236, False)]
            self.f = upoly(atom_bv(f))
        self.fa = f
        self.ea = None
        if base == "norm":
            if e is not None:
                F.assume_range(e, 1, EMAX - 1)
                ep = lin_atom_w(e, 19)
                self.ea = ep[0]
                self.e = e
            else:
                self.ea = new_atom(19, pfx + "e")
                ep = (self.ea, 0, 19, False)
                self.e = upoly(atom_bv(self.ea))
                F.assume_range(self.e, 1, EMAX - 1)
        else:
            v = EMAX if base in ("inf", "nan") else 0
            ep = (None, v, 19, False)
            self.e = pconst(v)
        if base in ("sub", "nan"):
            F.assume_range(self.f, 1, None)
        if cls.endswith("h"):
            F.assume_range(basisp(f, 128), 1, None)
        elif cls.endswith("l"):
            F.assume_range(basisp(f, 128), 0, 0)
        self.m = padd(self.f, pconst(NORM)) if base == "norm" else self.f
        self.be = self.e if base == "norm" else pconst(1)   # exponent of m*2^(be-1)
        lo = mk(128, tuple(slice_pieces(fr, 0, 128)))
        hi = mk(128, tuple(slice_pieces(fr, 128, 108)) + (ep, sp))
        self.hi, self.lo = hi, lo
        self.val = f256v(hi, lo)
        self.absbits = padd(self.f, self.e, 1 << FB)
        self.bits = padd(self.absbits, self.S, SIGN)

    @property
    def finite(self):
        return self.base in ("zero", "sub", "norm")


def lin_atom_w(p, w):
    """whole piece of width w whose value is p"""
    a = lin_atom(p)
    if a.w is None or a.w > w:
        a.w = w
        a.rng = (0, (1 << w) - 1)
    if a.w < w:
        raise Imprecise("exponent form")
    return (a, 0, w, False)


def basisp(atom, k):
    return Poly({(basis(atom, k),): 1}, 0)


def f256v(hi, lo):
    return Agg(0, (Agg(0, (Agg(0, (hi,)), Agg(0, (lo,)))),))


def cf256(v):
    return f256v(const(128, v >> 128), const(128, v))


def f256_leaves(v):
    out = []

    def go(v):
        if isinstance(v, Agg):
            for x in v.f:
                go(x)
        else:
            out.append(v)
    go(v)
    return out


def fbits(v, F):
    """value polynomial of the 256 bits of an f256"""
    hi, lo = f256_leaves(v)
    return padd(U(lo, F), U(hi, F), 1 << 128)


def fbv(v, F):
    hi, lo = f256_leaves(v)
    return mk(256, tuple(bits(lo, F).p) + tuple(bits(hi, F).p))


def topbit(v, F):
    hi, lo = f256_leaves(v)
    return mk(1, slice_pieces(bits(hi, F).p, 127, 1))


def lowbit(v, F):
    hi, lo = f256_leaves(v)
    return mk(1, slice_pieces(bits(lo, F).p, 0, 1))


CLASSES = ("zero", "sub", "norm", "inf", "nan")
KEYS = ["nan", "inf", "zero", "sub", "norm"]


class Job:
    """one function on one abstract input region"""

    def __init__(self, name, fn, *args, config="release", **kw):
        self.name = name
        self.fn = fn
        self.args = args
        self.kw = kw
        self.config = config


class Ctx:
    def __init__(self, prog, name, config):
        self.P = prog
        self.name = name
        self.config = config
        self.obl = 0
        self.ok = 0
        self.viol = []
        self.paths = 0
        self.steps = 0
        self.used = set()
        self.fns = set()
        self.notes = []
        self.rule = ""
        self.searched = 0
        self.trying = None
        self.panics = PANICS[0]

    def machine(self, contracts_on=True, **kw):
        if contracts_on:
            kw.setdefault("hook", lambda n: contracts.handler(n, self.used))
        return Machine(self.P, **kw)

    def explore(self, entry, args, F, contracts_on=True, **kw):
        """returning outcomes of the public operation `entry`; a panic is
        a violation"""
        key = self.P.entries.get("probe::" + entry)
        if key is None:
            raise Imprecise(f"public operation {entry} not found")
        M = self.machine(contracts_on, **kw)
        try:
            for o in M.run(key, args, F):
                self.paths += 1
                if o.kind == "panic":
                    self.obl += 1
                    self.fail("panic", f"{o.msg}", o)
                    continue
                if self.panics:
                    self.obl += 1
                    self.ok += 1
                    continue
                yield o
        finally:
            self.steps += M.stat_steps
            for k in M.fns_seen:
                self.fns.add(self.P.fns[k]["name"])

    def trial(self, f):
        """run the checks of f without recording their outcome: whether all
        were discharged, and the goals"""
        keep = self.obl, self.ok, self.viol, self.trying
        self.viol, self.trying = [], []
        try:
            f()
            return not self.viol, self.trying
        finally:
            self.obl, self.ok, self.viol, self.trying = keep

    def either(self, what, finding, right, recorded, o):
        """the outcome is right, or it is the recorded finding"""
        if self.trial(right)[0]:
            return right()
        good, goals = self.trial(recorded)
        if not good:
            if len(goals) != 1:
                return right()
            (w, g2, polys), = goals
            goals = self.trial(right)[1]
            if len(goals) != 1:
                return right()
            g1 = goals[0][1]

            def goal(F):
                return g1(F) or g2(F)
            goal.spec = getattr(g2, "spec", (None, None, None))
            goal.alts = getattr(g2, "alts", ())
            if not self.check(w, goal, o, 5, list(polys) + list(goals[0][2])):
                return False
            self.obl -= 1
            self.ok -= 1
        self.obl += 1
        self.fail(finding, "", o)

    def check(self, what, goal, o, depth=5, polys=()):
        self.obl += 1
        if self.trying is not None:
            self.trying.append((what, goal, polys))
        if self.panics:
            self.ok += 1
            return True
        try:
            r = prove(goal, o.F, depth, polys)
        except NeedSplit:
            r = o.F
            r.goal, r.root = goal, o.F
        if r is None:
            self.ok += 1
            return True
        self.fail(what, "", o, r, polys)
        return False

    def oblige(self, what, state, o, polys=()):
        """state is None when the obligation was discharged"""
        self.obl += 1
        if state is None or self.panics:
            self.ok += 1
        else:
            self.fail(what, "", o, state, polys)

    def fail(self, what, detail, o=None, F=None, polys=(), definite=False):
        d = {"case": self.name, "config": self.config, "obligation": what,
             "detail": detail, "confirmed": definite}
        if o is not None and not definite and self.trying is None and not is_known(self.name, what):
            FF = F or o.F
            d["witness"] = confirm(FF.goal if F is not None else None,
                                   [FF, FF.root if F is not None else None], self, getattr(F, "whole", None))
            d["confirmed"] = d["witness"] is not None
        if o is not None:
            if o.stack:
                d["stack"] = [[str(x) for x in fr] for fr in o.stack[::-1]]
            if getattr(o, "notes", None):
                d["path"] = [list(map(str, n)) for n in o.notes][-40:]
            if o.val is not None:
                d["value"] = str(o.val)[:2000]
            FF = F or o.F
            try:
                d["ranges"] = [f"{pstr(p)} in {[hex(v) for v in FF.prange(p)]}"[:1500] for p in polys]
            except Contradiction:
                pass
        self.viol.append(d)
        if o is not None:
            globals()["LAST"] = F or o.F


PANICS = [False]        # only the absence of panics is asked for
KNOWN = []              # known findings of the property
CONFIRMED = None        # obligations confirmed to be violated so far
SPENT = None            # seconds spent on confirmations
DEADLINE = [None]


def is_known(case, what):
    return any(fnmatch.fnmatchcase(case, k["case"]) and k["obligation"] == what for k in KNOWN)


def confirm(goal, states, c, whole=None):
    """a member of the state that violates the goal (see witness.py)"""
    if CONFIRMED is not None and (CONFIRMED.value >= 3 or SPENT.value > 8 * 60):
        return None
    if c.searched >= 3:
        return None
    c.searched += 1
    t = time.time()
    try:
        w = witness.search(goal, states, 6.0, c.searched, whole)
    except (Imprecise, RecursionError, witness.Unknown):
        w = None
    if CONFIRMED is not None:
        with CONFIRMED.get_lock():
            CONFIRMED.value += w is not None
        with SPENT.get_lock():
            SPENT.value += time.time() - t
    return w


_PROGS = {}


def program(config):
    if config not in _PROGS:
        _PROGS[config] = Program(extract.extract(config))
    return _PROGS[config]


def _worker(ix):
    j = _JOBS[ix]
    import dom
    dom.reset()
    OP_IX.clear()
    LIN_IX.clear()
    MODS.clear()
    witness.PROPOSE.clear()
    c = Ctx(program(j.config), j.name, j.config)
    t = time.time()
    def late(*_):
        raise Imprecise("time limit of one region")
    import signal
    signal.signal(signal.SIGALRM, late)
    limit = int(os.environ.get("VERIF_JOBTIME", "120"))
    if DEADLINE[0]:
        limit = max(1, min(limit, int(DEADLINE[0] - t)))
    signal.alarm(limit)
    try:
        j.fn(c, *j.args, **j.kw)
        signal.alarm(0)
    except (Imprecise, NeedSplit) as e:
        c.obl += 1
        c.fail("analysable", f"the analysis could not follow the code: {e}"
               if isinstance(e, Imprecise) else f"undecided: {e.why}")
    except RecursionError:
        c.obl += 1
        c.fail("analysable", "recursion")
    except Exception:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        c.obl += 1
        c.fail("analysable", "engine error: " + traceback.format_exc()[-1500:])
    signal.alarm(0)
    if os.environ.get("VERIF_DEBUG"):
        print(f"{time.time()-t:7.2f} {c.ok}/{c.obl} {c.name} {c.paths}", flush=True)
    return {"case": c.name, "config": j.config, "obl": c.obl, "ok": c.ok, "viol": c.viol,
            "paths": c.paths, "steps": c.steps, "used": sorted(c.used),
            "fns": sorted(c.fns), "notes": c.notes, "t": time.time() - t}


_JOBS = []


def run_jobs(jobs, procs=8):
    global _JOBS, CONFIRMED, SPENT
    _JOBS = jobs
    CONFIRMED = mp.Value("i", 0)
    SPENT = mp.Value("d", 0.0)
    sys.setrecursionlimit(20000)
    for c in {j.config for j in jobs}:
        program(c)
    if procs == 1 or len(jobs) == 1:
        return [_worker(i) for i in range(len(jobs))]
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=20) as pool:
        return list(pool.imap_unordered(_worker, range(len(jobs)), chunksize=1))
