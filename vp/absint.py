"""Abstract interpretation of MIR over canonical symbolic terms with trace partitioning.

A state maps memory cells to terms, keeps an interval per atom plus a small set of linear facts, and a list of
effects (bit reads, byte reads, calls of summarised functions, summarised loops).  Loops are summarised: every
location the body changes is replaced by a head symbol, and the effects of one arbitrary iteration are recorded.
"""
import math, os, struct, sys, time
from terms import *
from prog import Prog, strip, ConstMem

sys.setrecursionlimit(20000)


class GiveUp(Exception):
    pass


class Infeasible(Exception):
    pass


# a model met a value of a shape it does not know: the path is given up, like any other construct without a model
ODD = (AttributeError, IndexError, TypeError, KeyError, ValueError)


DERIVED = {}   # pow2 atom id -> exponent
LAREM = {}     # lookahead atom id -> remaining-bits Lin it is capped by


class Frame:
    __slots__ = ("inst", "body", "loc", "bb", "ret", "tgt", "depth", "active", "name", "site", "unroll")

    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        return f


class LoopRec:
    def __init__(self, lid, site):
        self.id = lid
        self.site = site
        self.heads = {}      # (cell, path) -> (init value, head value)
        self.n = None        # iteration number
        self.iters = []      # back-edge traces: (events tuple, {(cell,path): new value}, state)
        self.entry_events = 0

    def __repr__(self):
        return "Loop#%d@%s" % (self.id, self.site)


class State:
    __slots__ = ("cells", "frames", "iv", "facts", "conds", "variants", "fr", "strs", "ev", "nev", "kind", "info", "value",
                 "seq", "notes", "und", "last")

    def __init__(self):
        self.cells = {}
        self.frames = []
        self.iv = {}
        self.facts = ()
        self.conds = {}
        self.variants = {}
        self.fr = {}
        self.strs = {}
        self.ev = None
        self.nev = 0
        self.kind = None
        self.info = None
        self.value = None
        self.seq = 0
        self.notes = ()
        self.und = None
        self.last = None         # the latest condition this path was split on

    def copy(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.frames = [f.copy() for f in self.frames]
        s.iv = dict(self.iv)
        s.facts = self.facts
        s.conds = dict(self.conds)
        s.variants = dict(self.variants)
        s.fr = dict(self.fr)
        s.strs = dict(self.strs)
        s.ev = self.ev
        s.nev = self.nev
        s.kind = self.kind
        s.info = self.info
        s.value = self.value
        s.seq = self.seq
        s.notes = self.notes
        s.und = self.und
        s.last = self.last
        return s

    # ---------------------------------------------------------------- events
    def emit(self, *e):
        self.ev = (self.ev, e)
        self.nev += 1

    def events(self, since=0):
        out = []
        e, n = self.ev, self.nev
        while e is not None and n > since:
            out.append(e[1])
            e = e[0]
            n -= 1
        out.reverse()
        return out

    # ---------------------------------------------------------------- intervals
    def arange(self, a):
        r = self.iv.get(a)
        if r is None:
            r = RANGE[a]
        if a in DERIVED:
            lo, hi = self.bounds(DERIVED[a])
            lo = (1 << int(lo)) if 0 <= lo < 256 else 1
            hi = (1 << int(hi)) if hi < 256 else INF
            return (max(lo, r[0]), min(hi, r[1]))
        return r

    def bounds(self, l):
        lo = hi = l.c
        for a, k in l.t:
            x, y = self.arange(a)
            if k > 0:
                lo += k * x
                hi += k * y
            else:
                lo += k * y
                hi += k * x
        return lo, hi

    def norm(self, l):
        """substitute atoms whose interval is a point"""
        hit = None
        for a, k in l.t:
            r = self.iv.get(a)
            if r is not None and r[0] == r[1]:
                hit = True
                break
        if not hit:
            return l
        c = l.c
        t = []
        for a, k in l.t:
            r = self.arange(a)
            if r[0] == r[1]:
                c += k * r[0]
            else:
                t.append((a, k))
        return Lin(c, tuple(t))

    def prove_le0(self, l, depth=2):
        lo, hi = self.bounds(l)
        if hi <= 0:
            return True
        if depth == 0 or not l.t:
            return False
        d = dict(l.t)
        for f in self.facts:
            for a, kf in f.t:
                k = d.get(a)
                if k is None or (k > 0) != (kf > 0):
                    continue
                if k % kf == 0:
                    lam = k // kf
                    m = l - (f.scale(lam) if lam != 1 else f)
                elif kf % k == 0:
                    # scale l instead
                    m = l.scale(kf // k) - f
                else:
                    continue
                if self.bounds(m)[1] <= 0:
                    return True
                if depth > 1 and len(m.t) <= len(l.t) + 1 and self.prove_le0(m, depth - 1):
                    return True
        return False

    # ---------------------------------------------------------------- conditions
    def simp(self, c):
        """rewrite lookahead atoms into remaining-bits form where exact"""
        if c is True or c is False:
            return c
        if c[0] == "le0":
            l = c[1]
            for a, k in l.t:
                if a in LAREM and abs(k) == 1:
                    rest = l - Lin(0, ((a, k),))
                    if k == 1:      # la <= -rest  i.e. la < 1 - rest
                        th = self.bounds(-rest + 1)
                    else:           # la >= rest
                        th = self.bounds(rest)
                    if th[1] <= 56:
                        return self.simp(c_le0(rest + LAREM[a].scale(k)))
            return c
        if c[0] == "not":
            return c_not(self.simp(c[1]))
        if c[0] == "and":
            return c_and(self.simp(c[1]), self.simp(c[2]))
        if c[0] == "or":
            return c_or(self.simp(c[1]), self.simp(c[2]))
        return c

    def ev_cond(self, c):
        c = self.simp(c)
        if c is True or c is False:
            return c
        k = c[0]
        if k == "le0":
            l = self.norm(c[1])
            lo, hi = self.bounds(l)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            if self.prove_le0(l):
                return True
            if self.prove_le0(-l + 1):
                return False
            return None
        if k == "eq0":
            l = self.norm(c[1])
            lo, hi = self.bounds(l)
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            v = self.conds.get(c)
            if v is not None:
                return v
            if self.facts or True:
                if self.prove_le0(-l + 1) or self.prove_le0(l + 1):
                    return False
                if self.prove_le0(l) and self.prove_le0(-l):
                    return True
            return None
        if k == "not":
            v = self.ev_cond(c[1])
            return None if v is None else not v
        if k == "and":
            a = self.ev_cond(c[1])
            b = self.ev_cond(c[2])
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if k == "or":
            a = self.ev_cond(c[1])
            b = self.ev_cond(c[2])
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
            return None
        if k == "op":
            return self.ev_op(c)
        raise KeyError(c)

    def leaf(self, c):
        """first undecided leaf of c"""
        c = self.simp(c)
        if c is True or c is False:
            return None
        if c[0] == "not":
            return self.leaf(c[1])
        if c[0] in ("and", "or"):
            if self.ev_cond(c[1]) is None:
                return self.leaf(c[1])
            return self.leaf(c[2])
        return c

    def assume(self, c, truth=True):
        """refine in place; False when contradictory"""
        if not truth:
            c = c_not(c)
        c = self.simp(c)
        if c is True:
            return True
        if c is False:
            return False
        v = self.ev_cond(c)
        if v is not None:
            return v
        k = c[0]
        if k == "le0":
            return self.add_fact(self.norm(c[1]))
        if k == "eq0":
            self.conds[c] = True
            return self.add_fact(self.norm(c[1])) and self.add_fact(-self.norm(c[1]))
        if k == "not":
            i = c[1]
            if i[0] == "eq0":
                self.conds[i] = False
                l = self.norm(i[1])
                if len(l.t) == 1:
                    a, kk = l.t[0]
                    if (-l.c) % kk == 0:
                        v = (-l.c) // kk
                        lo, hi = self.arange(a)
                        if v == lo:
                            self.iv[a] = (lo + 1, hi)
                        elif v == hi:
                            self.iv[a] = (lo, hi - 1)
                        # values already excluded next to the bound
                        self.tighten_neq(a)
                else:
                    lo, hi = self.bounds(l)
                    if lo == 0:
                        return self.add_fact(-l + 1)
                    if hi == 0:
                        return self.add_fact(l + 1)
                    # l <= 0 known -> l <= -1
                    if self.prove_le0(l):
                        return self.add_fact(l + 1)
                    if self.prove_le0(-l):
                        return self.add_fact(-l + 1)
                return True
            if i[0] == "op":
                return self.assume_op(i, False)
            raise KeyError(c)
        if k == "and":
            return self.assume(c[1]) and self.assume(c[2])
        if k == "or":
            a = self.ev_cond(c[1])
            if a is False:
                return self.assume(c[2])
            b = self.ev_cond(c[2])
            if b is False:
                return self.assume(c[1])
            self.conds[c] = True     # kept, not exploited
            return True
        if k == "op":
            return self.assume_op(c, True)
        raise KeyError(c)

    def tighten_neq(self, a):
        one = Lin(0, ((a, 1),))
        while True:
            lo, hi = self.arange(a)
            if lo > hi:
                return
            if lo > -INF and self.conds.get(c_eq(one, K(lo))) is False:
                self.iv[a] = (lo + 1, hi)
            elif hi < INF and self.conds.get(c_eq(one, K(hi))) is False:
                self.iv[a] = (lo, hi - 1)
            else:
                return

    def add_fact(self, l):
        """l <= 0"""
        if not l.t:
            return l.c <= 0
        if self.prove_le0(-l + 1):
            return False
        if self.prove_le0(l, 1):
            return True
        lo, _ = self.bounds(l)
        for a, k in l.t:
            x, y = self.arange(a)
            # k*a <= -(rest_lo)
            rest = self.lower_rest(l, a) if lo == -INF else lo - (k * x if k > 0 else k * y)
            if rest == -INF or rest != rest:
                continue
            if k > 0:
                nb = math.floor((-rest) / k) if abs(rest) > 1 << 52 and False else (-rest) // k
                if nb < y:
                    self.iv[a] = (x, nb)
                    if nb < x:
                        return False
                    self.tighten_neq(a)
            else:
                nb = -((-rest) // (-k))
                if nb > x:
                    self.iv[a] = (nb, y)
                    if nb > y:
                        return False
                    self.tighten_neq(a)
        if len(l.t) > 1:
            self.facts = self.facts + (l,)
            # propagate the new fact through the others once
            for f in self.facts[-12:]:
                if not self.refine_fact(f):
                    return False
        return True

    def lower_rest(self, l, a):
        """lower bound of the terms of l without those of the atom a"""
        lo = l.c
        for b, k in l.t:
            if b != a:
                x, y = self.arange(b)
                lo += k * (x if k > 0 else y)
        return lo

    def refine_fact(self, l):
        lo, hi = self.bounds(l)
        if lo > 0:
            return False
        for a, k in l.t:
            x, y = self.arange(a)
            rest = self.lower_rest(l, a) if lo == -INF else lo - (k * x if k > 0 else k * y)
            if rest == -INF or rest != rest:
                continue
            if k > 0:
                nb = (-rest) // k
                if nb < y:
                    if nb < x:
                        return False
                    self.iv[a] = (x, nb)
            else:
                nb = -((-rest) // (-k))
                if nb > x:
                    if nb > y:
                        return False
                    self.iv[a] = (nb, y)
        return True

    # ------------------------------------------------------------ opaque predicates
    def fset(self, t):
        return self.fr.get(t, (True, -INF, False, INF, False, frozenset()))

    def ev_op(self, c):
        v = self.conds.get(c)
        if v is not None:
            return v
        k = c[1]
        if k[0] in ("flt", "feq"):
            return self.ev_fcmp(k)
        if k[0] == "seq":
            return self.ev_seq(k)
        return None

    def ev_fcmp(self, k):
        a, b = k[1], k[2]
        ca, cb = fval(a), fval(b)
        if ca is not None and cb is not None:
            return ca < cb if k[0] == "flt" else ca == cb
        if ca is None and cb is None:
            return None
        x, cst, flip = (a, cb, False) if cb is not None else (b, ca, True)
        nan, lo, lox, hi, hix, exc = self.fset(x)
        if lo > hi or (lo == hi and (lox or hix)):
            return False if nan else None    # only NaN possible: every comparison false
        if k[0] == "feq":
            out = cst < lo or (cst == lo and lox) or cst > hi or (cst == hi and hix) or cst in exc
            if out:
                return False
            if lo == hi == cst and not nan:
                return True
            return None
        if not flip:     # x < cst
            if not nan and (hi < cst or (hi == cst and (hix or cst in exc))):
                return True
            if lo >= cst:
                return False
            return None
        if not nan and (lo > cst or (lo == cst and (lox or cst in exc))):   # cst < x
            return True
        if hi <= cst:
            return False
        return None

    def assume_op(self, c, truth):
        v = self.ev_op(c)
        if v is not None:
            return v == truth
        self.conds[c] = truth
        k = c[1]
        if k[0] in ("flt", "feq"):
            a, b = k[1], k[2]
            ca, cb = fval(a), fval(b)
            if (ca is None) == (cb is None):
                return True
            x, cst, flip = (a, cb, False) if cb is not None else (b, ca, True)
            nan, lo, lox, hi, hix, exc = self.fset(x)
            if k[0] == "feq":
                if truth:
                    nan, lo, lox, hi, hix = False, cst, False, cst, False
                else:
                    exc = exc | {cst}
            elif (not flip) == truth:
                # x < cst true, or cst < x false (x <= cst or nan)
                if truth:
                    nan = False
                    if cst <= hi:
                        hi, hix = cst, True
                else:
                    if cst < hi:
                        hi, hix = cst, False
            else:
                if truth:        # cst < x
                    nan = False
                    if cst >= lo:
                        lo, lox = cst, True
                else:            # x >= cst or nan
                    if cst > lo:
                        lo, lox = cst, False
            empty = lo > hi or (lo == hi and (lox or hix or lo in exc))
            if empty and not nan:
                return False
            self.fr[x] = (nan, lo, lox, hi, hix, exc)
            return True
        if k[0] == "seq":
            a, b = k[1], k[2]
            if truth:
                for x, y in ((a, b), (b, a)):
                    if y[0] == "c":
                        cur = self.strs.get(x)
                        if isinstance(cur, bytes):
                            return cur == y[1]
                        if cur is not None and y[1] in cur:
                            return False
                        self.strs[x] = y[1]
                        break
            else:
                for x, y in ((a, b), (b, a)):
                    if y[0] == "c":
                        cur = self.strs.get(x)
                        if cur is None or isinstance(cur, frozenset):
                            self.strs[x] = (cur or frozenset()) | {y[1]}
                        break
            return True
        if k[0] == "disj":
            return True
        return True

    def strconst(self, k):
        if k[0] == "c":
            return k[1]
        v = self.strs.get(k)
        return v if isinstance(v, bytes) else None

    def ev_seq(self, k):
        a, b = k[1], k[2]
        x, y = self.strconst(a), self.strconst(b)
        if x is not None and y is not None:
            return x == y
        for p, q in ((a, y), (b, x)):
            if q is not None:
                cur = self.strs.get(p)
                if isinstance(cur, frozenset) and q in cur:
                    return False
                # a provable length difference
        return None


def fval(t):
    if t[0] == "fc":
        bits, w = t[1], t[2]
        return struct.unpack("<f", struct.pack("<I", bits))[0] if w == 32 else struct.unpack("<d", struct.pack("<Q", bits))[0]
    return None


def seq_cond(a, b):
    if a == b:
        return True
    if a[0] == "c" and b[0] == "c":
        return a[1] == b[1]
    if a[0] == "c" or (b[0] != "c" and repr(a) > repr(b)):
        a, b = b, a
    return ("op", ("seq", a, b))


def phf_table(P, name):
    a = P.statics[name]
    v = P.decode(a["ty"], a["a"], 0)
    ns = P.adts[v.name]["variants"][0][2]
    e = v.fields[ns.index("entries")]
    mem = e.base.cell[1].k[1]
    out = {}
    for i in range(mem.n):
        k, x = mem.get(i).fields
        if not isinstance(k, StrV) or k.k[0] != "c":
            raise GiveUp("keys of %s" % name)
        out[k.k[1]] = x
    return out


class Engine:
    on_cut = None           # watches the calls that are replaced by a specification

    def __init__(self, prog, cuts=None, limit=90.0, maxpaths=6000):
        self.P = prog
        self.cuts = cuts or {}
        self.copies = {}
        self.phf = {}
        self.on_recursion = None
        self.maxpaths = maxpaths
        self.deadline = time.process_time() + 2 * limit
        self.counter = 0
        self.steps = 0
        self.symcell = {}
        self.no_unroll = set()
        self.stats = dict(blocks=0, forks=0, loops=0, calls=set())
        self.undecided = []
        import models
        self.models = models
        self.ordering = None
        self._strip = {}
        self._u8 = None
        self._phf = {}

    def fresh(self):
        self.counter += 1
        return self.counter

    def stripped(self, d):
        r = self._strip.get(d)
        if r is None:
            r = self._strip[d] = strip(d)
        return r

    def find_ty(self, pred):
        for i, t in enumerate(self.P.T):
            if pred(t):
                return i
        return None

    def u8(self):
        if self._u8 is None:
            self._u8 = self.find_ty(lambda t: t["k"][0] == "int" and not t["k"][1] and t["k"][2] == 8 and t["s"] == "u8")
        return self._u8

    def utf8err_ty(self, c):
        return self.find_ty(lambda t: t["k"][0] == "adt" and t["k"][1].endswith("Utf8Error"))

    def opt_ty(self, c):
        """return type of the called instance when known"""
        return None

    def enc_name(self, st, e):
        """name of a `&'static Encoding` operand"""
        if isinstance(e, Ptr):
            if e.cell[0] == "static":
                return e.cell[1]
            v = self.read(st, e)
            if isinstance(v, Agg):
                for f in v.fields:
                    if isinstance(f, StrV) and f.k[0] == "c":
                        return f.k[1].decode()
            if isinstance(v, Ptr):
                return self.enc_name(st, v)
        return repr(e)

    # ---------------------------------------------------------------- symbols
    def mksym(self, t, key):
        P = self.P
        k = P.kind(t)
        kk = k[0]
        if kk in ("int", "char"):
            lo, hi = P.int_range(t)
            return atom(("s", key, P.tname(t)), lo, hi)
        if kk == "bool":
            return Bv(("op", ("s", key)))
        if kk == "float":
            return Fv(("fs", key))
        if kk in ("ref", "ptr"):
            pk = P.kind(k[1])
            if pk[0] == "str":
                return StrV(("s", key))
            cell = ("s", key)
            if pk[0] == "slice":
                n = atom(("len", key), 0, (1 << 63) - 1)
                self.symcell[cell] = ("vec", pk[1], key, n)
                return Slice(Ptr(cell, ()), ZERO, n)
            self.symcell[cell] = ("ty", k[1], key)
            return Ptr(cell, ())
        if kk == "tuple":
            return Agg("()", 0, tuple(self.mksym(ft, ("f", key, i)) for i, ft in enumerate(k[1])))
        if kk == "array":
            return VecV(("s", key), K(k[2]), k[1])
        if kk == "adt":
            n = k[1]
            if n == "std::vec::Vec":
                return VecV(("s", key), atom(("len", key), 0, (1 << 63) - 1), k[2][0])
            if n == "std::string::String":
                return StrV(("s", key))
            if n == "std::collections::HashMap":
                return MapV(("s", key))
            if n == "bitter::LittleEndianReader":
                return RdrV(("s", key), ZERO, atom(("totbits", key), 0, (1 << 63) - 1), None, None)
            if n == "std::boxed::Box":
                return BoxV(self.mksym(k[2][0], ("box", key)))
            if n == "std::marker::PhantomData":
                return Agg(n, 0, ())
            if P.is_enum(t):
                if len(k[3]) == 1:
                    return Agg(n, 0, tuple(self.mksym(ft, ("f", key, i)) for i, ft in enumerate(k[3][0])))
                return Sym(key, t)
            if k[3] and n.startswith("boxcars::"):
                return Agg(n, 0, tuple(self.mksym(ft, ("f", key, i)) for i, ft in enumerate(k[3][0])))
            return Sym(key, t)
        if kk in ("fndef", "closure"):
            return FnV(t)
        return Sym(key, t)

    def expand(self, s, v):
        """Sym of an adt type as an aggregate of variant v"""
        k = self.P.kind(s.ty)
        if k[0] != "adt":
            raise GiveUp("expand %s" % self.P.tname(s.ty))
        return Agg(k[1], v, tuple(self.mksym(ft, ("fld", s.k, v, i)) for i, ft in enumerate(k[3][v])))

    def phf_table(self, name):
        """{key bytes: value} of a static perfect-hash map"""
        r = self.phf.get(name)
        if r is None:
            r = self.phf[name] = phf_table(self.P, name)
        return r

    def getcell(self, st, c):
        v = st.cells.get(c)
        if v is not None:
            return v
        if c[0] == "static":
            a = self.P.statics[c[1]]
            v = self.P.decode(a["ty"], a["a"], 0)
            if isinstance(v, VecV):
                v = VecV(("static", c[1], v.k), v.len, v.ety)
            elif isinstance(v, (Slice, Ptr, StrV, Lin)):
                pass
            else:
                v = Sym(("static", c[1]), a["ty"])
            return v
        if c[0] == "const":
            return c[1]
        if c[0] == "lit":
            return VecV(("lit", c[1]), K(len(c[1])), None)
        if c[0] == "s":
            d = self.symcell.get(c)
            if d is None:
                raise GiveUp("unknown cell %r" % (c,))
            if d[0] == "vec":
                v = VecV(("s", d[2]), d[3], d[1])
            else:
                v = self.mksym(d[1], ("*", d[2]))
            st.cells[c] = v
            return v
        raise GiveUp("no cell %r" % (c,))

    # ---------------------------------------------------------------- memory
    def walk(self, st, v, path):
        for s in path:
            v = self.proj(st, v, s)
        return v

    def proj(self, st, v, s):
        if s[0] == "f":
            if isinstance(v, Sym):
                var = st.variants.get(v.k, 0)
                v = self.expand(v, var)
            if isinstance(v, Agg):
                if s[1] >= len(v.fields):
                    raise Infeasible()
                return v.fields[s[1]]
            if isinstance(v, BoxV) and s[1] == 0:
                return v
            if isinstance(v, (Ptr, Slice)) and s[1] == 0:
                return v
            raise GiveUp("field of %s" % type(v).__name__)
        if s[0] == "d":
            if isinstance(v, Sym):
                known = st.variants.get(v.k)
                if known is not None and known != s[1]:
                    raise Infeasible()
                return self.expand(v, s[1])
            if isinstance(v, Agg) and v.variant != s[1]:
                raise Infeasible()
            return v
        if s[0] == "i":
            return self.elem(st, v, s[1])
        if s[0] == "it":
            return v.a[s[1]]
        if s[0] == "box":
            return v.v
        if s[0] == "me":     # entry of a map value
            return self.models.map_read(self, st, v, s[1], s[2])
        raise GiveUp("proj %r" % (s,))

    def elem(self, st, v, idx):
        idx = st.norm(idx)
        if isinstance(v, Agg):
            if idx.is_const() and 0 <= idx.c < len(v.fields):
                return v.fields[idx.c]
            raise GiveUp("array index")
        if not isinstance(v, VecV):
            raise GiveUp("index of %s" % type(v).__name__)
        k = v.k
        while True:
            if k[0] == "lit":
                if idx.is_const() and 0 <= idx.c < len(k[1]):
                    return k[1][idx.c]
                break
            if k[0] == "const" or k[0] == "static":
                cm = k[1] if k[0] == "const" else (k[2][1] if k[2][0] == "const" else None)
                if cm is not None and idx.is_const() and 0 <= idx.c < cm.n:
                    return cm.get(idx.c)
                break
            if k[0] == "push":
                # ("push", inner key, inner len, value)
                d = idx - k[2]
                if st.ev_cond(c_eq(idx, k[2])) is True:
                    return k[3]
                if st.prove_le0(d + 1):
                    k = k[1]
                    continue
                break
            if k[0] == "set":
                if st.ev_cond(c_eq(idx, k[2])) is True:
                    return k[3]
                if st.ev_cond(c_eq(idx, k[2])) is False:
                    k = k[1]
                    continue
                break
            if k[0] == "rep":
                return k[1]
            if k[0] == "from":      # ("from", inner key, offset)
                k, idx = k[1], idx + k[2]
                continue
            if k[0] == "bits":
                return rd_atom(k[1], st.norm(k[2] + idx.scale(8)), K(8))
            if k[0] == "reg":
                if st.prove_le0(k[2] - idx) and st.prove_le0(idx + 1 - k[2] - k[3]):
                    return rd_atom(k[4], st.norm(k[5] + (idx - k[2]).scale(8)), K(8))
                if st.prove_le0(idx + 1 - k[2]) or st.prove_le0(k[2] + k[3] - idx):
                    k = k[1]
                    continue
            break
        if v.ety is None:
            raise GiveUp("element of untyped vector")
        if k[0] == "s" and self.P.kind(v.ety)[0] == "int" and self.P.kind(v.ety)[2] == 8:
            return atom(("le", k, idx, 1), 0, 255)
        if k[0] == "bytes":     # a window of bytes read elsewhere: ("bytes", base key, lo)
            return atom(("le", k[1], idx + k[2], 1), 0, 255)
        return self.mksym(v.ety, ("elem", k, idx))

    def read(self, st, p):
        if isinstance(p, tuple) and p[0] == "val":
            return p[1]
        if isinstance(p, Slice):
            return p
        v = self.getcell(st, p.cell)
        for s in p.path:
            v = self.proj(st, v, s)
        return v

    def write(self, st, p, x):
        if not isinstance(p, Ptr):
            raise GiveUp("write to %r" % (p,))
        if not p.path:
            st.cells[p.cell] = x
            return
        v = self.getcell(st, p.cell)
        st.cells[p.cell] = self.upd(st, v, p.path, x)

    def upd(self, st, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == "f":
            if isinstance(v, Sym):
                v = self.expand(v, st.variants.get(v.k, 0))
            if v is UNDEF:
                raise GiveUp("field write to uninitialised")
            if not isinstance(v, Agg):
                raise GiveUp("field write of %s" % type(v).__name__)
            fs = list(v.fields)
            while len(fs) <= s[1]:
                fs.append(UNDEF)
            fs[s[1]] = self.upd(st, fs[s[1]], path[1:], x)
            return Agg(v.name, v.variant, tuple(fs))
        if s[0] == "d":
            if isinstance(v, Sym):
                v = self.expand(v, s[1])
            return self.upd(st, v, path[1:], x)
        if s[0] == "i":
            if isinstance(v, Agg):
                i = st.norm(s[1])
                if not i.is_const():
                    raise GiveUp("symbolic array write")
                fs = list(v.fields)
                fs[i.c] = self.upd(st, fs[i.c], path[1:], x)
                return Agg(v.name, v.variant, tuple(fs))
            nx = self.upd(st, self.elem(st, v, s[1]), path[1:], x) if len(path) > 1 else x
            return VecV(("set", v.k, s[1], nx), v.len, v.ety)
        if s[0] == "it":
            a = list(v.a)
            a[s[1]] = self.upd(st, a[s[1]], path[1:], x)
            return IterV(v.kind, tuple(a))
        if s[0] == "box":
            return BoxV(self.upd(st, v.v, path[1:], x))
        if s[0] == "me":
            return self.models.map_write(self, st, v, s[1], s[2], path[1:], x)
        raise GiveUp("upd %r" % (s,))

    def place(self, st, pl):
        """Ptr | Slice (unsized place) | ("val", v)"""
        f = st.frames[-1]
        cur = Ptr(f.loc[pl[0]], ())
        for e in pl[1]:
            k = e[0]
            if k == "*":
                v = self.read(st, cur)
                if isinstance(v, (Ptr, Slice)):
                    cur = v
                elif isinstance(v, StrV):
                    cur = ("val", v)
                elif isinstance(v, BoxV):
                    cur = Ptr(cur.cell, cur.path + (("box",),)) if isinstance(cur, Ptr) else ("val", v.v)
                elif isinstance(v, (FnV, Agg)):
                    cur = ("val", v)
                elif isinstance(v, Sym):
                    raise GiveUp("deref of symbol %s" % (self.P.tname(v.ty)))
                else:
                    raise GiveUp("deref of %s" % type(v).__name__)
            elif k == "f":
                if isinstance(cur, tuple):
                    cur = ("val", self.proj(st, cur[1], ("f", e[1])))
                else:
                    cur = Ptr(cur.cell, cur.path + (("f", e[1]),))
            elif k == "d":
                if isinstance(cur, tuple):
                    cur = ("val", self.proj(st, cur[1], ("d", e[1])))
                else:
                    cur = Ptr(cur.cell, cur.path + (("d", e[1]),))
            elif k == "i" or k == "ci":
                if k == "i":
                    idx = self.read(st, Ptr(f.loc[e[1]], ()))
                elif not e[3]:
                    idx = K(e[1])
                else:
                    ln = cur.hi - cur.lo if isinstance(cur, Slice) else self.read(st, cur).len
                    idx = ln - e[1]
                if isinstance(cur, Slice):
                    cur = Ptr(cur.base.cell, cur.base.path + (("i", cur.lo + idx),))
                else:
                    cur = Ptr(cur.cell, cur.path + (("i", idx),))
            elif k == "ss":
                if isinstance(cur, Slice):
                    lo, hi = cur.lo, cur.hi
                    base = cur.base
                else:
                    lo, hi = ZERO, self.read(st, cur).len
                    base = cur
                cur = Slice(base, lo + e[1], (hi - e[2]) if e[3] else (lo + e[2]))
            else:
                raise GiveUp("place %r" % (e,))
        return cur

    def operand(self, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read(st, self.place(st, o[1]))
        if k == "c":
            return self.P.decode(o[1], o[2], 0)
        if k == "z":
            t = o[1]
            kk = self.P.kind(t)
            if kk[0] in ("fndef", "closure"):
                return FnV(t)
            return self.zst(t)
        if k == "rc":
            return bv(True)
        if k == "v":
            return o[1]
        if k == "n":
            return K(o[2]) if isinstance(o[2], int) else Sym(("const", repr(o[2])), o[1])
        raise GiveUp("operand %r" % (o,))

    def zst(self, t):
        kk = self.P.kind(t)
        if kk[0] == "tuple" and not kk[1]:
            return UNIT
        if kk[0] == "tuple":
            return Agg("()", 0, tuple(self.zst(x) for x in kk[1]))
        if kk[0] == "adt":
            if kk[1] == "std::collections::HashMap":
                return MapV(("empty",))
            if len(kk[3]) >= 1:
                return Agg(kk[1], 0, tuple(self.zst(x) for x in kk[3][0]))
            return Agg(kk[1], 0, ())
        if kk[0] == "array":
            return VecV(("lit", ()), K(kk[2]), kk[1]) if kk[2] == 0 else VecV(("rep", self.zst(kk[1])), K(kk[2]), kk[1])
        if kk[0] in ("fndef", "closure"):
            return FnV(t)
        return UNIT

    # ---------------------------------------------------------------- rvalues
    def place_ty(self, st, pl):
        """static type of a place (None when unknown)"""
        f = st.frames[-1]
        try:
            t = f.body["locals"][pl[0]]
            var = 0
            for e in pl[1]:
                k = self.P.kind(t)
                if e[0] == "*":
                    t = k[1] if k[0] in ("ref", "ptr") else k[2][0]
                elif e[0] == "f":
                    t = e[2]
                elif e[0] == "d":
                    pass
                elif e[0] in ("i", "ci"):
                    t = k[1]
                elif e[0] == "ss":
                    pass
            return t
        except (KeyError, IndexError, TypeError):
            return None

    def rvalue(self, st, r, dest_ty=None):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            p = self.place(st, r[2])
            if isinstance(p, tuple):
                v = p[1]
                if isinstance(v, StrV):
                    return v
                return Ptr(("const", v), ())
            if isinstance(p, Slice):
                return p
            # reborrow of a string value: strings are values
            t = self.place_ty(st, r[2])
            if t is not None and self.P.kind(t)[0] == "str":
                return self.read(st, p)
            return p
        if k == "addr":
            p = self.place(st, r[2])
            if isinstance(p, tuple):
                return Ptr(("const", p[1]), ())
            return p
        if k == "agg":
            a = r[1]
            fs = tuple(self.operand(st, o) for o in r[2])
            if a[0] == "adt":
                return Agg(a[1], a[2], fs)
            if a[0] == "tuple":
                return Agg("()", 0, fs)
            if a[0] == "array":
                return VecV(("lit", fs), K(len(fs)), a[1] if len(a) > 1 else None)
            if a[0] == "closure":
                return Agg(("closure", a[1]), 0, fs)
            raise GiveUp("agg %r" % (a,))
        if k == "repeat":
            v = self.operand(st, r[1])
            n = r[2]
            ety = None
            if dest_ty is not None and self.P.kind(dest_ty)[0] == "array":
                ety = self.P.kind(dest_ty)[1]
            return VecV(("rep", v), K(n), ety)
        if k == "len":
            p = self.place(st, r[1])
            if isinstance(p, Slice):
                return p.hi - p.lo
            return self.read(st, p).len
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, r[2]), r[3], self.op_ty(st, r[2]))
        if k in ("bin", "cbin"):
            a = self.operand(st, r[2])
            b = self.operand(st, r[3])
            t = self.op_ty(st, r[2])
            if k == "cbin":
                return self.checked(st, r[1], a, b, t)
            return self.binop(st, r[1], a, b, t)
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                if isinstance(a, Bv):
                    return bv(c_not(a.c))
                t = self.op_ty(st, r[2])
                lo, hi = self.P.int_range(t)
                return K(hi + lo) - a if lo == 0 else -a - 1
            if r[1] == "Neg":
                if isinstance(a, Fv):
                    return Fv(("fneg", a.t))
                return -a
            if r[1] == "PtrMetadata":
                if isinstance(a, Slice):
                    return a.hi - a.lo
                if isinstance(a, StrV):
                    return self.models.str_len(a)
                if isinstance(a, Ptr):
                    return UNIT
            raise GiveUp("unop %s" % r[1])
        raise GiveUp("rvalue %s" % k)

    def op_ty(self, st, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(st, o[1])
        if o[0] in ("c", "z", "n"):
            return o[1]
        return None

    def to_int(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Bv):
            return self.b2i(v.c)
        return None

    def b2i(self, c):
        if c is True:
            return ONE
        if c is False:
            return ZERO
        # !(x == 0) with x in {0,1}
        neg = c[0] == "not"
        i = c[1] if neg else c
        if i[0] == "eq0" and len(i[1].t) == 1:
            a, k = i[1].t[0]
            if RANGE[a] == (0, 1):
                x = Lin(0, ((a, 1),))
                if i[1].c == 0:
                    return x if neg else ONE - x
                if i[1].c == -k:
                    return ONE - x if neg else x
        if c[0] == "le0" and len(c[1].t) == 1:
            a, k = c[1].t[0]
            if RANGE[a] == (0, 1):
                x = Lin(0, ((a, 1),))
                if k == -1 and c[1].c == 1:
                    return x
                if k == 1 and c[1].c == 0:
                    return ONE - x
        return atom(("b2i", c), 0, 1)

    def fit(self, st, l, t):
        """wrap a mathematical value into integer type t"""
        r = self.P.int_range(t) if t is not None else None
        if r is None:
            return l
        l = st.norm(l)
        lo, hi = st.bounds(l)
        if lo >= r[0] and hi <= r[1]:
            return l
        k = self.P.kind(t)
        s, b = (k[1], k[2]) if k[0] == "int" else (0, 32)
        m = 1 << b
        if l.is_const():
            v = l.c % m
            if s and v >= m // 2:
                v -= m
            return K(v)
        # drop inner wraps and bit selections of at least this width
        kk = single(l)
        if kk is not None and kk[0] == "wrap" and kk[2] >= b:
            return self.fit(st, kk[3], t)
        # proven in range by facts
        if st.prove_le0(l - r[1]) and st.prove_le0(-l + r[0]):
            return l
        return atom(("wrap", s, b, l), r[0], r[1])

    def cast(self, st, kind, v, to, frm=None):
        P = self.P
        if kind == "IntToInt":
            x = self.to_int(v)
            if x is None:
                if isinstance(v, (Sym, Agg)):
                    # fieldless enum as integer
                    var = v.variant if isinstance(v, Agg) else st.variants.get(v.k)
                    if var is not None and frm is not None:
                        return self.fit(st, K(P.discr(frm, var)), to)
                    return atom(("discr", v), -(1 << 63), (1 << 63))
                raise GiveUp("cast of %s" % type(v).__name__)
            return self.fit(st, x, to)
        if kind == "IntToFloat":
            w = P.kind(to)[1]
            x = self.to_int(v)
            if x is None:
                raise GiveUp("IntToFloat of %r" % (v,))
            if x.is_const():
                try:
                    b = struct.unpack("<I", struct.pack("<f", float(x.c)))[0] if w == 32 else struct.unpack("<Q", struct.pack("<d", float(x.c)))[0]
                    return Fv(("fc", b, w))
                except OverflowError:
                    pass
            return Fv(("i2f", w, x))
        if kind == "FloatToFloat":
            return Fv(("f2f", P.kind(to)[1], v.t))
        if kind == "FloatToInt":
            r = P.int_range(to)
            return atom(("f2i", P.tname(to), v.t), r[0], r[1])
        if "PtrToPtr" in kind or "Transmute" in kind:
            if isinstance(v, (Ptr, Slice, BoxV, StrV, Agg)):
                return v
            if isinstance(v, Lin):
                kt = P.kind(to)[0]
                if kt == "float":
                    return Fv(("fbits", P.kind(to)[1], v))
                if kt == "int":
                    return self.fit(st, v, to)
            if isinstance(v, Fv) and P.kind(to)[0] == "int":
                if v.t[0] == "fbits":
                    return self.fit(st, v.t[2], to)
                r = P.int_range(to)
                return atom(("bitsof", v.t), r[0], r[1])
            raise GiveUp("transmute")
        if "PointerCoercion" in kind:
            if "Unsize" in kind:
                kt = P.kind(to)
                if kt[0] in ("ref", "ptr") and P.kind(kt[1])[0] == "slice" and isinstance(v, Ptr):
                    x = self.read(st, v)
                    return Slice(v, ZERO, x.len if isinstance(x, VecV) else K(len(x.fields)))
                return v
            return v
        raise GiveUp("cast %s" % kind)

    def checked(self, st, op, a, b, t):
        r = self.P.int_range(t)
        m = self.arith(st, op, a, b)
        if m is None:
            m = self.binop(st, op, a, b, t)
            return Agg("()", 0, (m, bv(("op", ("ovf", op, a, b)))))
        c = c_or(c_lt(m, K(r[0])), c_lt(K(r[1]), m))
        v = st.ev_cond(c)
        if v is False:
            return Agg("()", 0, (m, FALSE))
        # the exact value is only used when the flag is false
        return Agg("()", 0, (m, bv(c if v is None else v)))

    def arith(self, st, op, a, b):
        op = op.replace("Unchecked", "")
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            a = st.norm(a)
            b = st.norm(b)
            if a.is_const():
                return b.scale(a.c)
            if b.is_const():
                return a.scale(b.c)
            x, y = sorted((a, b), key=repr)
            la, ha = st.bounds(a)
            lb, hb = st.bounds(b)
            try:
                c = [p * q for p in (la, ha) for q in (lb, hb)]
                return atom(("mul", x, y), min(c), max(c))
            except Exception:
                return atom(("mul", x, y))
        return None

    def binop(self, st, op, a, b, t):
        P = self.P
        if isinstance(a, Fv) and isinstance(b, Fv):
            return self.fbin(op, a, b)
        if op == "Cmp":
            if isinstance(a, Lin):
                return self.mkcmp(st, a, b)
            raise GiveUp("cmp")
        if isinstance(a, Bv) and isinstance(b, Bv):
            if op == "BitAnd":
                return bv(c_and(a.c, b.c))
            if op == "BitOr":
                return bv(c_or(a.c, b.c))
            if op in ("BitXor", "Ne", "Eq"):
                x, y = a.c, b.c
                if y is True or y is False:
                    x, y = y, x
                if x is True or x is False:
                    flip = (x is True) if op != "Eq" else (x is False)
                    return bv(c_not(y) if flip else y)
                if x == y:
                    return bv(op == "Eq")
                e = c_or(c_and(x, y), c_and(c_not(x), c_not(y)))
                return bv(e if op == "Eq" else c_not(e))
            a, b = self.b2i(a.c), self.b2i(b.c)
        if isinstance(a, Bv):
            a = self.b2i(a.c)
        if isinstance(b, Bv):
            b = self.b2i(b.c)
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if op in ("Eq", "Ne") and a == b:
                return bv(op == "Eq")
            if op == "BitAnd" and isinstance(a, BoxV) and isinstance(b, Lin):
                return ZERO                 # a box is aligned
            if op in ("Eq", "Ne") and isinstance(a, BoxV) and b == ZERO:
                return bv(op == "Ne")       # and not null
            if op == "Offset":
                raise GiveUp("pointer offset")
            raise GiveUp("binop %s on %s/%s" % (op, type(a).__name__, type(b).__name__))
        if op == "Eq":
            return bv(c_eq(a, b))
        if op == "Ne":
            return bv(c_not(c_eq(a, b)))
        if op == "Lt":
            return bv(c_lt(a, b))
        if op == "Le":
            return bv(c_le(a, b))
        if op == "Gt":
            return bv(c_lt(b, a))
        if op == "Ge":
            return bv(c_le(b, a))
        a = st.norm(a)
        b = st.norm(b)
        m = self.arith(st, op, a, b)
        if m is not None:
            return self.fit(st, m, t)
        op = op.replace("Unchecked", "")
        r = P.int_range(t)
        if op == "Shl":
            if b.is_const():
                return self.fit(st, a.scale(1 << b.c), t) if 0 <= b.c < 200 else atom(("shl", a, b), *r)
            # an exponent that is a multiple of one 0/1 quantity: 1 << 3*b = 1 + 7*b
            if len(b.t) == 1 and st.arange(b.t[0][0]) == (0, 1) and a.is_const():
                k0, k1 = b.c, b.c + b.t[0][1]
                if 0 <= k0 < 64 and 0 <= k1 < 64:
                    x = Lin(0, ((b.t[0][0], 1),))
                    return self.fit(st, (K(1 << k0) + x.scale((1 << k1) - (1 << k0))).scale(a.c), t)
            p = self.pow2(st, b)
            if a.is_const():
                return self.fit(st, p.scale(a.c), t)
            return self.fit(st, self.arith(st, "Mul", a, p), t)
        if op == "Shr":
            if b.is_const():
                if a.is_const():
                    return K(a.c >> b.c)
                if b.c == 0:
                    return a
                lo, hi = st.bounds(a)
                if lo >= 0 and hi < (1 << b.c):
                    return ZERO
                k = single(a)
                if k and k[0] == "rd" and isinstance(k[3], int) and k[3] > b.c:
                    return rd_atom(k[1], k[2] + b.c, k[3] - b.c)
                if k and k[0] == "shr":
                    return atom(("shr", k[1], k[2] + b.c), lo // (1 << b.c) if lo > -INF else lo, hi // (1 << b.c) if hi < INF else hi)
                return atom(("shr", a, b.c), lo // (1 << b.c) if lo > -INF else lo, hi // (1 << b.c) if hi < INF else hi)
            return atom(("shr", a, b), *r)
        if op == "BitAnd":
            if a.is_const() and b.is_const():
                return K(a.c & b.c)
            if a.is_const():
                a, b = b, a
            if b.is_const():
                if b.c == 0:
                    return ZERO
                lo, hi = st.bounds(a)
                if b.c > 0 and (b.c & (b.c + 1)) == 0:
                    if lo >= 0 and hi <= b.c:
                        return a
                    n = b.c.bit_length()
                    k = single(a)
                    if k and k[0] == "rd" and isinstance(k[3], int) and k[3] > n:
                        return rd_atom(k[1], k[2], n)
                    return atom(("mod2", a, n), 0, b.c)
                return atom(("and", a, b), min(0, r[0]), b.c if b.c > 0 else r[1])
            x, y = sorted((a, b), key=repr)
            return atom(("and", x, y), *r)
        if op in ("BitOr", "BitXor"):
            if a.is_const() and b.is_const():
                return K(a.c | b.c if op == "BitOr" else a.c ^ b.c)
            if a.is_const():
                a, b = b, a
            if b.is_const() and b.c == 0:
                return a
            if op == "BitXor":
                h = max(st.bounds(a)[1], st.bounds(b)[1])
                if r[0] == 0 and h < INF and st.bounds(a)[0] >= 0 and st.bounds(b)[0] >= 0:
                    r = (0, min(r[1], (1 << int(h).bit_length()) - 1))
                return xor_term(a, b, r)
            # disjoint bit ranges add
            la, ha = st.bounds(a)
            lb, hb = st.bounds(b)
            for x, hx, y in ((a, ha, b), (b, hb, a)):
                if 0 <= st.bounds(x)[0] and hx < INF:
                    w = 1 << int(hx).bit_length()
                    if st.bounds(y)[0] >= 0 and y.c % w == 0 and all(k % w == 0 for _, k in y.t):
                        return self.fit(st, x + y, t)
            x, y = sorted((a, b), key=repr)
            return atom(("or", x, y), *r)
        if op in ("Div", "Rem"):
            if a.is_const() and b.is_const() and b.c != 0:
                q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
                return K(q if op == "Div" else a.c - q * b.c)
            lo, hi = st.bounds(a)
            if b.is_const() and b.c > 0 and lo >= 0:
                if op == "Div":
                    if b.c == 1:
                        return a
                    q = atom(("div", a, b.c), lo // b.c, hi // b.c if hi < INF else hi)
                    st.assume(c_le(q.scale(b.c), a))
                    st.assume(c_le(a, q.scale(b.c) + (b.c - 1)))
                    return q
                if hi < b.c:
                    return a
                m = atom(("rem", a, b.c), 0, b.c - 1)
                st.assume(c_le(m, a))
                return m
            return atom((op.lower(), a, b), *r)
        raise GiveUp("binop %s" % op)

    def pow2(self, st, b):
        """2^b"""
        b = st.norm(b)
        if b.is_const():
            return K(1 << b.c)
        base = Lin(0, b.t)
        lo, hi = st.bounds(b)
        lo0, hi0 = lo - b.c, hi - b.c
        if b.c < 0 or lo0 < 0 or hi0 > 256:
            return self.mkpow2(b)
        return self.mkpow2(base).scale(1 << b.c)

    def mkpow2(self, b):
        a = atom(("pow2", b), 1, INF)
        DERIVED[a.t[0][0]] = b
        return a

    def fbin(self, op, a, b):
        x, y = a.t, b.t
        if op == "Lt":
            return bv(fcmp("flt", x, y))
        if op == "Gt":
            return bv(fcmp("flt", y, x))
        if op == "Eq":
            return bv(fcmp("feq", x, y))
        if op == "Ne":
            return bv(c_not(fcmp("feq", x, y)))
        if op == "Le":
            return bv(c_or(fcmp("flt", x, y), fcmp("feq", x, y)))
        if op == "Ge":
            return bv(c_or(fcmp("flt", y, x), fcmp("feq", x, y)))
        va, vb = fval(x), fval(y)
        w = x[2] if x[0] == "fc" else 32
        if va is not None and vb is not None and x[2] == 32:
            try:
                v = {"Add": va + vb, "Sub": va - vb, "Mul": va * vb, "Div": va / vb if vb else None}.get(op)
                if v is not None:
                    return Fv(("fc", struct.unpack("<I", struct.pack("<f", v))[0], 32))
            except (OverflowError, ZeroDivisionError):
                pass
        if op in ("Add", "Mul") and repr(x) > repr(y):
            x, y = y, x
        return Fv(("f" + op, x, y))

    def mkcmp(self, st, a, b):
        for v, c in ((0, c_lt(a, b)), (1, c_eq(a, b)), (2, c_lt(b, a))):
            if st.ev_cond(c) is True:
                return Agg("std::cmp::Ordering", v, ())
        return Sym(("cmp", a, b), self.ordering_ty())

    def ordering_ty(self):
        if self.ordering is None:
            for i, t in enumerate(self.P.T):
                if t["k"][0] == "adt" and t["k"][1] == "std::cmp::Ordering":
                    self.ordering = i
        return self.ordering

    # ---------------------------------------------------------------- control
    def variants_of(self, st, v, t=None):
        """[(variant, state, value)] - forks a symbolic enum over its variants"""
        if isinstance(v, Agg):
            return [(v.variant, st, v)]
        if isinstance(v, Sym):
            known = st.variants.get(v.k)
            if known is not None:
                return [(known, st, v)]
            out = []
            n = len(self.P.kind(v.ty)[3])
            if v.k[0] == "cmp":
                a, b = v.k[1], v.k[2]
                conds = (c_lt(a, b), c_eq(a, b), c_lt(b, a))
            elif v.k[0] == "scmp":
                a, b = v.k[1], v.k[2]
                lt = ("op", ("slt", a, b))
                e = seq_cond(a, b)
                conds = (c_and(lt, c_not(e)), e, c_and(c_not(lt), c_not(e)))
            elif v.k[0] == "fcmp":
                conds = (fcmp("flt", v.k[1], v.k[2]), fcmp("feq", v.k[1], v.k[2]), fcmp("flt", v.k[2], v.k[1]))
            elif v.k[0] == "mapold" and n == 2:
                import models
                has = models.has_cond(st, MapV(v.k[1]), v.k[2])
                conds = (c_not(has), has)
            else:
                conds = None
            for i in range(n):
                s = st.copy()
                if conds is not None and not s.assume(conds[i]):
                    continue
                s.variants[v.k] = i
                s.last = ("variant", v.k, i)
                out.append((i, s, v))
            self.stats["forks"] += len(out)
            return out
        raise GiveUp("discriminant of %s" % type(v).__name__)

    def discr_of(self, v, var, t=None):
        P = self.P
        if isinstance(v, Sym):
            return K(P.discr(v.ty, var))
        name = v.name
        if isinstance(name, str) and name in P.adts:
            return K(int(P.adts[name]["variants"][var][1]))
        if name == "std::cmp::Ordering":
            return K(var - 1)
        return K(var)

    def new_frame(self, st, inst, body, args, ret, tgt, name, site=None):
        f = Frame()
        f.inst = inst
        f.body = body
        f.loc = {}
        f.bb = 0
        f.ret = ret
        f.tgt = tgt
        f.depth = len(st.frames)
        f.active = ()
        f.unroll = ()
        f.name = name
        f.site = site
        if f.depth > 120:
            raise GiveUp("call depth")
        st.seq += 1
        base = self.fresh()
        nl = len(body["locals"]) if isinstance(body["locals"], list) else body["locals"]
        for i in range(nl):
            f.loc[i] = ("l", base, i)
        for i, a in enumerate(args):
            st.cells[f.loc[i + 1]] = a
        for i in list(range(len(args) + 1, nl)) + [0]:
            st.cells[f.loc[i]] = UNDEF
        st.frames.append(f)
        self.stats["calls"].add(name)
        return f

    def start(self, inst, args, st=None):
        st = st or State()
        b = self.P.insts[inst]["body"]
        ret = Ptr(("ret", self.fresh()), ())
        st.cells[ret.cell] = UNDEF
        self.new_frame(st, inst, b, args, ret, None, self.P.insts[inst]["name"])
        return st, ret

    def analyse(self, inst, args, st=None):
        """all paths of one function: list of terminal states (kind ret/panic/giveup)"""
        st, ret = self.start(inst, args, st)
        out = self.run([st], None)
        for s in out:
            if s.kind == "ret":
                s.value = s.cells[ret.cell]
        return out

    def run(self, states, stop):
        """stop: None or (depth, header, blocks)"""
        out = []
        wl = list(states)
        first = set(id(s) for s in states)
        while wl:
            st = wl.pop()
            try:
                while True:
                    if time.process_time() > self.deadline:
                        raise GiveUp("time budget")
                    if not st.frames:
                        st.kind = "ret"
                        out.append(st)
                        break
                    f = st.frames[-1]
                    if stop is not None:
                        d = len(st.frames) - 1
                        if d == stop[0]:
                            if f.bb == stop[1]:
                                if id(st) in first:
                                    first.discard(id(st))
                                else:
                                    st.kind = "back"
                                    out.append(st)
                                    break
                            elif f.bb not in stop[2]:
                                st.kind = "exit"
                                out.append(st)
                                break
                        elif d < stop[0]:
                            raise GiveUp("left frame inside loop")
                    lp = self.P.loops(f.body)
                    if f.bb in lp and not (stop is not None and len(st.frames) - 1 == stop[0] and f.bb == stop[1]):
                        res = self.loop(st, f.bb, lp[f.bb])
                        for s in res:
                            if s.kind in ("panic", "giveup"):
                                out.append(s)
                            else:
                                s.kind = None
                                wl.append(s)
                        break
                    nxt = self.block(st)
                    if len(nxt) == 1 and nxt[0].kind is None:
                        st = nxt[0]
                        continue
                    for s in nxt:
                        if s.kind is not None:
                            out.append(s)
                        else:
                            wl.append(s)
                    break
            except Infeasible:
                continue
            except GiveUp as e:
                if str(e) == "time budget":
                    raise
                st.kind = "giveup"
                st.info = (str(e), self.where(st))
                out.append(st)
            except ODD as e:
                if os.environ.get("VP_RAISE"):
                    raise
                st.kind = "giveup"
                st.info = ("%s: %s" % (type(e).__name__, str(e)[:80]), self.where(st))
                out.append(st)
            if len(out) + len(wl) > self.maxpaths:
                raise GiveUp("too many paths")
        return out

    def where(self, st):
        if not st.frames:
            return "?"
        f = st.frames[-1]
        ln = None
        try:
            ln = f.body["bb"][f.bb][2]
        except Exception:
            pass
        # nearest function of the crate on the stack
        for g in reversed(st.frames):
            if g.inst is not None and self.P.insts[g.inst].get("local"):
                i = self.P.insts[g.inst]
                try:
                    ln = g.body["bb"][g.bb][2]
                except Exception:
                    ln = None
                return "%s (%s:%s)" % (strip(i["def"]), self.P.fname(i), ln)
        return "%s:%s" % (f.name, ln)

    def stack(self, st):
        return [strip(self.P.insts[f.inst]["def"]) if f.inst is not None else f.name for f in st.frames]

    def block(self, st):
        """execute one basic block; list of successor states"""
        self.stats["blocks"] += 1
        f = st.frames[-1]
        stmts, term = f.body["bb"][f.bb][0], f.body["bb"][f.bb][1]
        states = [st]
        for s in stmts:
            nst = []
            for x in states:
                r = self.stmt(x, s)
                if r is None:
                    nst.append(x)
                else:
                    nst.extend(r)
            states = nst
        out = []
        for x in states:
            try:
                out.extend(self.term(x, term))
            except Infeasible:
                pass
            except GiveUp as e:
                if str(e) == "time budget":
                    raise
                x.kind = "giveup"
                x.info = (str(e), self.where(x))
                out.append(x)
            except ODD as e:
                if os.environ.get("VP_RAISE"):
                    raise
                x.kind = "giveup"
                x.info = ("%s: %s" % (type(e).__name__, str(e)[:80]), self.where(x))
                out.append(x)
        return out

    def stmt(self, st, s):
        k = s[0]
        if k == "=":
            r = s[2]
            if r[0] == "discr":
                v = self.read(st, self.place(st, r[1]))
                if isinstance(v, Agg):
                    self.write(st, self.place(st, s[1]), self.fit(st, self.discr_of(v, v.variant), self.place_ty(st, s[1])))
                    return None
                out = []
                for var, x, v in self.variants_of(st, v):
                    self.write(x, self.place(x, s[1]), self.fit(x, self.discr_of(v, var), self.place_ty(x, s[1])))
                    out.append(x)
                return out
            v = self.rvalue(st, r, self.place_ty(st, s[1]) if r[0] == "repeat" else None)
            dp = self.place(st, s[1])
            # an int cast that may wrap around zero: partition on the sign so that both sides stay exact
            if isinstance(v, Lin):
                kk = single(v)
                if kk is not None and kk[0] == "wrap" and r[0] == "cast":
                    lo, hi = st.bounds(kk[3])
                    rg = RANGE[atom_id(kk)]
                    if kk[1] == 0 and lo < 0 and hi <= rg[1] and lo >= -(1 << kk[2]):
                        out = []
                        for neg in (False, True):
                            x = st.copy() if not neg else st
                            if not x.assume(c_lt(kk[3], ZERO), neg):
                                continue
                            x.last = (c_lt(kk[3], ZERO), neg)
                            self.write(x, dp, kk[3] + (1 << kk[2]) if neg else kk[3])
                            out.append(x)
                        return out
            self.write(st, dp, v)
            return None
        if k == "sd":
            p = self.place(st, s[1])
            v = self.read(st, p)
            if isinstance(v, Agg):
                self.write(st, p, Agg(v.name, s[2], v.fields))
            else:
                t = self.place_ty(st, s[1])
                kk = self.P.kind(t)
                self.write(st, p, Agg(kk[1], s[2], tuple(UNDEF for _ in kk[3][s[2]])))
            return None
        if k == "assume":
            v = self.operand(st, s[1])
            if isinstance(v, Bv) and not st.assume(v.c):
                return []
            return None
        raise GiveUp("stmt %s" % k)

    def branch(self, st, c):
        """[(truth, state)]"""
        v = st.ev_cond(c)
        if v is not None:
            return [(v, st)]
        self.stats["forks"] += 1
        # decide leaf by leaf so that both sides keep exact facts
        lf = st.leaf(c)
        out = []
        for t in (False, True):
            x = st.copy()
            if x.assume(lf, t):
                x.last = (lf, t)
                out.extend(self.branch(x, c) if lf != c else [(t, x)])
        return out

    def goto(self, st, bb):
        st.frames[-1].bb = bb
        return st

    def term(self, st, t):
        k = t[0]
        f = st.frames[-1]
        if k == "goto":
            return [self.goto(st, t[1])]
        if k == "switch":
            v = self.operand(st, t[1])
            if isinstance(v, Bv):
                res = []
                for truth, x in self.branch(st, v.c):
                    b = t[3]
                    for val, bb in t[2]:
                        if int(val) == int(truth):
                            b = bb
                    res.append(self.goto(x, b))
                return res
            if isinstance(v, Lin):
                v = st.norm(v)
                res = []
                cur = st
                for val, bb in t[2]:
                    ty = self.op_ty(cur, t[1])
                    val = int(val)
                    if ty is not None:
                        r = self.P.int_range(ty)
                        if r and val > r[1]:
                            val -= 1 << self.P.kind(ty)[2]
                    c = c_eq(v, K(val))
                    e = cur.ev_cond(c)
                    if e is True:
                        res.append(self.goto(cur, bb))
                        return res
                    if e is None:
                        x = cur.copy()
                        self.stats["forks"] += 1
                        if x.assume(c, True):
                            x.last = (c, True)
                            res.append(self.goto(x, bb))
                        if not cur.assume(c, False):
                            return res
                        cur.last = (c, False)
                if t[3] is not None:
                    res.append(self.goto(cur, t[3]))
                return res
            raise GiveUp("switch on %s" % type(v).__name__)
        if k == "match":
            v = self.read(st, self.place(st, t[1]))
            res = []
            for var, x, v in self.variants_of(st, v):
                b = t[2].get(var, t[2].get(None))
                if b is not None:
                    res.append(self.goto(x, b))
            return res
        if k == "return":
            v = self.read(st, Ptr(f.loc[0], ()))
            for c in f.loc.values():
                st.cells.pop(c, None)
            st.frames.pop()
            if f.ret is not None:
                # the return place was resolved in the caller
                self.write(st, f.ret, v)
            if st.frames and f.tgt is not None:
                st.frames[-1].bb = f.tgt
            elif st.frames:
                raise GiveUp("return without target")
            return [st]
        if k == "unreachable":
            return []
        if k in ("resume", "abort"):
            return []
        if k == "drop":
            return [self.goto(st, t[2])]
        if k == "assert":
            c = self.operand(st, t[1])
            cond = c.c if t[2] else c_not(c.c)
            out = []
            for truth, x in self.branch(st, cond):
                if truth:
                    out.append(self.goto(x, t[5]))
                else:
                    out.append(self.panic(x, "assert:" + str(t[3]), cond))
            return out
        if k == "call":
            return self.call_term(st, t)
        if k == "py":
            args = [self.operand(st, o) for o in t[2]]
            return self.finish(st, t[1](self, st, args), t[3], t[4])
        if k == "icall":
            args = [self.operand(st, o) for o in t[2]]
            return self.finish(st, self.models.dispatch(self, st, t[1], args, None), t[3], t[4])
        if k == "callv":
            fv = self.operand(st, t[1])
            args = [self.operand(st, o) for o in t[2]]
            return self.call_value(st, fv, args, self.place(st, t[3]), t[4])
        raise GiveUp("terminator %s" % k)

    def panic(self, st, what, cond=None):
        st.kind = "panic"
        st.info = (what, self.where(st), cond, self.stack(st))
        return st

    def finish(self, st, r, dest, tgt):
        """r: value | [(state, value)] | ("push", body, args, name) | None when diverging"""
        if isinstance(r, tuple) and r and r[0] == "push":
            ret = self.place(st, dest)
            self.new_frame(st, None, r[1], r[2], ret, tgt, r[3])
            return [st]
        if isinstance(r, tuple) and r and r[0] == "inst":
            ret = self.place(st, dest)
            return self.enter(st, r[1], r[2], ret, tgt)
        if isinstance(r, tuple) and r and r[0] == "callv":
            return self.call_value(st, r[1], r[2], self.place(st, dest), tgt)
        if isinstance(r, list):
            out = []
            for x, v in r:
                if x.kind is not None:
                    out.append(x)
                    continue
                if isinstance(v, tuple) and v and v[0] in ("push", "inst", "callv"):
                    out.extend(self.finish(x, v, dest, tgt))
                    continue
                self.write(x, self.place(x, dest), v)
                if tgt is None:
                    continue
                out.append(self.goto(x, tgt))
            return out
        if tgt is None:
            return []
        self.write(st, self.place(st, dest), r)
        return [self.goto(st, tgt)]

    def call_term(self, st, t):
        fo = t[1]
        args = [self.operand(st, o) for o in t[2]]
        if fo[0] == "z":
            k = self.P.kind(fo[1])
            if k[0] == "fndef":
                return self.call_def(st, fo[1], args, t[3], t[4])
        fv = self.operand(st, fo)
        return self.call_value(st, fv, args, self.place(st, t[3]), t[4])

    def call_def(self, st, fty, args, dest, tgt):
        k = self.P.kind(fty)
        inst = k[3]
        r = self.models.dispatch(self, st, None, args, fty, dest=dest)
        if r is not NotImplemented:
            if tgt is None and not (isinstance(r, list) and any(x.kind for x, _ in r)) and not isinstance(r, tuple):
                return [] if not isinstance(r, list) else [x for x, _ in r if x.kind]
            return self.finish(st, r, dest, tgt)
        if inst is None:
            raise GiveUp("unresolved call %s" % k[1])
        ret = self.place(st, dest)
        return self.enter(st, inst, args, ret, tgt)

    def enter(self, st, inst, args, ret, tgt):
        i = self.P.insts[inst]
        body = i.get("body")
        if not body:
            raise GiveUp("no body for %s" % i["name"])
        if inst in self.cuts and st.frames:
            if self.on_cut is not None:
                self.on_cut(self, st, inst, args)
            out = []
            for x, v in self.cuts[inst](self, st, inst, args):
                self.write(x, ret, v)
                out.append(self.goto(x, tgt))
            return out
        # recursion
        for f in st.frames:
            if f.inst == inst:
                if self.on_recursion is not None:
                    out = []
                    for x, v in self.on_recursion(self, st, inst, args):
                        self.write(x, ret, v)
                        out.append(self.goto(x, tgt))
                    return out
                raise GiveUp("recursion into %s" % i["name"])
        if len(args) != body["argc"]:
            # "rust-call" ABI: the last argument is a tuple to spread
            if args and isinstance(args[-1], Agg) and args[-1].name == "()" and len(args) - 1 + len(args[-1].fields) == body["argc"]:
                args = args[:-1] + list(args[-1].fields)
            elif len(args) == 1 and body["argc"] == 0:
                args = []
            else:
                raise GiveUp("argument count of %s: %d vs %d" % (i["name"], len(args), body["argc"]))
        self.new_frame(st, inst, body, args, ret, tgt, i["name"])
        return [st]

    def call_value(self, st, fv, args, ret, tgt):
        """call a closure value / function item with plain arguments"""
        P = self.P
        while isinstance(fv, Ptr):
            inner = self.read(st, fv)
            if isinstance(inner, Agg) and isinstance(inner.name, tuple) and inner.name[0] == "closure":
                ct = inner.name[1]
                inst = P.kind(ct)[2]
                return self.enter_closure(st, inst, ct, fv, args, ret, tgt)
            fv = inner
        if isinstance(fv, Agg) and isinstance(fv.name, tuple) and fv.name[0] == "closure":
            ct = fv.name[1]
            inst = P.kind(ct)[2]
            b = P.insts[inst].get("body")
            if b and P.kind(b["locals"][1])[0] == "ref":
                cell = ("env", self.fresh())
                st.cells[cell] = fv
                return self.enter_closure(st, inst, ct, Ptr(cell, ()), args, ret, tgt)
            return self.enter_closure(st, inst, ct, fv, args, ret, tgt)
        if isinstance(fv, FnV):
            k = P.kind(fv.ty)
            if k[0] == "closure":
                inst = k[2]
                b = P.insts[inst].get("body")
                env = Agg(("closure", fv.ty), 0, ())
                if b and P.kind(b["locals"][1])[0] == "ref":
                    env = Ptr(("const", env), ())
                return self.enter(st, inst, [env] + args, ret, tgt)
            r = self.models.dispatch(self, st, None, args, fv.ty)
            if r is not NotImplemented:
                if isinstance(r, tuple) and r and r[0] == "push":
                    self.new_frame(st, None, r[1], r[2], ret, tgt, r[3])
                    return [st]
                if isinstance(r, tuple) and r and r[0] == "inst":
                    return self.enter(st, r[1], r[2], ret, tgt)
                if not isinstance(r, list):
                    r = [(st, r)]
                out = []
                for x, v in r:
                    if x.kind is not None:
                        out.append(x)
                        continue
                    if isinstance(v, tuple) and v and v[0] in ("push", "inst"):
                        if v[0] == "push":
                            self.new_frame(x, None, v[1], v[2], ret, tgt, v[3])
                            out.append(x)
                        else:
                            out.extend(self.enter(x, v[1], v[2], ret, tgt))
                        continue
                    self.write(x, ret, v)
                    out.append(self.goto(x, tgt))
                return out
            if k[3] is None:
                raise GiveUp("unresolved %s" % k[1])
            return self.enter(st, k[3], args, ret, tgt)
        raise GiveUp("call of %s" % type(fv).__name__)

    def enter_closure(self, st, inst, ct, env, args, ret, tgt):
        i = self.P.insts[inst]
        body = i.get("body")
        if not body:
            raise GiveUp("closure without body")
        if self.P.kind(body["locals"][1])[0] not in ("ref", "ptr") and isinstance(env, Ptr):
            env = self.read(st, env)
        return self.enter(st, inst, [env] + args, ret, tgt)

    # ---------------------------------------------------------------- loops
    def loop(self, st, header, blocks):
        import loops
        return loops.summarise(self, st, header, blocks)


def fcmp(op, x, y):
    if op == "feq" and repr(x) > repr(y):
        x, y = y, x
    a, b = fval(x), fval(y)
    if a is not None and b is not None:
        return a < b if op == "flt" else a == b
    for i, (t, c) in enumerate(((x, b), (y, a))):
        if t[0] == "fi" and t[1] == "fabs" and c is not None:
            # |u| against a constant
            u, p = t[2][0], (y, x)[i]
            n = ("fc", p[1] ^ (1 << (p[2] - 1)), p[2])
            if op == "feq":
                return c_or(fcmp("feq", u, p), fcmp("feq", u, n)) if c >= 0 else False
            if i == 0:
                return c_and(fcmp("flt", u, p), fcmp("flt", n, u)) if c >= 0 else False
            if c < 0:
                return fcmp("feq", u, u)
            return c_or(fcmp("flt", p, u), fcmp("flt", u, n))
    return ("op", (op, x, y))


def rd_atom(base, pos, n):
    if isinstance(n, Lin) and n.is_const():
        n = n.c
    if n == 0:
        return ZERO
    if isinstance(n, int):
        return atom(("rd", base, pos, n), 0, (1 << n) - 1)
    return atom(("rd", base, pos, n), 0, (1 << 64) - 1)


def xor_term(a, b, r):
    parts = {}
    c = 0
    for x in (a, b):
        k = single(x)
        items = k[1] if k is not None and k[0] == "xor" else (x,)
        if k is not None and k[0] == "xor":
            c ^= k[2]
        for i in items:
            if i.is_const():
                c ^= i.c
            else:
                parts[i] = parts.get(i, 0) ^ 1
    items = tuple(sorted((i for i, n in parts.items() if n), key=repr))
    if not items:
        return K(c)
    if c == 0 and len(items) == 1:
        return items[0]
    return atom(("xor", items, c), *r)
