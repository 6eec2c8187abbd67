"""Equality, copies and order of the values of the public types: what the functions look at, field by field."""
import re, struct
from terms import *
from absint import Engine, State, GiveUp, Infeasible, fcmp
from netparse import Out, deref
from models import knorm

OPT = "std::option::Option"


class Und(Exception):
    pass


class Bad(Exception):
    pass


def whole(eng, st, v):
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    return v


class ValueEngine(Engine):
    """nested comparisons and clones of values are taken as given: those of the crate have obligations of their own"""

    def call_def(self, st, fty, args, dest, tgt):
        P = self.P
        raw = re.sub(r"<.*", "", P.kind(fty)[1])
        last = P.kind(fty)[1].rsplit("::", 1)[-1]
        if last in ("eq", "ne") and raw.startswith(("std::cmp::PartialEq", "core::cmp::PartialEq")):
            t = P.kind(fty)[2][0]
            while P.kind(t)[0] == "ref":
                t = P.kind(t)[1]
            if P.kind(t)[0] in ("adt", "array", "slice", "str", "tuple") and not P.tname(t).startswith("std::cmp::Ordering"):
                a, b = whole(self, st, args[0]), whole(self, st, args[1])
                if not (isinstance(a, Agg) and not a.fields and isinstance(b, Agg)):
                    c = same_parts(self, st, a, b)
                    return self.finish(st, bv(c if last == "eq" else c_not(c)), dest, tgt)
        if last == "eq_ignore_ascii_case":
            x, y = deep(self, st, args[0]), deep(self, st, args[1])
            return self.finish(st, Bv(("op", ("folded", x, y))), dest, tgt)
        if last == "clone" and raw.startswith(("std::clone::Clone", "core::clone::Clone")):
            return self.finish(st, whole(self, st, args[0]), dest, tgt)
        return Engine.call_def(self, st, fty, args, dest, tgt)


def same_parts(eng, st, a, b):
    """condition that two values are equal: that of their parts for tuples and arrays made for the comparison"""
    a, b = whole(eng, st, a), whole(eng, st, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and a.name not in eng.P.adts and a.name != OPT and isinstance(a.name, str) and len(a.fields) == len(b.fields) and not a.name.startswith("std::"):
        c = True
        for x, y in zip(a.fields, b.fields):
            c = c_and(c, same_parts(eng, st, x, y))
        return c
    if isinstance(a, VecV) and isinstance(b, VecV) and a.k[0] == "lit" and b.k[0] == "lit" and len(a.k[1]) == len(b.k[1]):
        c = True
        for x, y in zip(a.k[1], b.k[1]):
            c = c_and(c, same_parts(eng, st, x, y))
        return c
    if isinstance(a, Lin) and isinstance(b, Lin):
        return c_eq(a, b)
    if isinstance(a, Fv) and isinstance(b, Fv):
        return fcmp("feq", a.t, b.t)
    if isinstance(a, Bv) and isinstance(b, Bv):
        return c_or(c_and(a.c, b.c), c_and(c_not(a.c), c_not(b.c)))
    return same_cond(eng, st, a, b)


def same_cond(eng, st, a, b):
    x, y = deep(eng, st, a), deep(eng, st, b)
    if repr(y) < repr(x):
        x, y = y, x
    return ("op", ("same", x, y))


def deep(eng, st, v, n=0):
    if n > 12:
        return v
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if isinstance(v, Slice):
        x = eng.read(st, v.base)
        if isinstance(x, VecV) and st.norm(v.lo) == ZERO and st.norm(v.hi) == st.norm(x.len):
            v = x
        else:
            return IterV("part", (deep(eng, st, x, n + 1), st.norm(v.lo), st.norm(v.hi)))
    if isinstance(v, Sym) and v.k in st.variants:
        v = eng.expand(v, st.variants[v.k])
    if isinstance(v, Sym) and eng.P.kind(v.ty)[0] == "adt" and len(eng.P.kind(v.ty)[3]) == 1:
        v = eng.expand(v, 0)
    if isinstance(v, Agg):
        return Agg(v.name, v.variant, tuple(deep(eng, st, f, n + 1) for f in v.fields))
    if isinstance(v, BoxV):
        return BoxV(deep(eng, st, v.v, n + 1))
    return knorm(st, v)


def variant(eng, st, v):
    if isinstance(v, Agg):
        return v.variant
    if isinstance(v, Sym):
        k = st.variants.get(v.k)
        if k is None and len(eng.P.kind(v.ty)[3]) == 1:
            return 0
        return k
    return None


def known(st, c):
    if c in (True, False):
        return c
    return st.ev_cond(c)


def equal(eng, st, a, b):
    """True: equal on this path; False: different; None: the path does not say"""
    a, b = whole(eng, st, a), whole(eng, st, b)
    if isinstance(a, BoxV) and isinstance(b, BoxV):
        r = known(st, same_cond(eng, st, a, b))
        return r if r is not None else equal(eng, st, a.v, b.v)
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = st.norm(a - b)
        if d == ZERO:
            return True
        r = known(st, c_eq(a, b))
        if r is not None:
            return r
        if st.prove_le0(d) and st.prove_le0(-d):
            return True
        if st.prove_le0(d + 1) or st.prove_le0(K(1) - d):
            return False
        return None
    if isinstance(a, Fv) and isinstance(b, Fv):
        r = known(st, fcmp("feq", a.t, b.t))
        if r is not None:
            return r
        if known(st, fcmp("flt", a.t, b.t)) or known(st, fcmp("flt", b.t, a.t)):
            return False
        return None
    if isinstance(a, Bv) and isinstance(b, Bv):
        x, y = known(st, a.c), known(st, b.c)
        if x is not None and y is not None:
            return x == y
        return True if a == b else None
    r = known(st, same_cond(eng, st, a, b))
    if r is not None:
        return r
    if known(st, ("op", ("folded", deep(eng, st, a), deep(eng, st, b)))) is False:
        return False
    if isinstance(a, (Agg, Sym)) and isinstance(b, (Agg, Sym)):
        x, y = variant(eng, st, a), variant(eng, st, b)
        if x is None or y is None:
            return None
        if x != y:
            return False
        try:
            a = eng.expand(a, x) if isinstance(a, Sym) else a
            b = eng.expand(b, y) if isinstance(b, Sym) else b
        except GiveUp:
            return None
        if not a.fields and not b.fields:
            return True
        rs = [equal(eng, st, p, q) for p, q in zip(a.fields, b.fields)]
        return False if False in rs else None if None in rs else True
    if a == b:
        return True
    return None


def mention(k, x):
    if k == x:
        return True
    if isinstance(k, Lin):
        return any(mention(a, x) for a, _ in k.t)
    if isinstance(k, V):
        return any(mention(y, x) for y in k.key()[1:])
    if isinstance(k, (tuple, list, frozenset)):
        return any(mention(y, x) for y in k)
    return False


def root(v):
    """the name of a symbolic value, or None"""
    if isinstance(v, Lin):
        return v.t[0][0] if len(v.t) == 1 else None
    if isinstance(v, Fv):
        return v.t
    if isinstance(v, Bv):
        return v.c
    if isinstance(v, BoxV):
        return root(v.v)
    if isinstance(v, (Sym, StrV, VecV, MapV)):
        return v.k
    return None


def strange(c):
    """does a condition hold a place, an iterator or an item of a collection?"""
    if isinstance(c, (Ptr, Slice)) or isinstance(c, IterV) and c.kind != "part":
        return True
    if isinstance(c, Lin):
        return any(strange(a) for a, _ in c.t)
    if isinstance(c, V):
        return any(strange(y) for y in c.key()[1:])
    return isinstance(c, (tuple, list, frozenset)) and any(strange(y) for y in c)


def roots(eng, st, v):
    v = whole(eng, st, v)
    k = root(v)
    out = [] if k is None else [k]
    if isinstance(v, Sym):
        var = variant(eng, st, v)
        if var is not None:
            try:
                v = eng.expand(v, var)
            except GiveUp:
                pass
    if isinstance(v, Agg):
        for f in v.fields:
            out.extend(roots(eng, st, f))
    if isinstance(v, BoxV):
        out.extend(roots(eng, st, v.v))
    return out


def said(eng, st, v):
    """[(condition, holds)] on the path that speak of a value"""
    ks = roots(eng, st, v)
    out = [(c, t) for c, t in st.conds.items() if any(mention(c, k) for k in ks) or strange(c)]
    out += [(("le0", f), True) for f in st.facts if any(mention(f, k) for k in ks)]
    out += [(("between", k) + tuple(st.iv[k]), True) for k in ks if k in st.iv]
    out += [(("strs", k), True) for k in st.strs if any(mention(k, x) for x in ks)]
    out += [(("known", k), True) for k in st.fr if any(mention(k, x) for x in ks)]
    return out


def looked_at(eng, st, v):
    return bool(said(eng, st, v))


def forced(eng, st, a, b):
    """could what the path knows force two values to be equal? False only if there are certainly different ones"""
    have = said(eng, st, a) + [x for x in said(eng, st, b)]
    if not have:
        return False
    a, b = whole(eng, st, a), whole(eng, st, b)
    if isinstance(a, Fv) and isinstance(b, Fv):
        return not float_pair(eng, st, a, b)
    # equalities of opaque values force nothing but what follows from them
    link = {}

    def find(x):
        while link.get(x, x) != x:
            x = link[x]
        return x
    for c, t in have:
        if c[0] == "op" and c[1][0] in ("same", "folded") and not strange(c):
            if c[1][0] == "same" and t:
                link[find(c[1][1])] = find(c[1][2])
            continue
        return True
    x, y = deep(eng, st, a), deep(eng, st, b)
    if isinstance(x, (StrV, VecV)) and isinstance(y, type(x)):
        return find(x) == find(y)
    if isinstance(x, Sym) and isinstance(y, Sym):
        return find(x) == find(y) or any(mention(k, x.k) or mention(k, y.k) for k in link)
    return any(find(k) != k for k in link)


NUMS = [(1.0, 1.0000001), (0.0, 1e-30), (1.0, -1.0), (1.0, 1.0000002), (1e6, 1e6 + 0.0625), (0.25, 0.75), (1.0, 2.0), (0.0, 1e-8), (float("inf"), 3e38), (100.0, 100.25), (-0.5, 0.5)]


def float_eval(t, env):
    if t in env:
        return env[t]
    v = values_const(t)
    if v is not None:
        return v
    if t[0] == "fneg":
        return -float_eval(t[1], env)
    if t[0] in ("fAdd", "fSub", "fMul"):
        x, y = float_eval(t[1], env), float_eval(t[2], env)
        r = x + y if t[0] == "fAdd" else x - y if t[0] == "fSub" else x * y
        return struct.unpack("<f", struct.pack("<f", r))[0]
    if t[0] == "fi" and t[1] == "fabs":
        return abs(float_eval(t[2][0], env))
    raise Und("a float that is not known")


def values_const(t):
    from absint import fval
    return fval(t)


def float_pair(eng, st, a, b):
    """two different floats for which everything that the path says of them holds"""
    have = said(eng, st, a) + said(eng, st, b)
    if any(t[0] != "op" or t[1][0] not in ("flt", "feq") for t, _ in have if t[0] != "known"):
        return None
    for p in NUMS + [(y, x) for x, y in NUMS]:
        p = tuple(struct.unpack("<f", struct.pack("<f", x))[0] for x in p)
        if p[0] == p[1]:
            continue
        env = {a.t: p[0], b.t: p[1]}
        try:
            for c, truth in have:
                if c[0] == "known":
                    continue
                x, y = float_eval(c[1][1], env), float_eval(c[1][2], env)
                if (x < y if c[1][0] == "flt" else x == y) != truth:
                    break
            else:
                return p
        except (Und, OverflowError):
            return None
    return None


def split(eng, s, fa, fb, depth=0):
    """states in which the variants of fields are known where the path asked for one of them"""
    for p, q in zip(fa, fb):
        p, q = whole(eng, s, p), whole(eng, s, q)
        if not (isinstance(p, (Sym, Agg)) and isinstance(q, (Sym, Agg))):
            continue
        x, y = variant(eng, s, p), variant(eng, s, q)
        if (x is None) == (y is None) or depth > 8:
            continue
        out = []
        for _, z, _ in eng.variants_of(s.copy(), p if x is None else q):
            out.extend(split(eng, z, fa, fb, depth + 1))
        return out
    return [s]


def names(P, n, var):
    if n in P.adts:
        return P.adts[n]["variants"][var][0], P.adts[n]["variants"][var][2]
    return None, None


def fields_of(eng, st, v):
    var = variant(eng, st, v)
    if var is None:
        return None, None
    if isinstance(v, Sym):
        v = eng.expand(v, var)
    return var, v.fields


def answers(eng, out):
    """[(answer, state)] of a function that answers yes or no"""
    for s in out:
        if s.kind == "giveup":
            raise Und(str(s.info)[:300])
        if s.kind != "ret":
            raise Bad("can panic")
        v = s.value
        s.kind = None
        if isinstance(v, Lin):
            v = Bv(c_not(c_eq(v, ZERO)))
        if not isinstance(v, Bv):
            raise Und("an answer that is a %s" % type(v).__name__)
        for truth, x in eng.branch(s, v.c):
            yield truth, x


def setup(P, inst, o, binary=True):
    eng = ValueEngine(P, limit=60)
    st = State()
    L = P.insts[inst]["body"]["locals"]
    t = L[1]
    while P.kind(t)[0] == "ref":
        t = P.kind(t)[1]
    a = Ptr(("self", 0), ())
    st.cells[a.cell] = eng.mksym(t, ("self",))
    args = [a]
    if binary:
        b = Ptr(("other", 0), ())
        st.cells[b.cell] = eng.mksym(t, ("other",))
        args.append(b)
    for i, p in enumerate(args):
        if P.kind(L[i + 1])[0] != "ref":
            args[i] = st.cells[p.cell]
    out = eng.analyse(inst, args, st)
    o.took(eng, out)
    return eng, t, out


def short(n):
    return n.rsplit("::", 1)[-1]


def check_eq(P, inst, o, sign=True):
    """problems of an equality: [(what)]"""
    eng, t, out = setup(P, inst, o)
    n = P.kind(t)[1]
    bad, cases, und = [], 0, []
    work = list(answers(eng, out))
    while work:
        truth, s = work.pop()
        cases += 1
        truth = truth == sign
        a, b = s.cells[("self", 0)], s.cells[("other", 0)]
        r = known(s, same_cond(eng, s, a, b))
        if r is not None:
            # decided by another function that compares the same two values
            if r != truth:
                bad.append("says the opposite of the equality")
            continue
        va, fa = fields_of(eng, s, a)
        vb, fb = fields_of(eng, s, b)
        if va is None or vb is None:
            cases -= 1
            work.extend((truth == sign, z) for _, z, _ in eng.variants_of(s.copy(), a if va is None else b))
            continue
        if va != vb:
            if truth:
                bad.append("two values are equal although one is a %s and the other a %s" % (names(P, n, va)[0], names(P, n, vb)[0]))
            continue
        vn, fns = names(P, n, va)
        what = "" if len(P.adts[n]["variants"]) == 1 else "%s: " % vn
        for x in split(eng, s, fa, fb):
            rs = [equal(eng, x, p, q) for p, q in zip(fa, fb)]
            loops = any(e[0] == "loop" for e in x.events())
            for i, r in enumerate(rs):
                fn = fns[i] if fns and i < len(fns) else str(i)
                if truth and r is False:
                    bad.append("%stwo values are equal although %s differs" % (what, fn))
                elif truth and r is None:
                    if loops or forced(eng, x, fa[i], fb[i]):
                        und.append("%s%s is compared in a way that is not known" % (what, fn))
                        continue
                    bad.append("%stwo values are equal although %s may differ" % (what, fn))
            if not truth and False not in rs:
                if loops or any(r is None and (looked_at(eng, x, p) or looked_at(eng, x, q)) for r, p, q in zip(rs, fa, fb)):
                    und.append("%sa difference that is not known" % what)
                    continue
                bad.append("%stwo values differ although all that was compared is equal" % what)
    if und and not bad:
        raise Und(und[0])
    return list(dict.fromkeys(bad)), cases


def check_clone(P, inst, o):
    eng, t, out = setup(P, inst, o, binary=False)
    bad, cases = [], 0
    n = P.kind(t)[1]
    for s in out:
        if s.kind == "giveup":
            raise Und(str(s.info)[:300])
        if s.kind != "ret":
            raise Bad("can panic")
        cases += 1
        a, r = deep(eng, s, s.cells[("self", 0)]), deep(eng, s, s.value)
        if a == r:
            continue
        if isinstance(a, Agg) and isinstance(r, Agg):
            if a.variant != r.variant:
                bad.append("the clone of a %s is a %s" % (names(P, n, a.variant)[0], names(P, n, r.variant)[0]))
                continue
            fns = names(P, n, a.variant)[1]
            for i, (x, y) in enumerate(zip(a.fields, r.fields)):
                if x != y:
                    fn = fns[i] if fns and i < len(fns) else str(i)
                    if any(e[0] == "loop" for e in s.events()) or not definite(y):
                        raise Und("%s is copied in a way that is not known" % fn)
                    bad.append("the clone has another %s" % fn)
            continue
        raise Und("a clone that is a %s" % type(s.value).__name__)
    return list(dict.fromkeys(bad)), cases


def definite(v):
    """a value made of the fields and constants only"""
    if isinstance(v, (Lin, Fv, Bv)):
        return True
    if isinstance(v, Agg):
        return all(definite(f) for f in v.fields)
    if isinstance(v, BoxV):
        return definite(v.v)
    if isinstance(v, StrV):
        return v.k[0] == "c" or mention(v.k, ("self",))
    if isinstance(v, VecV):
        return v.k[0] == "lit" or mention(v.k, ("self",))
    if isinstance(v, Sym):
        return mention(v.k, ("self",))
    return False


def number(eng, s, v):
    v = whole(eng, s, v)
    if isinstance(v, Sym):
        v = eng.expand(v, 0)
    if isinstance(v, Agg) and len(v.fields) == 1:
        v = whole(eng, s, v.fields[0])
    if not isinstance(v, Lin):
        raise Und("a number that is a %s" % type(v).__name__)
    return v


def orders(eng, s, v):
    """[(less, equal or greater, state)]"""
    v = whole(eng, s, v)
    if isinstance(v, (Agg, Sym)):
        k = eng.P.kind(v.ty)[1] if isinstance(v, Sym) else v.name
        for var, x, y in eng.variants_of(s, v):
            if k == OPT:
                if var == 0:
                    yield None, x
                else:
                    yield from orders(eng, x, eng.proj(x, eng.proj(x, y, ("d", 1)), ("f", 0)))
            else:
                yield var - 1, x
        return
    raise Und("an order that is a %s" % type(v).__name__)


def check_order(P, inst, o, want):
    """want: "order" or a set of the orders that are answered with yes"""
    eng, t, out = setup(P, inst, o)
    bad, cases = [], 0

    def sure(s, lo, k):
        d = s.norm(lo)
        return s.prove_le0(d + k)
    for s in out:
        if s.kind == "giveup":
            raise Und(str(s.info)[:300])
        if s.kind != "ret":
            raise Bad("can panic")
        s.kind = None
        if want == "order":
            rs = list(orders(eng, s, s.value))
        else:
            v = s.value
            rs = [(tr, x) for tr, x in eng.branch(s, v.c)] if isinstance(v, Bv) else None
            if rs is None:
                raise Und("an answer that is a %s" % type(v).__name__)
        for r, x in rs:
            a, b = number(eng, x, x.cells[("self", 0)]), number(eng, x, x.cells[("other", 0)])
            for k, c in ((-1, c_lt(a, b)), (0, c_eq(a, b)), (1, c_lt(b, a))):
                y = x.copy()
                if not y.assume(c):
                    continue
                if any(m is False for m in [known(y, c)]):
                    continue
                cases += 1
                right = r == k if want == "order" else r == (k in want)
                if not right:
                    bad.append("two ids of which the first is %s are taken as %s" % (
                        ("smaller", "equal", "larger")[k + 1], {None: "not comparable", -1: "smaller", 0: "equal", 1: "larger", True: "so ordered", False: "not so ordered"}[r if want == "order" else bool(r)]))
    return list(dict.fromkeys(bad)), cases


def check_number(P, inst, o):
    eng = ValueEngine(P, limit=60)
    st = State()
    L = P.insts[inst]["body"]["locals"]
    v = eng.mksym(L[1], ("self",))
    out = eng.analyse(inst, [v], st)
    o.took(eng, out)
    bad, cases = [], 0
    for s in out:
        if s.kind == "giveup":
            raise Und(str(s.info)[:300])
        if s.kind != "ret":
            raise Bad("can panic")
        s.kind = None
        a = number(eng, s, v)
        wide = P.tname(L[0]) == "usize"
        if wide and not s.assume(c_le(ZERO, a)):
            continue
        cases += 1
        if not isinstance(s.value, Lin):
            raise Und("a number that is a %s" % type(s.value).__name__)
        if s.norm(s.value - a) != ZERO and not (s.prove_le0(s.value - a) and s.prove_le0(a - s.value)):
            bad.append("the number of an id is not the number it is converted to")
    return bad, cases
