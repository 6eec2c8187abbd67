"""Where may the parser panic?  Collects every terminal panic state of the analyses and decides which are certain."""
from terms import *
import absint


def collect(fn):
    """run an analysis and return (its result, the panic states its function analyses end in, functions analysed)"""
    found, calls, nstates = [], set(), [0]
    old = absint.Engine.analyse

    def analyse(self, inst, args, st=None):
        out = old(self, inst, args, st)
        nstates[0] += len(out)
        found.extend((self, s) for s in out if s.kind == "panic")
        calls.update(self.stats["calls"])
        return out
    absint.Engine.analyse = analyse
    try:
        r = fn()
    finally:
        absint.Engine.analyse = old
    return r, found, calls, nstates[0]


def cond_atoms(c, out):
    if c is True or c is False or c is None:
        return
    if c[0] in ("le0", "eq0"):
        out.update(c[1].atoms())
    elif c[0] == "not":
        cond_atoms(c[1], out)
    elif c[0] in ("and", "or"):
        cond_atoms(c[1], out)
        cond_atoms(c[2], out)
    elif c[0] == "op":
        key_atoms(c[1], out)


def key_atoms(k, out):
    if isinstance(k, Lin):
        out.update(k.atoms())
    elif isinstance(k, (tuple, frozenset)):
        for x in k:
            key_atoms(x, out)
    elif isinstance(k, V):
        key_atoms(k.key(), out)


# ------------------------------------------------------------------ is a panic certain?
class Unsure(Exception):
    pass


DERIVED = ("wrap", "pow2", "ctlz", "ctpop", "cttz", "div", "rem", "mod2", "mul", "and", "or", "shl", "shr", "bswap", "b2i", "discr")
EXTENT = ("rpos", "slo")


def root(k):
    """innermost object a path of a key starts from: ("a", i), ("file",), ..."""
    while isinstance(k, tuple) and k and isinstance(k[0], str):
        if k[0] in ("a", "hdr", "file"):
            return k
        nxt = next((x for x in k[1:] if isinstance(x, tuple)), None)
        if nxt is None:
            return k
        k = nxt
    return k


def value_atoms(x, out):
    """atoms whose value (not position) a condition depends on"""
    if isinstance(x, Lin):
        for a in x.atoms():
            k = ATOMS[a]
            if a in out:
                continue
            if k[0] in DERIVED:
                out.add(a)
                for y in k[1:]:
                    value_atoms(y, out)
            else:
                out.add(a)
    elif isinstance(x, Fv):
        value_atoms(x.t, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            value_atoms(y, out)


def is_extent(k):
    """where the input starts, ends and how far it has been read"""
    if k[0] in ("totbits", "start", "la", "ub", "larem"):
        return True
    if k[0] == "len" and k[1:] == (("file",),):
        return True
    return k[0] == "h" and isinstance(k[2], tuple) and k[2] and k[2][-1] in EXTENT


class Skip(Exception):
    """no value for this choice"""


def versions(free, val):
    """is this a triple of versions a header can have?  free: the atoms of major, minor and net version"""
    for i in range(0, len(free), 3):
        major, minor, net = free[i:i + 3]
        if val.get(net) and not (val.get(major, 868) > 865 and val.get(minor, 32) > 17):
            return False
    return True


class Witness:
    """evaluates the conditions of a path for one choice of the input values they depend on"""

    def __init__(self, st, val):
        self.st, self.val = st, val

    def lin(self, l):
        return l.c + sum(k * self.atom(a) for a, k in l.t)

    def atom(self, a):
        if a in self.val:
            return self.val[a]
        k = ATOMS[a]
        if k[0] in DERIVED:
            return self.derived(k)
        lo, hi = self.st.arange(a)
        if lo == hi:
            return lo
        raise Unsure("value of %s" % (k[0],))

    def derived(self, k):
        def v(x):
            return self.lin(x) if isinstance(x, Lin) else x
        h = k[0]
        if h == "wrap":
            r = v(k[3]) % (1 << k[2])
            return r - (1 << k[2]) if k[1] and r >= 1 << (k[2] - 1) else r
        if h == "pow2":
            e = v(k[1])
            if not 0 <= e < 200:
                raise Skip("power")
            return 1 << e
        if h in ("ctlz", "ctpop", "cttz", "bswap"):
            x = v(k[2]) % (1 << k[1])
            if h == "ctlz":
                return k[1] - x.bit_length()
            if h == "ctpop":
                return bin(x).count("1")
            if h == "cttz":
                return (x & -x).bit_length() - 1 if x else k[1]
            return int.from_bytes(x.to_bytes(k[1] // 8, "little"), "big")
        if h == "b2i":
            return int(self.cond(k[1]))
        x, y = v(k[1]), v(k[2])
        if h == "mul":
            return x * y
        if h == "and":
            return x & y
        if x < 0 or y < 0:
            raise Skip("negative operand")
        if h == "div":
            return x // y
        if h == "rem":
            return x % y
        if h == "and":
            return x & y
        if h == "or":
            return x | y
        if h == "shr":
            return x >> y
        raise Unsure(h)

    def fl(self, t):
        import struct
        c = absint.fval(t)
        if c is not None:
            return c

        def r32(x):
            return struct.unpack("<f", struct.pack("<f", x))[0]
        if t[0] == "i2f" and t[1] == 32:
            return r32(float(self.lin(t[2])))
        if t[0] in ("fMul", "fAdd", "fSub", "fDiv") and len(t) == 3:
            x, y = self.fl(t[1]), self.fl(t[2])
            return r32({"fMul": lambda: x * y, "fAdd": lambda: x + y, "fSub": lambda: x - y, "fDiv": lambda: x / y}[t[0]]())
        raise Unsure("float %s" % (t[0],))

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == "le0":
            return self.lin(c[1]) <= 0
        if c[0] == "eq0":
            return self.lin(c[1]) == 0
        if c[0] == "not":
            return not self.cond(c[1])
        if c[0] == "and":
            return self.cond(c[1]) and self.cond(c[2])
        if c[0] == "or":
            return self.cond(c[1]) or self.cond(c[2])
        k = c[1]
        if k[0] == "flt":
            return self.fl(k[1]) < self.fl(k[2])
        if k[0] == "feq":
            return self.fl(k[1]) == self.fl(k[2])
        raise Unsure("condition %s" % (k[0],))


def free_int(k, roots):
    """an integer that comes from the input unchecked: every value of its range occurs"""
    if k[0] == "rd" and root(k[1])[0] == "a":
        return True
    if k[0] == "le" and root(k[1])[0] == "file":
        return True
    if k[0] == "len" and root(k[1])[0] in ("a", "file", "hdr"):
        return not mentions_h(k)
    if k[0] == "s" and roots(root(k[1])):
        return not mentions_h(k)
    return False


def mentions_h(k):
    if isinstance(k, tuple):
        if k and k[0] in ("h", "l") and len(k) > 1:
            return True
        return any(mentions_h(x) for x in k)
    if isinstance(k, Lin):
        return any(mentions_h(ATOMS[a]) for a in k.atoms())
    return False


def certain(eng, st, roots=lambda r: False):
    """a witness (dict of input values) that the panic st is reached, or raise Unsure"""
    more = getattr(eng, "free_roots", ())
    if more:
        old = roots
        roots = lambda r: old(r) or r in more       # noqa: E731
    cond = st.info[2]
    if cond is not None:
        want = c_not(cond)
    elif st.last is None:
        return {}                       # no choice at all leads here
    elif st.last[0] == "variant":
        return variant(eng, st, st.last[1], roots)
    else:
        want = st.last[0] if st.last[1] else c_not(st.last[0])
    return holds(eng, st, want, roots)


def variant(eng, st, k, roots):
    if k[0] == "elem" and k[1] in getattr(eng, "free_vecs", ()):
        return {"variant": key_str(k)[:80]}
    if roots(root(k)) and not mentions_h(k):
        others = [x for x in st.variants if x != k and root(x) == root(k) and mentions_h(x) is False]
        if any(x[:1] == k[:1] and x[-1:] == k[-1:] for x in others):
            raise Unsure("more than one entry of tables")
        return {"variant": key_str(k)[:80]}
    raise Unsure("variant of %s" % key_str(k)[:80])


def ops_of(c, out):
    if isinstance(c, tuple):
        if c[0] == "op":
            out.append(c)
        elif c[0] in ("not", "and", "or"):
            for x in c[1:]:
                ops_of(x, out)
    return out


def holds(eng, st, want, roots):
    # splits that are no arithmetic
    o = ops_of(want, [])
    if o and want in (o[0], ("not", o[0])):
        k = o[0][1]
        if k[0] == "named":
            # any name may be in the list of objects or not
            return {"object listed": key_str(k[1])[:80] if isinstance(k[1], tuple) else str(k[1])[:80]}
        if k[0] == "has" and len(k) >= 2:
            # an entry of a table of actors, any history may leave it out
            same = [c for c in st.conds if c[0] == "op" and c[1][0] == "has" and c != o[0]]
            if any(c[1][2:] == k[2:] for c in same):
                raise Unsure("membership in several tables")
            return {"entry": st.conds.get(o[0])}
        if k[0] == "seq" and (k[1][0] == "c" or k[2][0] == "c"):
            x = k[1] if k[2][0] == "c" else k[2]
            if root(x)[0] in ("file", "hdr") or roots(root(x)) and not mentions_h(x):
                return {"text": key_str(x)[:80]}
    atoms = set()
    value_atoms(_flat(want), atoms)
    if any(is_extent(ATOMS[a]) for a in atoms):
        bad = [a for a in atoms if not is_extent(ATOMS[a]) and not free_int(ATOMS[a], roots) and ATOMS[a][0] not in DERIVED]
        if bad:
            raise Unsure("extent and %s" % (ATOMS[bad[0]][0],))
        if any(ATOMS[a][0] in ("la", "ub", "larem") for a in atoms):
            raise Unsure("lookahead")
        return {"input ends": cond_str(want)[:120]}
    rel, cons = closure(st, atoms)
    base = [a for a in rel if ATOMS[a][0] not in DERIVED and RANGE[a][0] != RANGE[a][1]]
    free = getattr(eng, "free_atoms", ())
    for a in base:
        if a not in free and not free_int(ATOMS[a], roots):
            raise Unsure("depends on %s" % key_str(ATOMS[a])[:80])
    if sum(1 for a in base if ATOMS[a][0] == "len") > 1:
        raise Unsure("several lengths")
    if len(base) > 4:
        raise Unsure("depends on %d values" % len(base))
    overlap(base)
    base.sort(key=lambda a: ATOMS[a][0] == "len")
    cons = [want] + cons
    for val in choices(st, base, cons, {}):
        w = Witness(st, val)
        try:
            if all(w.cond(c) for c in cons) and in_range(st, w, rel) and versions(free, val):
                return {key_str(ATOMS[a])[:100]: v for a, v in val.items()}
        except (OverflowError, ZeroDivisionError, Skip):
            pass
    raise Unsure("no witness found")


def in_range(st, w, rel):
    for a in rel:
        lo, hi = st.arange(a)
        if not lo <= w.atom(a) <= hi:
            return False
    return True


def _flat(c):
    if c is True or c is False:
        return ()
    if c[0] in ("le0", "eq0"):
        return c[1]
    if c[0] in ("not", "and", "or"):
        return tuple(_flat(x) for x in c[1:])
    return c[1]


def closure(st, atoms):
    rel = {a for a in atoms if not is_extent(ATOMS[a])}
    pool = []
    for f in st.facts:
        s = set()
        value_atoms(f, s)
        if any(is_extent(ATOMS[a]) for a in s):
            continue           # a long enough input satisfies it
        pool.append((s, ("le0", f)))
    for c, v in st.conds.items():
        s = set()
        value_atoms(_flat(c), s)
        if any(is_extent(ATOMS[a]) for a in s):
            continue
        pool.append((s, c if v else c_not(c)))
    # derived values whose interval is restricted
    for a in list(st.iv):
        if ATOMS[a][0] in DERIVED and st.iv[a] != RANGE[a]:
            s = set()
            value_atoms(Lin(0, ((a, 1),)), s)
            if not any(is_extent(ATOMS[b]) for b in s):
                pool.append((s, None))
    cons = []
    while True:
        hit = [p for p in pool if p[0] & rel]
        if not hit:
            return rel, cons
        pool = [p for p in pool if not p[0] & rel]
        for s, c in hit:
            rel |= s
            if c is not None:
                cons.append(c)


def overlap(base):
    rs = [(ATOMS[a][1], ATOMS[a][2], ATOMS[a][3]) for a in base if ATOMS[a][0] in ("rd", "le")]
    for i, x in enumerate(rs):
        for y in rs[i + 1:]:
            if x[0] == y[0]:
                d = x[1] - y[1]
                if d.is_const():
                    n = y[2] if d.c >= 0 else x[2]
                    if not isinstance(n, int) or abs(d.c) < n:
                        raise Unsure("overlapping reads")


def choices(st, base, cons, val, budget=None):
    if budget is None:
        budget = [4000]
    if not base:
        if budget[0] > 0:
            budget[0] -= 1
            yield dict(val)
        return
    a, rest = base[0], base[1:]
    lo, hi = st.arange(a)
    if lo == -INF or hi == INF:
        lo, hi = max(lo, -(1 << 63)), min(hi, (1 << 63) - 1)
    cand = []
    # values at which a linear condition becomes tight
    for c in cons:
        for l in linear(c):
            k = dict(l.t).get(a)
            if k and all(b == a or b in val or st.arange(b)[0] == st.arange(b)[1] for b in l.atoms()):
                r = l.c + sum(q * val.get(b, st.arange(b)[0]) for b, q in l.t if b != a)
                cand += [-r // k, -r // k + 1, -r // k - 1]
    # the same through the reinterpretation of an integer as signed or narrower
    for c in cons:
        for l in linear(c):
            for d, k in l.t:
                w = ATOMS[d]
                if w[0] == "wrap" and isinstance(w[3], Lin) and w[3].t == ((a, 1),):
                    r = l.c + sum(q * val.get(b, st.arange(b)[0]) for b, q in l.t if b != d and (b in val or st.arange(b)[0] > -INF))
                    cand += [(int(x) - w[3].c) % (1 << w[2]) for x in (-r // k, -r // k + 1, -r // k - 1)]
    cand += [lo, hi, lo + 1, hi - 1, (lo + hi) // 2, (lo + hi) // 2 + 1]
    seen = set()
    for v in cand:
        if lo <= v <= hi and v not in seen:
            seen.add(v)
            val[a] = int(v)
            yield from choices(st, rest, cons, val, budget)
            del val[a]


def linear(c):
    if c is True or c is False:
        return []
    if c[0] in ("le0", "eq0"):
        return [c[1]]
    if c[0] in ("not", "and", "or"):
        return [l for x in c[1:] for l in linear(x)]
    return []
