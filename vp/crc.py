"""The checksum: every loop step of calc_crc as an affine map over GF(2), against the step of the reference polynomial division.

The accumulator of the code is the reference's register under one of a few changes of representation (bytes reversed, bits reversed, complemented);
that this holds before a loop, is kept by an arbitrary iteration of it and gives the right result at the end is decided by linear algebra over the bits.
"""
from terms import *
from absint import Infeasible
from netparse import Out, run, givenups, loops_in

POLY, INIT, XOROUT = 0x04C11DB7, 0x10340DFE, 0xFFFFFFFF
W = 64
DBG = 0


class No(Exception):
    """not affine, or not understood"""


class Space:
    """bit variables; a form is an int: bit 0 the constant, bit i+1 the variable i"""

    def __init__(self):
        self.ix = {}

    def var(self, k):
        if k not in self.ix:
            self.ix[k] = len(self.ix)
        return 1 << (self.ix[k] + 1)

    def name(self, i):
        for k, v in self.ix.items():
            if v == i:
                return k


def const(n):
    return [n >> i & 1 for i in range(W)]


def shift(b, n):
    """n > 0: to the left"""
    r = [0] * W
    for i in range(W):
        j = i - n
        if 0 <= j < W:
            r[i] = b[j]
    return r


def xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def disjoint(a, b):
    return all(not x or not y for x, y in zip(a, b))


class Ev:
    def __init__(self, sp, src, st, accs=()):
        self.accs = accs
        self.sp, self.src, self.st, self.memo, self.bytes = sp, src, st, {}, set()

    def lin(self, l, mod=None):
        """bits of a linear form (taken modulo 2^mod if given)"""
        l = self.st.norm(l)
        if l.is_const():
            return const(l.c % (1 << (mod or W)) if l.c >= 0 or mod else self.neg())
        # complement
        if len(l.t) == 1 and l.t[0][1] == -1 and (l.c == -1 and mod or l.c > 0 and (l.c & (l.c + 1)) == 0):
            w = mod if l.c == -1 else l.c.bit_length()
            b = self.atom(l.t[0][0])
            if any(b[w:]):
                raise No("complement")
            return [b[i] ^ 1 if i < w else 0 for i in range(W)]
        out = const(l.c % (1 << mod) if mod else l.c if l.c >= 0 else self.neg())
        for a, k in l.t:
            b = self.atom(a)
            if mod:
                k %= 1 << mod
            if k > 0 and k & (k - 1) == 0:
                b = shift(b, k.bit_length() - 1)
            elif not any(b[1:]) and k > 0:
                b = [b[0] if k >> i & 1 else 0 for i in range(W)]
            else:
                raise No("factor %d" % k)
            if mod:
                b = [b[i] if i < mod else 0 for i in range(W)]
            if not disjoint(out, b):
                raise No("sum with carries")
            out = xor(out, b)
        return out

    def neg(self):
        raise No("negative")

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        r = self.key(a, ATOMS[a])
        iv = self.st.iv.get(a)
        if iv and iv[0] == iv[1] and iv[0] >= 0:
            pass
        self.memo[a] = r
        return r

    def key(self, a, k):
        h = k[0]
        if h == "xor":
            r = const(k[2])
            for x in k[1]:
                r = xor(r, self.lin(x))
            return r
        if h == "mod2":
            b = self.lin(k[1], k[2] if not isinstance(k[1], Lin) or len(k[1].t) > 1 else None)
            return [b[i] if i < k[2] else 0 for i in range(W)]
        if h == "rem" and isinstance(k[2], int) and k[2] & (k[2] - 1) == 0:
            n = k[2].bit_length() - 1
            b = self.lin(k[1])
            return [b[i] if i < n else 0 for i in range(W)]
        if h == "div" and isinstance(k[2], int) and k[2] & (k[2] - 1) == 0:
            return shift(self.lin(k[1]), -(k[2].bit_length() - 1))
        if h in ("shr", "shl"):
            n = k[2]
            if isinstance(n, Lin):
                if not n.is_const():
                    raise No("shift by a variable")
                n = n.c
            return shift(self.lin(k[1]), -n if h == "shr" else n)
        if h in ("and", "or"):
            x, y = self.lin(k[1]), self.lin(k[2])
            if h == "or":
                if disjoint(x, y):
                    return xor(x, y)
            for p, q in ((x, y), (y, x)):
                if all(i in (0, 1) for i in p):
                    if h == "and":
                        return [q[i] if p[i] else 0 for i in range(W)]
                    return [1 if p[i] else q[i] for i in range(W)]
            # one side is a single bit repeated
            for p, q in ((x, y), (y, x)):
                s = {i for i in p if i}
                if h == "and" and len(s) == 1 and all(i in (0, 1) for i in q):
                    return [p[i] if q[i] else 0 for i in range(W)]
            raise No(h)
        if h == "bswap":
            n, b = k[1], self.lin(k[2])
            if any(b[n:]):
                raise No("bswap")
            r = [0] * W
            for i in range(n):
                r[(n // 8 - 1 - i // 8) * 8 + i % 8] = b[i]
            return r
        if h == "wrap" and not k[1]:
            return self.lin(k[3], k[2])
        if h == "le" and k[1] == self.src:
            r = [0] * W
            for j in range(k[3]):
                off = self.st.norm(k[2] + j)
                self.bytes.add(off)
                for i in range(8):
                    r[8 * j + i] = self.sp.var(("byte", off, i))
            return r
        if h == "s" and isinstance(k[1], tuple) and k[1][0] == "elem" and k[1][1][0] == "const":
            return self.table(k[1][1][1], k[1][2])
        if h == "h":
            lo, hi = RANGE[a]
            if hi == INF and a in self.accs:
                lo, hi = 0, 0xFFFFFFFF      # by induction: its first value and that after an iteration are checked to fit
            iv = self.st.iv.get(a)
            if iv:
                lo, hi = max(lo, iv[0]), min(hi, iv[1])
            if lo < 0 or hi >= 1 << W:
                raise No("range of %s" % key_str(k)[:60])
            return [self.sp.var(("acc", a, i)) if i < int(hi).bit_length() else 0 for i in range(W)]
        raise No("term %s" % key_str(k)[:100])

    def table(self, mem, idx):
        b = self.lin(idx)
        n = max([i + 1 for i in range(W) if b[i]] or [0])
        if n > 12:
            raise No("index of a table")
        rows = []
        for i in range(min(mem.n, 1 << n)):
            v = mem.get(i)
            if not isinstance(v, Lin) or not v.is_const() or v.c < 0:
                raise No("content of a table")
            rows.append(v.c)
        if len(rows) < 1 << n:
            raise No("index past a table")
        base = rows[0]
        basis = [rows[1 << i] ^ base for i in range(n)]
        for i in range(1 << n):
            v = base
            for j in range(n):
                if i >> j & 1:
                    v ^= basis[j]
            if v != rows[i]:
                return self.odd(rows, n, i)
        r = const(base)
        for j in range(n):
            for i in range(W):
                if basis[j] >> i & 1:
                    r[i] ^= b[j]
        return r

    def odd(self, rows, n, i):
        raise Mism("a table used by the checksum is not the table of any polynomial: its entry %d is not the sum of its entries for the bits of %d" % (i, i))

    def constraints(self):
        """forms that are 0 on this path"""
        out = []
        st = self.st

        def single(l, holds):
            # a linear form that depends on one bit only
            try:
                c, forms = l.c, {}
                for a, k in l.t:
                    for i, f in enumerate(self.atom(a)):
                        if f in (0, 1):
                            c += k * (f << i)
                        else:
                            neg = f & 1
                            g = f & ~1
                            forms[g] = forms.get(g, 0) + (-k if neg else k) * (1 << i)
                            if neg:
                                c += k * (1 << i)
            except No:
                return
            forms = {f: k for f, k in forms.items() if k}
            if len(forms) != 1:
                return
            (f, k), = forms.items()
            t0, t1 = holds(c), holds(c + k)
            if t0 and not t1:
                out.append(f)
            elif t1 and not t0:
                out.append(f ^ 1)
        for f in st.facts:
            single(st.norm(f), lambda v: v <= 0)
        for a, (lo, hi) in st.iv.items():
            single(Lin(0, ((a, 1),)), lambda v: lo <= v <= hi)
        for c, t in st.conds.items():
            if c[0] == "eq0":
                single(st.norm(c[1]), lambda v: (v == 0) == t)
            elif c[0] == "le0":
                single(st.norm(c[1]), lambda v: (v <= 0) == t)
        return out


class Mism(Exception):
    pass


def reduce_(f, rows):
    for p, r in rows:
        if f >> p & 1:
            f ^= r
    return f


def echelon(cs):
    rows = []
    for c in cs:
        c = reduce_(c, rows)
        v = c & ~1
        if v:
            p = v.bit_length() - 1
            rows = [(q, reduce_(r, [(p, c)])) for q, r in rows] + [(p, c)]
        elif c:
            raise Infeasible()
    return rows


# ------------------------------------------------------------------ the reference
def ref_init():
    return [INIT >> i & 1 for i in range(32)]


def ref_step(c, byte):
    """c, byte: forms; the register after one byte, most significant bit first"""
    c = [c[i] ^ (byte[i - 24] if i >= 24 else 0) for i in range(32)]
    for _ in range(8):
        top = c[31]
        c = [0] + c[:31]
        c = [c[i] ^ (top if POLY >> i & 1 else 0) for i in range(32)]
    return c


def swap(b):
    return [b[(3 - i // 8) * 8 + i % 8] for i in range(32)]


REPS = []
for s in (0, 1):
    for r in (0, 1):
        for n in (0, 1):
            REPS.append((s, r, n))


def rep(b, how):
    """all of these are their own inverse"""
    s, r, n = how
    b = list(b)
    if s:
        b = swap(b)
    if r:
        b = b[::-1]
    if n:
        b = [x ^ 1 for x in b]
    return b


def unrep(b, how):
    s, r, n = how
    b = list(b)
    if n:
        b = [x ^ 1 for x in b]
    if r:
        b = b[::-1]
    if s:
        b = swap(b)
    return b


# ------------------------------------------------------------------ positions
def rems(st, l):
    """l with remainders of the length written out where the path pins the quotient"""
    return st.norm(l)


def same_pos(st, a, b, recs=()):
    """are two positions equal on the path: True, False (they can differ) or None"""
    d = st.norm(a - b)
    if d == ZERO:
        return True
    if st.ev_cond(c_eq(d, ZERO)) is True:
        return True
    for x, k in d.t:
        q = ATOMS[x]
        if q[0] in ("rem", "div") and isinstance(q[2], int) or q[0] == "mod2":
            m, num = q[2] if q[0] != "mod2" else 1 << q[2], q[1]
            # num - m*n in [0, m): the remainder is that
            for y in {z for f in st.facts for z, _ in f.t} | {z for z, _ in d.t}:
                if ATOMS[y][0] != "n":
                    continue
                c = num - Lin(0, ((y, m),))
                if st.prove_le0(-c) and st.prove_le0(c - (m - 1)):
                    return same_pos(st, d + (Lin(0, ((y, 1),)) if q[0] == "div" else c).scale(k) - Lin(0, ((x, k),)), ZERO, recs)
    return refute(st, d, recs)


DEP = {"rem": lambda v, w: v % w if w > 0 else 0, "div": lambda v, w: v // w if w > 0 else 0, "mod2": lambda v, w: v % (1 << w),
       "and": lambda v, w: v & w, "or": lambda v, w: v | w, "shr": lambda v, w: v >> w}


def deps(x, free):
    for f in ATOMS[x][1:3]:
        if isinstance(f, Lin):
            for y, _ in f.t:
                if ATOMS[y][0] in DEP:
                    if not deps(y, free):
                        return False
                elif ATOMS[y][0] in ("len", "n"):
                    free.append(y)
                else:
                    return False
    return True


def refute(st, d, recs):
    if DBG: print("REFUTE", d, st.facts, {str(ATOMS[a])[:50]: v for a, v in st.iv.items()}, [(str(c)[:100], t) for c, t in st.conds.items()])
    """False when some length and iteration counts within what the path knows give d != 0"""
    at = sorted({x for x, _ in d.t} | {x for f in st.facts for x, _ in f.t} | {x for x in st.iv})
    free, dep = [], []
    for x in at:
        k = ATOMS[x]
        if k[0] in ("len", "n"):
            free.append(x)
        elif k[0] in DEP:
            dep.append(x)
            if not deps(x, free):
                return None
        elif x in {y for y, _ in d.t}:
            return None
    known = set(free) | set(dep)
    free = list(dict.fromkeys(free))
    facts = [f for f in st.facts if all(x in known for x, _ in f.t)]
    conds = [(c, t) for c, t in st.conds.items() if c[0] in ("le0", "eq0") and all(x in known for x, _ in c[1].t)]
    if len(free) > 4:
        return None
    import itertools
    lens = [x for x in free if ATOMS[x][0] == "len"]
    ns = [x for x in free if ATOMS[x][0] == "n"]
    if len(lens) != 1:
        return None

    def val(l, env):
        r = l.c
        for x, k in l.t:
            if x in env:
                r += k * env[x]
            else:
                q = ATOMS[x]
                v = val(q[1], env)
                w = q[2] if isinstance(q[2], int) else val(q[2], env)
                r += k * DEP[q[0]](v, w)
        return r
    big = sorted({abs(f.c) + e for f in facts + [d] + [K(v) for x in free for v in st.iv.get(x, ()) if abs(v) < 1 << 40] for e in range(-17, 18)
                  if abs(f.c) > 60})[:400]
    for ln in list(range(0, 70)) + big:
        some = []
        for x in ns:
            lo, hi = st.iv.get(x, RANGE[x])
            cs = set(range(0, 41)) | {lo + e for e in range(20)} | {ln // k + e for k in {1, 16, rate_of(recs)} for e in (-1, 0, 1)}
            some.append(sorted(v for v in cs if lo <= v <= min(hi, ln)))
        if len(ns) > 1 and ln >= 70:
            some = [v[:1] + v[-18:] for v in some]
        for c in itertools.product(*some):
            env = dict(zip(ns, c))
            env[lens[0]] = ln
            if any(val(f, env) > 0 for f in facts):
                continue
            if any((val(c2[1], env) <= 0 if c2[0] == "le0" else val(c2[1], env) == 0) != t for c2, t in conds):
                continue
            if any(not (lo <= env[x] <= hi) for x, (lo, hi) in st.iv.items() if x in env):
                continue
            if val(d, env) != 0 and all(rounds(r, env, known, val) for r in recs):
                return False
    return None


def rate_of(recs):
    """bytes per iteration, as far as a coefficient of the facts shows it"""
    r = [abs(k) for rec in recs for x, _ in rec.iters for f in x.facts for a, k in f.t if a == rec.n.t[0][0]]
    return max(r + [1])


def rounds(rec, env, known, val):
    """can the loop go round as often as env says?"""
    a = rec.n.t[0][0]
    top = env.get(a, 0)
    for m in range(top) if top < 100 else (0, 1, top // 2, top - 2, top - 1):
        e = dict(env)
        e[a] = m
        if not any(all(val(f, e) <= 0 for f in x.facts if all(z in known and (z in e or ATOMS[z][0] in DEP) for z, _ in f.t)) for x, _ in rec.iters):
            return False
    return True


def differs(sp, eqs, a, b):
    """first bit at which two registers differ on the path"""
    for i in range(32):
        if reduce_(a[i] ^ b[i], eqs):
            return i
    return None


def check(P):
    o = Out()
    ids = [n for n, x in enumerate(P.insts) if x["name"].endswith("crc::calc_crc") and x.get("body")]
    where = "src/crc.rs calc_crc"
    if len(ids) != 1:
        o.undecided("%d functions named calc_crc" % len(ids))
        return o
    eng, args, out = run(P, ids[0], {})
    o.took(eng, out)
    givenups(o, out, where)
    for s in out:
        if s.kind != "ret":
            continue
        try:
            path(o, eng, s, args[0], where)
        except Mism as e:
            o.mismatch(where, str(e))
        except No as e:
            o.undecided("%s: %s" % (where, e))
        except Infeasible:
            pass
    return o


def path(o, eng, s, data, where):
    src = None
    total = s.norm(data.hi - data.lo)
    k = eng.bytes_key(s, data) if hasattr(eng, "bytes_key") else None
    src = k if k is not None else ("s", ("a", 0))
    consumed = ZERO
    reg = None                  # (atom of the accumulator, representation) of the last loop
    recs = loops_in(s)
    if any(outer for _, outer in recs):
        raise No("nested loops")
    sp, accs = Space(), []
    recs_ = [r for r, _ in recs]
    for rec, _ in recs:
        heads = []
        for loc, (init, head) in rec.heads.items():
            if isinstance(head, Lin) and len(head.t) == 1 and head.c == 0 and ATOMS[head.t[0][0]][0] == "h":
                heads.append((loc, init, head))
        if len(heads) != 1:
            raise No("%d accumulators in a loop" % len(heads))
        loc, init, head = heads[0]
        ha = head.t[0][0]
        accs.append(ha)
        # the iterations
        stride, start = None, None
        steps = []
        for x, _ in rec.iters:
            new = eng.read(x, Ptr(loc[0], loc[1:])) if len(loc) > 1 else x.cells.get(loc[0])
            if not isinstance(new, Lin):
                raise No("accumulator of a loop")
            ev = Ev(sp, src, x, accs)
            bits = ev.lin(new)
            cs = ev.constraints()
            steps.append((x, ev, bits, cs))
        n = rec.n
        na = n.t[0][0]
        offs = sorted({b for _, ev, _, _ in steps for b in ev.bytes}, key=repr)
        if not offs:
            raise Mism("a loop of the checksum goes round without using a byte") if steps else No("loop without an iteration")
        rate = {dict(b.t).get(na, 0) for b in offs}
        base = [Lin(b.c, tuple((a, q) for a, q in b.t if a != na)) for b in offs]
        if len(rate) != 1:
            raise No("bytes of a loop")
        rate = rate.pop()
        if rate < 0:
            raise No("a loop from the end")
        if rate == 0:
            raise No("a loop over the same bytes")
        dist = [s.norm(b - base[0]) for b in base]
        if any(not d.is_const() for d in dist):
            raise No("bytes of a loop")
        first = base[min(range(len(base)), key=lambda i: dist[i].c)]
        have = {s.norm(b - first).c for b in base}
        if have != set(range(rate)):
            miss = sorted(set(range(rate)) - have)
            raise Mism("of every %d bytes, %s" % (rate, "the ones at %s are not used" % miss if miss else "a byte is used in two iterations"))
        # before the loop
        at = same_pos(steps[0][0], first, consumed, recs_) if steps else True
        if at is not True:
            at = same_pos(s, first, consumed, recs_)
        if at is None:
            raise No("start of a loop: %r after %r" % (first, consumed))
        if at is False:
            raise Mism("a loop goes on at byte %r where %r bytes have been used" % (first, consumed))
        reps = entry_reps(sp, s, src, init, reg, accs)
        good = None
        err = None
        for how in reps:
            err = None
            for x, ev, bits, cs in steps:
                try:
                    eqs = echelon(cs)
                except Infeasible:
                    continue
                if any(bits[32:]):
                    raise No("accumulator wider than 32 bits")
                c = unrep([sp.var(("acc", ha, i)) for i in range(32)], how)
                for j in range(rate):
                    off = x.norm(first + n.scale(rate) + j)
                    c = ref_step(c, [sp.var(("byte", off, i)) for i in range(8)])
                d = differs(sp, eqs, unrep(bits[:32], how), c)
                if d is not None:
                    err = "one iteration (%s) over %d byte%s does not give the remainder of the reference division: bit %d of the register differs" % (
                        rec.site, rate, "s" * (rate > 1), d)
                    break
            if err is None:
                good = how
                break
        if good is None:
            raise Mism(err or "the checksum does not start from its initial value")
        o.good(len(steps) * 32)
        reg = (ha, good)
        consumed = s.norm(first + n.scale(rate))
    # the end
    end = same_pos(s, consumed, total, recs_)
    if end is None:
        raise No("end: %r of %r bytes" % (consumed, total))
    if end is False:
        raise Mism("the checksum can end after %r of %r bytes" % (consumed, total))
    ev = Ev(sp, src, s, accs)
    if not isinstance(s.value, Lin):
        raise No("result")
    bits = ev.lin(s.value)
    ref = ref_init() if reg is None else unrep([sp.var(("acc", reg[0], i)) for i in range(32)], reg[1])
    want = [f ^ (XOROUT >> i & 1) for i, f in enumerate(ref)]
    d = differs(sp, echelon(ev.constraints()), bits[:32], want)
    if d is not None or any(bits[32:]):
        raise Mism("the result is not the complement of the register: bit %s differs" % d)
    o.good(32)


def entry_reps(sp, s, src, init, reg, accs):
    """representations of the register under which the accumulator starts a loop right"""
    ev = Ev(sp, src, s, accs)
    if not isinstance(init, Lin):
        raise No("start of the accumulator")
    bits = ev.lin(init)
    if any(bits[32:]):
        raise No("start of the accumulator")
    ref = ref_init() if reg is None else unrep([sp.var(("acc", reg[0], i)) for i in range(32)], reg[1])
    eqs = echelon(ev.constraints())
    out = [how for how in REPS if differs(sp, eqs, bits[:32], rep(ref, how)) is None]
    if not out:
        raise Mism("the checksum starts from another value than %#010x" % INIT if reg is None else "the register is changed between two loops")
    return out
