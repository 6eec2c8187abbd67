"""Refinement check: every abstract terminal state of an implementation function against a layout specification.

The specification is an ordinary Python function over a cursor `w`.  It is replayed under the facts of each terminal
state; a condition the facts leave open is taken both ways.  A terminal state conforms when the specification fails and
the implementation returned an error, or both succeed with equal values and equal final positions.  Summarised loops are
checked by induction: the loop's head state is the hypothesis, each back edge is one step.
"""
from terms import *
from absint import GiveUp, Infeasible, State, DERIVED, rd_atom, LAREM
import models
from models import OPT, RES, some, NONE, canon, content


class SpecFail(Exception):
    pass


class Mismatch(Exception):
    def __init__(self, msg, kind="value"):
        Exception.__init__(self, msg)
        self.kind = kind


class Undecided(Exception):
    pass


class Prune(Exception):
    pass


# ------------------------------------------------------------------ rewriting under point intervals
class Renorm:
    """rewrites terms so that atoms nested inside other atoms are normalised under a state's point intervals"""

    def __init__(self, eng, st):
        self.eng = eng
        self.pts = {a: r[0] for a, r in st.iv.items() if r[0] == r[1]}
        self.am = {}
        self.needed = None
        if not self.pts:
            self.needed = False

    def atom(self, a):
        r = self.am.get(a)
        if r is None:
            if a in self.pts:
                r = K(self.pts[a])
            else:
                key = ATOMS[a]
                nk = self.key(key)
                r = Lin(0, ((a, 1),)) if nk == key else self.make(a, nk)
            self.am[a] = r
        return r

    def make(self, a, k):
        if k[0] == "rd":
            return rd_atom(k[1], k[2], k[3])
        if k[0] == "pow2":
            e = k[1]
            return K(1 << e.c) if e.is_const() else self.eng.mkpow2(e)
        if k[0] == "wrap" and isinstance(k[3], Lin) and k[3].is_const():
            m = 1 << k[2]
            v = k[3].c % m
            return K(v - m if k[1] and v >= m // 2 else v)
        if k[0] == "mod2" and k[1].is_const():
            return K(k[1].c % (1 << k[2]))
        if k[0] == "la":
            l = atom(k, *RANGE[a])
            LAREM[l.t[0][0]] = k[3] - k[2]
            return l
        return atom(k, *RANGE[a])

    def lin(self, l):
        r = K(l.c)
        ch = False
        for a, k in l.t:
            x = self.atom(a)
            if x.c or len(x.t) != 1 or x.t[0][0] != a:
                ch = True
            r = r + (x.scale(k) if k != 1 else x)
        return r if ch else l

    def key(self, x):
        if isinstance(x, Lin):
            return self.lin(x)
        if isinstance(x, tuple):
            ch = False
            out = []
            for y in x:
                z = self.key(y)
                if z is not y:
                    ch = True
                out.append(z)
            return tuple(out) if ch else x
        if isinstance(x, V):
            return self.val(x)
        return x

    def val(self, v):
        if isinstance(v, Lin):
            return self.lin(v)
        if not isinstance(v, V) or v is UNDEF:
            return v
        if isinstance(v, Bv):
            c = self.cond(v.c)
            return v if c is v.c else bv(c)
        ks = v.key()[1:]
        nk = tuple(self.key(x) for x in ks)
        return v if all(a is b for a, b in zip(ks, nk)) else v.__class__(*nk)

    def cond(self, c):
        if c is True or c is False:
            return c
        k = c[0]
        if k == "le0":
            l = self.lin(c[1])
            return c if l is c[1] else c_le0(l)
        if k == "eq0":
            l = self.lin(c[1])
            return c if l is c[1] else c_eq(l, ZERO)
        if k == "not":
            return c_not(self.cond(c[1]))
        if k in ("and", "or"):
            a, b = self.cond(c[1]), self.cond(c[2])
            return c_and(a, b) if k == "and" else c_or(a, b)
        nk = self.key(c[1])
        return c if nk is c[1] else ("op", nk)

    def nested(self, atoms):
        """some atom in use contains a point atom"""
        for a in atoms:
            x = self.atom(a)
            if a not in self.pts and (x.c or len(x.t) != 1 or x.t[0][0] != a):
                return True
        return False


def renorm_state(eng, st):
    """(state, renormaliser)"""
    R = Renorm(eng, st)
    if not R.pts:
        return st, R
    atoms = set(st.iv)
    for f in st.facts:
        atoms.update(f.atoms())
    for c in st.conds:
        cond_atoms(c, atoms)
    if not R.nested(atoms):
        pass
    s = st.copy()
    iv, facts, conds = s.iv, s.facts, s.conds
    s.iv = {a: r for a, r in iv.items() if a in R.pts}
    for a, v in R.pts.items():
        # the same value under its rewritten name
        key = ATOMS[a]
        nk = R.key(key)
        if nk != key:
            l = R.make(a, nk)
            if l.is_const():
                if l.c != v:
                    raise Prune()
            elif len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
                b = l.t[0][0]
                x = s.iv.get(b, RANGE[b])
                if not x[0] <= v <= x[1]:
                    raise Prune()
                s.iv[b] = (v, v)
    s.facts = ()
    s.conds = {}
    okk = True
    for a, r in iv.items():
        if a in R.pts:
            continue
        l = R.atom(a)
        if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1:
            b = l.t[0][0]
            x = s.iv.get(b, RANGE[b])
            s.iv[b] = (max(x[0], r[0]), min(x[1], r[1]))
            if s.iv[b][0] > s.iv[b][1]:
                okk = False
        else:
            if r[0] > -INF:
                okk = okk and s.assume(c_le(K(r[0]), l))
            if r[1] < INF:
                okk = okk and s.assume(c_le(l, K(r[1])))
    for f in facts:
        okk = okk and s.add_fact(R.lin(f))
    for c, v in conds.items():
        c2 = R.cond(c)
        if c2 is True or c2 is False:
            if c2 != v:
                okk = False
        else:
            okk = okk and s.assume(c2, v)
    s.fr = {R.key(k): v for k, v in st.fr.items()}
    s.strs = {R.key(k): v for k, v in st.strs.items()}
    s.variants = {R.key(k): v for k, v in st.variants.items()}
    if not okk:
        raise Prune()
    return s, R


def cond_atoms(c, out):
    if c is True or c is False:
        return
    if c[0] in ("le0", "eq0"):
        out.update(c[1].atoms())
    elif c[0] == "not":
        cond_atoms(c[1], out)
    elif c[0] in ("and", "or"):
        cond_atoms(c[1], out)
        cond_atoms(c[2], out)


# ------------------------------------------------------------------ emptiness of the linear facts
def feasible(st, limit=400):
    """False when the linear facts and intervals of st are contradictory (elimination with integer tightening)"""
    atoms = set()
    for f in st.facts:
        atoms.update(f.atoms())
    cons = set()
    for f in st.facts:
        f = st.norm(f)
        if not f.t:
            if f.c > 0:
                return False
            continue
        c = c_le0(f)
        cons.add(c[1])
    for a in atoms:
        lo, hi = st.arange(a)
        x = Lin(0, ((a, 1),))
        if lo > hi:
            return False
        if lo > -INF:
            cons.add(K(lo) - x)
        if hi < INF:
            cons.add(x - K(hi))
    for c, v in st.conds.items():
        if c[0] == "eq0" and v:
            l = st.norm(c[1])
            if l.t:
                cons.add(l)
                cons.add(-l)
    while True:
        occ = {}
        for l in cons:
            for a, k in l.t:
                p, n = occ.get(a, (0, 0))
                occ[a] = (p + 1, n) if k > 0 else (p, n + 1)
        if not occ:
            return True
        a = min(occ, key=lambda q: occ[q][0] * occ[q][1] - occ[q][0] - occ[q][1])
        pos = [l for l in cons if dict(l.t).get(a, 0) > 0]
        neg = [l for l in cons if dict(l.t).get(a, 0) < 0]
        rest = {l for l in cons if a not in dict(l.t)}
        for p in pos:
            kp = dict(p.t)[a]
            for n in neg:
                kn = -dict(n.t)[a]
                m = p.scale(kn) + n.scale(kp)
                c = c_le0(m)
                if c is False:
                    return False
                if c is True:
                    continue
                rest.add(c[1])
        if len(rest) > limit:
            return True
        cons = rest


# ------------------------------------------------------------------ specification cursor
class BitStream:
    """the bit reader held in a cell"""

    def __init__(self, cell):
        self.cell = cell

    def get(self, cells):
        r = cells.get(self.cell)
        return (r.base, r.pos, r.tot) if isinstance(r, RdrV) else None


class ByteStream:
    """the byte slice of a parser held at a location"""

    def __init__(self, cell, path, adt):
        self.cell, self.path, self.adt = cell, path, adt

    def get(self, cells):
        v = cells.get(self.cell)
        for i in self.path:
            if not isinstance(v, Agg):
                return None
            v = v.fields[i]
        if not isinstance(v, Slice):
            return None
        return (v.base, v.lo, v.hi)


class NoStream:
    def get(self, cells):
        return (None, ZERO, ZERO)


class Ctx:
    """one implementation function being checked"""

    def __init__(self, eng, stream, W=None):
        self.eng = eng
        self.P = eng.P
        if stream is None:
            stream = NoStream()
        elif not hasattr(stream, "get"):
            stream = BitStream(stream)
        self.stream = stream
        self.W = W or globals()["W"]
        self.memo = {}
        self.nstates = 0
        self.nloops = 0
        self.nreplays = 0
        self.forks = 0
        self.on_error = None


class W:
    def __init__(self, ctx, st, events, script, pos, base, tot):
        self.ctx = ctx
        self.eng = ctx.eng
        self.P = ctx.P
        self.base = base
        self.events = [e[1] for e in events if e[0] == "loop"]
        self.cur = 0
        self.script = list(script)
        self.i = 0
        self.alts = []
        self.R = []
        self.st = st.copy()
        self.pos = pos
        self.tot = tot
        self.seen_pts = set()
        self.trace = []
        self.renorm()

    # ---- facts
    def renorm(self):
        while True:
            pts = {a for a, r in self.st.iv.items() if r[0] == r[1]}
            if pts <= self.seen_pts:
                return
            self.st, R = renorm_state(self.eng, self.st)
            self.R.append(R)
            self.seen_pts = self.seen_pts | pts
            self.pos = R.lin(self.pos)

    def rw(self, v):
        for R in self.R:
            v = R.val(v) if not isinstance(v, tuple) else R.key(v)
        return v

    def rwc(self, c):
        for R in self.R:
            c = R.cond(c)
        return c

    def cond(self, c):
        """decide c under the state, taking both ways when it is open"""
        c = self.rwc(c)
        v = self.st.ev_cond(c)
        if v is not None:
            return v
        if c[0] in ("and", "or"):
            a = self.cond(c[1])
            if c[0] == "and":
                return self.cond(c[2]) if a else False
            return True if a else self.cond(c[2])
        if c[0] == "not":
            return not self.cond(c[1])
        if self.i < len(self.script):
            v = self.script[self.i]
        else:
            v = True
            self.alts.append(self.script[:self.i] + [False])
            self.script.append(True)
            self.ctx.forks += 1
            if len(self.script) > 40:
                raise Undecided("specification leaves too many conditions open")
        self.i += 1
        if not self.st.assume(c, v):
            raise Prune()
        self.renorm()
        return v

    def fail(self, why=""):
        raise SpecFail(why)

    # ---- bit stream
    def need(self, n):
        if not isinstance(n, Lin):
            n = K(n)
        if not self.cond(c_le(self.pos + n, self.tot)):
            raise SpecFail("truncated")

    def bits(self, n):
        if not isinstance(n, Lin):
            n = K(n)
        n = self.rw(n)
        self.need(n)
        n = self.st.norm(self.rw(n))
        a = rd_atom(self.base, self.st.norm(self.pos), n)
        if not n.is_const():
            self.st.assume(c_lt(a, self.eng.pow2(self.st, n)))
        self.pos = self.pos + n
        return a

    def bit(self):
        return bv(c_eq(self.bits(1), ONE))

    def u(self, n):
        return self.bits(n)

    def i(self, n):
        pass

    def signed(self, n):
        a = self.bits(n)
        return models.wrap_to(self.eng, n, True)(self.st, a)

    def f32(self):
        return Fv(("fbits", 32, self.bits(32)))

    def flag(self):
        return self.cond(c_eq(self.bits(1), ONE))

    def is_eq(self, a, b):
        if not isinstance(b, Lin):
            b = K(b)
        return self.cond(c_eq(a, b))

    def le(self, a, b):
        a = a if isinstance(a, Lin) else K(a)
        b = b if isinstance(b, Lin) else K(b)
        return self.cond(c_le(a, b))

    def lt(self, a, b):
        a = a if isinstance(a, Lin) else K(a)
        b = b if isinstance(b, Lin) else K(b)
        return self.cond(c_lt(a, b))

    def bytes_key(self, n):
        """n bytes of the stream as a content key"""
        n = n if isinstance(n, Lin) else K(n)
        self.need(n.scale(8))
        k = ("bits", self.base, self.st.norm(self.pos), self.st.norm(self.rw(n)))
        self.pos = self.pos + self.rw(n).scale(8)
        return k

    # ---- values
    def adt(self, _ty, _variant=None, *args, **fields):
        return mk_adt(self.P, _ty, _variant, *args, **fields)

    # ---- loops
    def next_rec(self):
        if self.cur < len(self.events):
            return self.events[self.cur]
        return None

    def rec_pos(self, rec, cells):
        r = self.ctx.stream.get(cells)
        return self.rw(r[1]) if r is not None else None

    def list(self, count, elem, tag):
        """count elements decoded one after the other"""
        rec = self.next_rec()
        if rec is not None:
            p0 = self.rec_pos(rec, rec.init)
            if p0 is None or not self.zero(p0 - self.pos):
                rec = None
        if rec is None:
            items = []
            while True:
                if not self.cond(c_lt(K(len(items)), count)):
                    return VecV(("lit", tuple(items)), K(len(items)), None)
                if len(items) > 70:
                    raise Undecided("unrolled list too long")
                items.append(elem(self))
        self.cur += 1
        self.verify_list(rec, count, elem, tag)
        vloc = rec.vec_for[tag]
        n = self.rw(rec.n)
        self.pos = self.rec_pos(rec, rec.cells0)
        if self.cond(c_lt(n, count)):
            elem(self)
            raise Mismatch("the loop at %s is left although the next element is present and well formed" % rec.site)
        hv = get_loc(rec.cells0, vloc)
        return self.rw(VecV(hv.k, n, hv.ety))

    def scan(self, stop, limit, pos, tag):
        """number of leading positions below limit at which stop does not hold"""
        rec = self.next_rec()
        if rec is None:
            i = 0
            while i < limit and not stop(self, K(i)):
                i += 1
            return K(i)
        self.cur += 1
        key = (id(rec), tag)
        if key not in self.ctx.memo:
            self.ctx.memo[key] = rec
            for B, evs in rec.iters:
                def one(w):
                    if not w.lt(rec.n, limit) or stop(w, w.rw(rec.n)):
                        raise Mismatch("the loop at %s runs past the end of the scanned part" % rec.site)
                try:
                    for w, v, exc in replays(self.ctx, B, evs, one, self.at(rec.cells0), B.cells):
                        if exc is not None:
                            raise Mismatch("the loop at %s scans %s input" % (rec.site, exc))
                except (Mismatch, Undecided) as e:
                    self.ctx.memo[key] = e
                    break
            else:
                self.ctx.nloops += 1
        m = self.ctx.memo[key]
        if isinstance(m, Exception):
            raise m
        n = self.rw(rec.n)
        if self.lt(n, limit) and not stop(self, n):
            raise Mismatch("the loop at %s stops before the end of the scanned part" % rec.site)
        return n

    def chars_until_nul(self, limit, tag):
        """one character per byte up to a zero byte (consumed), while the text is shorter than limit bytes of utf-8"""
        rec = self.next_rec()
        if rec is not None:
            p0 = self.rec_pos(rec, rec.init)
            if p0 is None or not self.zero(p0 - self.pos):
                rec = None
        if rec is None:
            s = ("c", b"")
            for i in range(4):
                if not self.cond(c_lt(models.strlen(StrV(s)), K(limit))):
                    return StrV(s)
                b = self.bits(8)
                if self.is_eq(b, 0):
                    return StrV(s)
                s = ("spush", s, self.rw(b))
            raise Undecided("text loop not recognised")
        self.cur += 1
        key = (id(rec), tag)
        if key not in self.ctx.memo:
            try:
                self.ctx.memo[key] = self._verify_text(rec, limit)
                self.ctx.nloops += 1
            except (Mismatch, Undecided) as e:
                self.ctx.memo[key] = e
        loc = self.ctx.memo[key]
        if isinstance(loc, Exception):
            raise loc
        self.pos = self.rec_pos(rec, rec.cells0)
        s = self.rw(get_loc(rec.cells0, loc))
        if self.cond(c_lt(models.strlen(s), K(limit))):
            b = self.bits(8)
            if not self.is_eq(b, 0):
                raise Mismatch("the loop at %s is left before the end of the text" % rec.site)
        return s

    def _verify_text(self, rec, limit):
        locs = [(c,) for c, v in rec.cells0.items() if isinstance(v, StrV) and v.k[0] == "h"
                and isinstance(rec.init.get(c), StrV) and rec.init[c].k == ("c", b"")]
        if not locs:
            raise Undecided("no text is built by the loop at %s" % rec.site)
        good = set(locs)
        for B, evs in rec.iters:
            for loc in locs:
                def one(w):
                    h = w.rw(get_loc(rec.cells0, loc))
                    if not w.cond(c_lt(models.strlen(h), K(limit))):
                        raise Mismatch("the loop at %s runs past %d bytes of text" % (rec.site, limit))
                    b = w.bits(8)
                    if w.is_eq(b, 0):
                        raise Mismatch("the loop at %s runs past the end of the text" % rec.site)
                    w.check_pos(B.cells, "character")
                    w.equal(get_loc(B.cells, loc), StrV(("spush", h.k, w.rw(b))), "text")
                try:
                    for w, v, exc in replays(self.ctx, B, evs, one, self.at(rec.cells0), B.cells):
                        if exc is not None:
                            raise Mismatch("the loop at %s reads %s input" % (rec.site, exc), "truncated")
                except Mismatch as e:
                    good.discard(loc)
                    if not good:
                        raise e
        return sorted(good, key=repr)[0]

    def peek_at(self, pos, n):
        return rd_atom(self.base, self.st.norm(self.rw(pos)), n)

    def verify_list(self, rec, count, elem, tag):
        key = (id(rec), tag)
        m = self.ctx.memo.get(key)
        if m is not None:
            if isinstance(m, Exception):
                raise m
            return
        try:
            self._verify_list(rec, count, elem, tag)
        except (Mismatch, Undecided) as e:
            self.ctx.memo[key] = e
            raise
        self.ctx.memo[key] = rec
        self.ctx.nloops += 1

    def repeat(self, step, tag):
        """elements until step says stop; step returns "stop", "skip" or ("push", value)"""
        rec = self.next_rec()
        if rec is not None:
            p0 = self.rec_pos(rec, rec.init)
            if p0 is None or not self.zero(p0 - self.pos):
                rec = None
        if rec is None:
            items = []
            for _ in range(6):
                r = step(self)
                if r == "stop":
                    return VecV(("lit", tuple(items)), K(len(items)), None)
                if r != "skip":
                    items.append(r[1])
            raise Undecided("unrolled list too long")
        self.cur += 1
        key = (id(rec), tag)
        if key not in self.ctx.memo:
            try:
                self.ctx.memo[key] = self._verify_repeat(rec, step)
                self.ctx.nloops += 1
            except (Mismatch, Undecided) as e:
                self.ctx.memo[key] = e
        loc = self.ctx.memo[key]
        if isinstance(loc, Exception):
            raise loc
        self.pos = self.rec_pos(rec, rec.cells0)
        r = step(self)
        if r != "stop":
            raise Mismatch("the loop at %s is left although the next element is present and well formed" % rec.site)
        hv = get_loc(rec.cells0, loc)
        return self.rw(VecV(hv.k, hv.len, hv.ety))

    def _verify_repeat(self, rec, step):
        cands = None
        for B, evs in rec.iters:
            def one(w, B=B):
                r = step(w)
                if r == "stop":
                    raise Mismatch("the loop at %s goes on after the end of the list" % rec.site)
                return r
            goods = []

            def post(w, v, exc, B=B, goods=goods):
                if exc is not None:
                    raise Mismatch("the loop at %s goes on although an element is %s" % (rec.site, exc),
                                   "truncated" if exc == "truncated" else "accepts")
                w.check_pos(B.cells, "element of the loop at %s" % rec.site)
                fit = set()
                why = Mismatch("loop at %s: no vector receives the element" % rec.site)
                for loc in rec.vecs:
                    hv = get_loc(rec.cells0, loc)
                    bvv = get_loc(B.cells, loc)
                    if not isinstance(bvv, VecV):
                        continue
                    try:
                        if v == "skip":
                            if bvv.k == hv.k and w.zero(bvv.len - hv.len):
                                fit.add(loc)
                            else:
                                raise Mismatch("an element that must be skipped is kept")
                        elif bvv.k[0] == "push" and bvv.k[1] == hv.k:
                            w.equal(bvv.k[3], v[1], "element")
                            fit.add(loc)
                        else:
                            raise Mismatch("an element is dropped")
                    except Mismatch as e:
                        why = Mismatch("loop at %s: %s" % (rec.site, e), e.kind)
                if not fit:
                    raise why
                goods.append(fit)
            replays(self.ctx, B, evs, one, self.at(rec.cells0), B.cells, post=post)
            good = set.intersection(*goods) if goods else None
            if good is None:
                continue
            cands = good if cands is None else cands & good
        if not cands:
            raise Undecided("no vector matches the list at %s" % rec.site)
        loc = sorted(cands, key=repr)[0]
        iv = get_loc(rec.init, loc)
        if not (isinstance(iv, VecV) and self.zero(iv.len)):
            raise Mismatch("the list built at %s does not start empty" % rec.site)
        return loc

    def _verify_list(self, rec, count, elem, tag):
        if not hasattr(rec, "vec_for"):
            rec.vec_for = {}
        cands = None
        for B, evs in rec.iters:
            def one(w, B=B):
                if not w.cond(c_lt(rec.n, count)):
                    raise Mismatch("the loop at %s runs past the declared count" % rec.site)
                v = elem(w)
                return v
            goods = []

            def post(w, v, exc, B=B, goods=goods):
                if exc is not None:
                    raise Mismatch("the loop at %s goes on although an element is %s" % (rec.site, exc), "accepts")
                w.check_pos(B.cells, "element of the loop at %s" % rec.site)
                fit = set()
                why = ["no vector receives the element"]
                for loc in rec.vecs:
                    hv = get_loc(rec.cells0, loc)
                    bvv = get_loc(B.cells, loc)
                    if not isinstance(bvv, VecV) or bvv.k[0] != "push" or bvv.k[1] != hv.k:
                        continue
                    try:
                        w.equal(bvv.k[3], v, "element")
                        fit.add(loc)
                    except Mismatch as e:
                        why.append(str(e))
                if not fit:
                    raise Mismatch("loop at %s: %s" % (rec.site, why[-1]))
                goods.append(fit)
            replays(self.ctx, B, evs, one, self.at(rec.cells0), B.cells, post=post)
            good = set.intersection(*goods) if goods else None
            if good is None:
                continue
            cands = good if cands is None else cands & good
        if not cands:
            raise Undecided("no vector matches the list at %s" % rec.site)
        loc = sorted(cands, key=repr)[0]
        iv = get_loc(rec.init, loc)
        if not (isinstance(iv, VecV) and self.zero(iv.len)):
            raise Mismatch("the list built at %s does not start empty" % rec.site)
        rec.vec_for[tag] = loc

    def at(self, cells):
        return self.ctx.stream.get(cells)[1]

    # ---- comparison
    def zero(self, l):
        l = self.st.norm(canon(self.rw(l)))
        if l.is_const():
            return l.c == 0
        lo, hi = self.st.bounds(l)
        if lo == hi == 0:
            return True
        return self.st.prove_le0(l) and self.st.prove_le0(-l)

    def check_pos(self, cells, what):
        p = self.rec_pos(None, cells)
        if p is None:
            raise Undecided("the input of %s is not tracked" % what)
        if not self.zero(p - self.pos):
            raise Mismatch("%s ends at bit %r instead of %r" % (what, self.st.norm(p), self.st.norm(self.pos)), "pos")

    def equal(self, a, b, path=""):
        """implementation value a against specification value b"""
        a, b = strip_box(a), strip_box(b)
        if a is b:
            return
        if isinstance(b, (Lin, Fv, StrV, Bv, Agg, VecV, Sym, MapV)) and isinstance(a, Ptr):
            a = strip_box(self.eng.read(self.st, a))
        if isinstance(a, Lin) and isinstance(b, Lin):
            if not self.zero(a - b):
                raise Mismatch("%s is %r, expected %r" % (path, self.st.norm(self.rw(a)), self.st.norm(self.rw(b))))
            return
        if isinstance(a, Bv) and isinstance(b, Bv):
            ca, cb = self.rwc(a.c), self.rwc(b.c)
            if ca == cb:
                return
            va, vb = self.cond(ca), self.cond(cb)
            if va != vb:
                raise Mismatch("%s is %s, expected %s" % (path, cond_str(ca), cond_str(cb)))
            return
        if isinstance(a, Fv) and isinstance(b, Fv):
            x, y = self.cank(self.rw(a.t)), self.cank(self.rw(b.t))
            if x != y:
                raise Mismatch("%s is %s, expected %s" % (path, key_str(x), key_str(y)))
            return
        if isinstance(a, Sym):
            v = self.st.variants.get(self.rw(a.k))
            if isinstance(b, Sym) and self.rw(b.k) == self.rw(a.k):
                return
            if v is not None and isinstance(b, Agg):
                a = self.eng.expand(a, v)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.name != b.name or a.variant != b.variant or len(a.fields) != len(b.fields):
                raise Mismatch("%s is %s, expected %s" % (path, self.aname(a), self.aname(b)), "variant")
            for i, (x, y) in enumerate(zip(a.fields, b.fields)):
                self.equal(x, y, "%s.%s" % (path, self.fname(a, i)))
            return
        if isinstance(a, StrV) and isinstance(b, StrV):
            x, y = self.cank(self.rw(a.k)), self.cank(self.rw(b.k))
            if x != y and not self.ascii_same(x, y):
                raise Mismatch("%s is text %s, expected %s" % (path, key_str(x), key_str(y)))
            return
        if isinstance(a, VecV) and isinstance(b, VecV):
            a, b = self.rw(a), self.rw(b)
            a = VecV(models.copied(self.eng, a.k, a.len), a.len, a.ety)
            if not self.zero(a.len - b.len):
                raise Mismatch("%s has length %r, expected %r" % (path, a.len, b.len))
            if self.cank(a.k) == self.cank(b.k):
                return
            n = self.st.norm(b.len)
            if n.is_const() and n.c <= 64:
                try:
                    for i in range(n.c):
                        self.equal(self.eng.elem(self.st, a, K(i)), self.eng.elem(self.st, b, K(i)), "%s[%d]" % (path, i))
                    return
                except GiveUp:
                    pass
            raise Mismatch("%s holds %s, expected %s" % (path, key_str(a.k)[:200], key_str(b.k)[:200]))
        if isinstance(a, Slice) and isinstance(b, Slice):
            if a.base != b.base or not self.zero(a.lo - b.lo) or not self.zero(a.hi - b.hi):
                raise Mismatch("%s is %r, expected %r" % (path, a, b))
            return
        if isinstance(a, MapV) and isinstance(b, MapV) and self.cank(self.rw(a.k)) == self.cank(self.rw(b.k)):
            return
        raise Mismatch("%s is %s, expected %s" % (path, self.show(a), self.show(b)), "shape")

    def ascii_same(self, x, y):
        """decodings of the same bytes, which are known to be ascii"""
        def src(k):
            if k[0] in ("utf8", "lossy"):
                return k[1]
            if k[0] == "dec" and k[1] == "encoding_rs::WINDOWS_1252_INIT":
                return k[3]
        a, b = src(x), src(y)
        return a is not None and b is not None and self.cank(self.rw(a)) == self.cank(self.rw(b)) and self.st.ev_cond(("op", ("isascii", a))) is True

    def show(self, v):
        return repr(v)[:200]

    def aname(self, a):
        n = a.name if isinstance(a.name, str) else repr(a.name)
        ad = self.P.adts.get(n)
        n = n.rsplit("::", 1)[-1]
        if ad and len(ad["variants"]) > 1:
            n += "::" + ad["variants"][a.variant][0]
        return n

    def fname(self, a, i):
        ad = self.P.adts.get(a.name) if isinstance(a.name, str) else None
        try:
            return ad["variants"][a.variant][2][i]
        except (TypeError, IndexError, KeyError):
            return str(i)

    def cank(self, x):
        if isinstance(x, Lin):
            return canon(self.st.norm(x))
        if isinstance(x, tuple):
            x = tuple(self.cank(y) for y in x)
            if x and x[0] == "dec" and (x[3] == ("c", b"") or (x[3][0] in ("bits", "mem") and x[3][3] in (0, ZERO))):
                return ("c", b"")
            return x
        if isinstance(x, VecV):
            return VecV(self.cank(x.k), self.cank(x.len), None)
        return x


def strip_box(v):
    while isinstance(v, BoxV):
        v = v.v
    return v


def get_loc(cells, loc):
    import loops
    return loops.get(cells[loc[0]], loc[1:])


def mk_adt(P, _ty, _variant=None, *args, **fields):
    name, variant = _ty, _variant
    full = P.adt_name(name)
    vs = P.adts[full]["variants"]
    vi = 0
    if variant is not None:
        vi = [v[0] for v in vs].index(variant)
    names = [f for f in vs[vi][2]]
    if fields:
        if set(names) != set(fields):
            raise Undecided("fields of %s changed: %s" % (full, names))
        args = tuple(fields[n] for n in names)
    elif len(args) != len(names):
        raise Undecided("fields of %s changed" % full)
    return Agg(full, vi, tuple(args))


def replays(ctx, S, events, fn, pos, cells, limit=200, post=None):
    """all ways the specification can go under state S: (w, value, None) or (w, None, reason);
    post(w, value, reason) compares the outcome, and may itself split cases"""
    out = []
    stack = [[]]
    r = ctx.stream.get(cells)
    if r is None:
        raise Undecided("the input is not tracked")
    base, tot = r[0], r[2]
    while stack:
        script = stack.pop()
        ctx.nreplays += 1
        if len(out) > limit:
            raise Undecided("too many replays")
        try:
            w = ctx.W(ctx, S, events, script, pos, base, tot)
        except Prune:
            continue
        try:
            try:
                v = fn(w)
                exc = None
            except SpecFail as e:
                v = None
                exc = str(e) or "malformed"
            if post is not None:
                post(w, v, exc)
        except Prune:
            stack.extend(w.alts)
            continue
        except Mismatch as e:
            if not feasible(w.st):
                stack.extend(w.alts)
                continue
            e.w = w
            raise
        stack.extend(w.alts)
        out.append((w, v, exc))
    return out


def is_failure(v):
    if isinstance(v, Agg) and v.name == RES:
        return v.variant == 1
    if isinstance(v, Agg) and v.name == OPT:
        return v.variant == 0
    return None


def check_state(ctx, S, spec, wrap, pos0=ZERO):
    """raises Mismatch / Undecided; returns 'ok' | 'err' | 'infeasible'"""
    ctx.nstates += 1
    S = S.copy()
    failed = is_failure(S.value)
    res = set()
    later = []      # the wrong error: reported unless there should have been none at all

    def run(w):
        try:
            v = spec(w)
        except SpecFail as e:
            if failed and ctx.on_error is not None:
                try:
                    ctx.on_error(w, S.value, e)
                except Mismatch as m:
                    if m.kind != "context":
                        raise
                    m.w = w
                    later.append(m)
            if failed is False:
                raise Mismatch("accepted although the input is %s; result %s" % (str(e) or "malformed", brief(w, S.value)),
                               "truncated" if str(e) == "truncated" else "accepts")
            res.add("err")
            return None
        if failed:
            raise Mismatch("rejected with %s although the input is complete and well formed" % brief(w, S.value), "rejects")
        w.equal(S.value, wrap(v), "result")
        w.check_pos(S.cells, "the item")
        res.add("ok")
        return v
    replays(ctx, S, S.events(), run, pos0, S.cells)
    if later:
        raise later[0]
    return res or {"infeasible"}


def brief(w, v):
    v = strip_box(v)
    if isinstance(v, Agg):
        inner = v.fields[0] if v.fields else None
        s = w.aname(v)
        if isinstance(inner, (Agg, BoxV)):
            inner = strip_box(inner)
            s += "(%s)" % (w.aname(inner) if isinstance(inner, Agg) else "..")
            if isinstance(inner, Agg) and inner.fields and isinstance(inner.fields[0], StrV) and inner.fields[0].k[0] == "c":
                s = s[:-1] + "(%r))" % inner.fields[0].k[1].decode()
        return s
    return type(v).__name__


def path_str(w, S, most=8):
    st = w.st if w is not None else S
    out = []
    for c, v in list(S.conds.items()):
        out.append(("" if v else "!") + cond_str(c))
    return out[:most]
