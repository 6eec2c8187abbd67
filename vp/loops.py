"""Loop summaries: bounded loops are followed exactly; any other loop is abstracted to a fixpoint.

Every location the body changes is replaced by a head symbol; locations that advance by a constant become affine in the
iteration number, locations that always advance together share one symbol.  The effects of one arbitrary iteration
are kept in a LoopRec on the states that leave the loop.
"""
from terms import *
from absint import GiveUp, Infeasible, LoopRec, State

UNROLL = 20
LIVE = {}


# ------------------------------------------------------------------ liveness
def _pl_use(pl, out):
    out.add(pl[0])
    for e in pl[1]:
        if e[0] == "i":
            out.add(e[1])


def _op_use(o, out):
    if o and o[0] in ("cp", "mv"):
        _pl_use(o[1], out)


def _rv_use(r, out):
    k = r[0]
    if k in ("use", "repeat"):
        _op_use(r[1], out)
    elif k in ("ref", "addr"):
        _pl_use(r[2], out)
    elif k == "agg":
        for o in r[2]:
            _op_use(o, out)
    elif k in ("bin", "cbin"):
        _op_use(r[2], out)
        _op_use(r[3], out)
    elif k == "cast" or k == "un":
        _op_use(r[2], out)
    elif k in ("discr", "len"):
        _pl_use(r[1], out)


def liveness(eng, body):
    r = LIVE.get(id(body))
    if r is not None:
        return r[1], r[2]
    n = len(body["bb"])
    gen, kill = [], []
    borrowed = set()
    for b in range(n):
        g, k = set(), set()

        def use(f, *a):
            u = set()
            f(*a, u)
            g.update(u - k)

        def define(pl):
            if pl[1]:
                use(_pl_use, pl)
            else:
                k.add(pl[0])
        for s in body["bb"][b][0]:
            if s[0] == "=":
                use(_rv_use, s[2])
                if s[2][0] in ("ref", "addr"):
                    if not any(e[0] == "*" for e in s[2][2][1]):
                        borrowed.add(s[2][2][0])
                define(s[1])
            elif s[0] == "sd":
                use(_pl_use, s[1])
            elif s[0] == "assume":
                use(_op_use, s[1])
        t = body["bb"][b][1]
        if t[0] == "switch":
            use(_op_use, t[1])
        elif t[0] == "assert":
            use(_op_use, t[1])
        elif t[0] == "call":
            use(_op_use, t[1])
            for o in t[2]:
                use(_op_use, o)
            define(t[3])
        elif t[0] in ("py", "icall"):
            for o in t[2]:
                use(_op_use, o)
            define(t[3])
        elif t[0] == "callv":
            use(_op_use, t[1])
            for o in t[2]:
                use(_op_use, o)
            define(t[3])
        elif t[0] == "match":
            use(_pl_use, t[1])
        elif t[0] == "return":
            use(_pl_use, [0, []])
        gen.append(g)
        kill.append(k)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            o = set()
            for s in eng.P.succs(body, b):
                o |= live[s]
            x = gen[b] | (o - kill[b])
            if x != live[b]:
                live[b] = x
                ch = True
    LIVE[id(body)] = (body, live, borrowed)
    return live, borrowed


# ------------------------------------------------------------------ locations
def changed(old, new, loc, out):
    """leaf locations at which new differs from old"""
    if old is new or old == new:
        return
    if isinstance(old, Agg) and isinstance(new, Agg) and old.name == new.name and old.variant == new.variant \
            and len(old.fields) == len(new.fields):
        for i, (a, b) in enumerate(zip(old.fields, new.fields)):
            changed(a, b, loc + (("f", i),), out)
        return
    if isinstance(old, IterV) and isinstance(new, IterV) and old.kind == new.kind and len(old.a) == len(new.a):
        for i, (a, b) in enumerate(zip(old.a, new.a)):
            changed(a, b, loc + (("it", i),), out)
        return
    if isinstance(old, VecV) and isinstance(new, VecV):
        if old.k != new.k:
            out.add(loc + ("vk",))
        changed(old.len, new.len, loc + ("vlen",), out)
        return
    if isinstance(old, Slice) and isinstance(new, Slice) and old.base == new.base:
        changed(old.lo, new.lo, loc + ("slo",), out)
        changed(old.hi, new.hi, loc + ("shi",), out)
        return
    if isinstance(old, RdrV) and isinstance(new, RdrV) and old.base == new.base:
        changed(old.pos, new.pos, loc + ("rpos",), out)
        changed(old.tot, new.tot, loc + ("rtot",), out)
        if old.la != new.la or old.rf != new.rf:
            out.add(loc + ("rla",))
        return
    if isinstance(old, BoxV) and isinstance(new, BoxV):
        changed(old.v, new.v, loc + (("box",),), out)
        return
    out.add(loc)


def below(loc, S):
    n = len(loc)
    return [s for s in S if s[:n] == loc]


def build(v, loc, S, mk):
    """v with every location of S under loc replaced by mk(loc, old)"""
    if loc in S:
        return mk(loc, v)
    if not below(loc, S):
        return v
    if isinstance(v, Agg):
        return Agg(v.name, v.variant, tuple(build(x, loc + (("f", i),), S, mk) for i, x in enumerate(v.fields)))
    if isinstance(v, IterV):
        return IterV(v.kind, tuple(build(x, loc + (("it", i),), S, mk) for i, x in enumerate(v.a)))
    if isinstance(v, VecV):
        k = mk(loc + ("vk",), v.k) if loc + ("vk",) in S else v.k
        return VecV(k, build(v.len, loc + ("vlen",), S, mk), v.ety)
    if isinstance(v, Slice):
        return Slice(v.base, build(v.lo, loc + ("slo",), S, mk), build(v.hi, loc + ("shi",), S, mk))
    if isinstance(v, RdrV):
        ch = loc + ("rla",) in S or loc + ("rpos",) in S
        return RdrV(v.base, build(v.pos, loc + ("rpos",), S, mk), build(v.tot, loc + ("rtot",), S, mk),
                    None if ch else v.la, None if ch else v.rf)
    if isinstance(v, BoxV):
        return BoxV(build(v.v, loc + (("box",),), S, mk))
    raise GiveUp("loop location")


def get(v, path):
    for s in path:
        if s == "vlen":
            v = v.len
        elif s == "vk":
            v = v.k
        elif s == "slo":
            v = v.lo
        elif s == "shi":
            v = v.hi
        elif s == "rpos":
            v = v.pos
        elif s == "rtot":
            v = v.tot
        elif s == "rla":
            v = v.la
        elif s[0] == "f":
            v = v.fields[s[1]] if isinstance(v, Agg) and s[1] < len(v.fields) else None
        elif s[0] == "it":
            v = v.a[s[1]]
        elif s[0] == "box":
            v = v.v
        if v is None:
            return None
    return v


def loc_ty(eng, st, loc):
    """static type of a location rooted at a local"""
    cell = loc[0]
    P = eng.P
    t = None
    if cell[0] == "l":
        for f in st.frames:
            if f.loc.get(cell[2]) == cell:
                t = f.body["locals"][cell[2]]
    elif cell[0] == "ret":
        return None
    elif cell[0] == "s":
        d = eng.symcell.get(cell)
        if d and d[0] == "ty":
            t = d[1]
    if t is None:
        return None
    v = st.cells.get(cell)
    for s in loc[1:]:
        if isinstance(s, str):
            return None
        if s[0] == "f":
            k = P.kind(t)
            if k[0] == "closure":
                return None
            try:
                t = P.field_ty(t, v.variant if isinstance(v, Agg) else 0, s[1])
            except (KeyError, IndexError, TypeError):
                return None
            v = v.fields[s[1]] if isinstance(v, Agg) and s[1] < len(v.fields) else None
        elif s[0] == "box":
            t = P.kind(t)[2][0]
            v = v.v if isinstance(v, BoxV) else None
        else:
            return None
    return t


def subst(l, m):
    """replace atoms of a Lin by Lins"""
    r = K(l.c)
    for a, k in l.t:
        r = r + (m[a].scale(k) if a in m else Lin(0, ((a, k),)))
    return r


def summarise(eng, st, header, blocks):
    eng.stats["loops"] += 1
    f = st.frames[-1]
    depth = len(st.frames) - 1
    key = (tuple(id(x.body) for x in st.frames), header)
    stop = (depth, header, blocks)
    if key not in eng.no_unroll:
        r = unroll(eng, st, stop)
        if r is not None:
            return r
        eng.no_unroll.add(key)
    return fixpoint(eng, st, stop)


def unroll(eng, st, stop):
    done = []
    live = [st.copy()]
    for it in range(UNROLL):
        nxt = []
        for s in live:
            s.kind = None
            for x in eng.run([s], stop):
                if x.kind == "back":
                    nxt.append(x)
                else:
                    if x.kind == "giveup":
                        return None if it else [x]
                    done.append(x)
        if not nxt:
            return done
        if len(nxt) > 4 or len(done) > 80:
            return None
        # an undecided trip count shows up as an exit through the iterator being exhausted next to a continuation
        if it == 0 and open_ended(nxt, done, st):
            return None
        if it > 2 and any(isinstance(v, Lin) and size(v) > 3000 for s in nxt for v in s.cells.values()):
            return None
        live = nxt
    return None


_SIZE = {}


def size(x):
    """tree size of a term"""
    if isinstance(x, Lin):
        n = 1
        for a, _ in x.t:
            if a not in _SIZE:
                _SIZE[a] = size(ATOMS[a])
            n += _SIZE[a]
        return n
    if isinstance(x, tuple):
        return 1 + sum(size(y) for y in x)
    return 1


def open_ended(nxt, done, st):
    """the body is left and continued under complementary facts about one loop-independent bound"""
    for d in done:
        if d.kind != "exit":
            continue
        for b in nxt:
            # facts new in d whose negation is new in b
            fd = set(d.facts[len(st.facts):])
            fb = set(b.facts[len(st.facts):])
            for x in fd:
                if (-x + 1) in fb:
                    return not is_input_fail(x)
            for a in set(d.iv) & set(b.iv):
                if d.iv[a] != st.iv.get(a) and b.iv[a] != st.iv.get(a) and (d.iv[a][1] < b.iv[a][0] or b.iv[a][1] < d.iv[a][0]):
                    kk = ATOMS[a]
                    if kk[0] in ("len", "wrap", "s", "maplen", "totbits"):
                        return True
    return False


def is_input_fail(l):
    for a, k in l.t:
        if ATOMS[a][0] == "totbits" or ATOMS[a][0] == "len":
            return True
    return False


def fixpoint(eng, st, stop):
    depth, header, blocks = stop
    f = st.frames[-1]
    L = eng.fresh()
    rec = LoopRec(L, eng.where(st))
    live, borrowed = liveness(eng, f.body)
    base = st.copy()
    # dead locals at the header hold no information
    for i, c in f.loc.items():
        if i not in live[header]:
            v = base.cells.get(c)
            if i not in borrowed or v is UNDEF:
                base.cells[c] = UNDEF
    deadset = {c for i, c in f.loc.items() if i not in live[header] and (i not in borrowed or base.cells.get(c) is UNDEF)}
    S = set()
    n = atom(("n", L), 0, 1 << 62)
    step = {}       # loc -> constant step (affine in n)
    follow = {}     # loc -> (leader loc, offset Lin)
    monotone = {}   # loc -> +1/-1
    invs = []       # extra facts l <= 0 at the head
    nondead = set()
    mode = 0
    for rnd in range(14):
        syms = {}

        def mk(loc, old):
            if isinstance(old, Lin):
                if loc in step:
                    return old + n.scale(step[loc])
                if loc in follow:
                    lead, off = follow[loc]
                    return syms_get(lead) + off
                return syms_get(loc)
            if loc[-1] == "vk":
                return ("h", L, loc)
            t = loc_ty(eng, base, loc)
            if isinstance(old, Bv):
                return Bv(("op", ("h", L, loc)))
            if isinstance(old, Fv):
                return Fv(("fs", ("h", L, loc)))
            if isinstance(old, StrV):
                return StrV(("h", L, loc))
            if isinstance(old, MapV):
                return MapV(("h", L, loc))
            if loc[-1] == "rla":
                return None
            if t is not None and isinstance(old, (Agg, Sym)):
                return eng.mksym(t, ("h", L, loc))
            if t is not None and old is UNDEF:
                return eng.mksym(t, ("h", L, loc))
            raise GiveUp("loop-carried %s at %s" % (type(old).__name__, rec.site))

        def syms_get(loc):
            if loc not in syms:
                lo, hi = -INF, INF
                t = loc_ty(eng, base, loc)
                if loc[-1] in ("vlen", "slo", "shi", "rpos", "rtot"):
                    lo, hi = 0, (1 << 63) - 1
                elif t is not None and eng.P.int_range(t):
                    lo, hi = eng.P.int_range(t)
                elif isinstance(loc[-1], tuple) and loc[-1][0] == "it":
                    lo, hi = 0, (1 << 63) - 1
                syms[loc] = atom(("h", L, loc), lo, hi)
            return syms[loc]

        head = base.copy()
        feasible = True
        for cell in {l[0] for l in S}:
            v = base.cells[cell]
            nv = build(v, (cell,), S, mk)
            head.cells[cell] = nv
        head.assume(c_le(ZERO, n))
        for loc in S:
            old = get(base.cells[loc[0]], loc[1:])
            if isinstance(old, Lin) and loc not in step and loc not in follow:
                m = monotone.get(loc)
                if m == 1:
                    head.assume(c_le(old, syms_get(loc)))
                elif m == -1:
                    head.assume(c_le(syms_get(loc), old))
            if isinstance(old, Lin) and loc[-1] in ("slo", "rpos"):
                v = get(head.cells[loc[0]], loc[1:-1])
                o = get(base.cells[loc[0]], loc[1:-1])
                a, b = (v.lo, v.hi) if loc[-1] == "slo" else (v.pos, v.tot)
                oa, ob = (o.lo, o.hi) if loc[-1] == "slo" else (o.pos, o.tot)
                if base.ev_cond(c_le(oa, ob)) is not True:
                    base.assume(c_le(oa, ob))      # slices and readers are never past their end
                head.assume(c_le(a, b))
        for l in invs:
            if not head.assume(c_le0(l)):
                feasible = False
        head.kind = None
        nev = head.nev
        cells0 = dict(head.cells)
        res = eng.run([head], stop)
        backs = [x for x in res if x.kind == "back"]
        if any(x.kind == "giveup" for x in res):
            return [x for x in res if x.kind == "giveup"][:1] + [x for x in res if x.kind == "panic"]
        if not backs:
            return res
        # memory first touched inside the loop and changed there
        fresh = False
        for x in backs:
            for cell, w in x.cells.items():
                if cell[0] == "s" and cell not in cells0:
                    v = eng.getcell(base, cell)
                    out = set()
                    changed(v, w, (cell,), out)
                    if out:
                        base.cells[cell] = v
                        fresh = True
        if fresh:
            continue
        new = set()
        for x in backs:
            for cell, v in cells0.items():
                if cell in deadset:
                    continue
                w = x.cells.get(cell)
                if w is None or w is v:
                    continue
                if v is UNDEF:
                    if w is not UNDEF and cell[0] == "l" and any(c == cell for c in f.loc.values()):
                        i = cell[2]
                        if i in live[header]:
                            raise GiveUp("uninitialised loop-carried local")
                    continue
                out = set()
                changed(v, w, (cell,), out)
                new |= out
        # locations already abstracted do not need to be re-added
        add = set()
        for l in new:
            if l in S or any(l[:i] in S for i in range(1, len(l))):
                continue
            add.add(l)
        # a coarser location replaces the finer ones
        for l in list(add):
            for s in list(S | add):
                if s != l and s[:len(l)] == l:
                    S.discard(s)
                    add.discard(s)
                    step.pop(s, None)
                    follow.pop(s, None)
                    monotone.pop(s, None)
        if add:
            S |= add
            if mode == 0:
                continue
        # ---- refine: affine steps, monotone locations, followers, invariants
        changed_any = bool(add)
        lins = []
        for loc in sorted(S, key=repr):
            old = get(base.cells[loc[0]], loc[1:])
            if not isinstance(old, Lin):
                continue
            hv = get(cells0[loc[0]], loc[1:])
            ds = []
            for x in backs:
                nv = get(x.cells[loc[0]], loc[1:])
                ds.append((x, nv - hv) if isinstance(nv, Lin) else (x, None))
            if any(d is None for _, d in ds):
                continue
            lins.append((loc, hv, ds))
        if mode == 0:
            mode = 1
            for loc, hv, ds in lins:
                cs = {x.norm(d) for x, d in ds}
                if len(cs) == 1 and list(cs)[0].is_const():
                    step[loc] = list(cs)[0].c
                    changed_any = True
                elif all(x.prove_le0(-d) for x, d in ds):
                    monotone[loc] = 1
                    changed_any = True
                elif all(x.prove_le0(d) for x, d in ds):
                    monotone[loc] = -1
                    changed_any = True
            # followers
            rest = [(loc, hv, ds) for loc, hv, ds in lins if loc not in step]
            for i, (loc, hv, ds) in enumerate(rest):
                for loc2, hv2, ds2 in rest[:i]:
                    if loc2 in follow:
                        continue
                    if all(x.norm(a - b) == ZERO for (x, a), (_, b) in zip(ds, ds2)):
                        i1 = get(base.cells[loc[0]], loc[1:])
                        i2 = get(base.cells[loc2[0]], loc2[1:])
                        follow[loc] = (loc2, i1 - i2)
                        monotone.pop(loc, None)
                        changed_any = True
                        break
            if changed_any:
                continue
        # check the affine/follow/monotone assumptions still hold
        bad = False
        for loc, hv, ds in lins:
            if loc in step:
                # hv = init + step*n ; new must be init + step*(n+1)
                for x, d in ds:
                    if x.norm(d) != K(step[loc]):
                        bad = True
                        step.pop(loc, None)
                        break
            elif loc in follow:
                lead = follow[loc][0]
                lds = [q for q in lins if q[0] == lead]
                if not lds or not all(x.norm(a - b) == ZERO for (x, a), (_, b) in zip(ds, lds[0][2])):
                    follow.pop(loc)
                    bad = True
            elif loc in monotone:
                if not all(x.prove_le0(-d if monotone[loc] == 1 else d) for x, d in ds):
                    monotone.pop(loc)
                    bad = True
        if bad:
            mode = 2
            continue
        if changed_any and mode < 3:
            continue
        if mode <= 2:
            # guard invariants: facts about n (or head symbols) true on every back edge
            mode = 3
            cand = guards(eng, base, head, backs, n, step)
            if cand:
                invs = cand
                continue
        # final
        rec.n = n
        for loc in S:
            rec.heads[loc] = (get(base.cells[loc[0]], loc[1:]), get(cells0[loc[0]], loc[1:]))
        rec.cells0 = cells0
        rec.init = base.cells
        rec.vecs = {l[:-1] for l in S if l[-1] in ("vk", "vlen")}
        rec.iters = [(x, x.events(nev)) for x in backs]
        rec.entry = nev
        find_copies(eng, rec)
        rec.term = term_measure(eng, base, backs, cells0, S, n, rec)
        return finish(eng, st, rec, res, nev)
    raise GiveUp("loop fixpoint")


def find_copies(eng, rec):
    """vectors that receive, element by element, consecutive bytes of the input"""
    for loc in rec.vecs:
        h = get(rec.cells0[loc[0]], loc[1:])
        i = get(rec.init[loc[0]], loc[1:])
        if not isinstance(h, VecV) or h.k[0] != "h" or not isinstance(i, VecV) or i.len != ZERO or h.len != rec.n:
            continue
        src = None
        for x, _ in rec.iters:
            b = get(x.cells[loc[0]], loc[1:])
            if not (isinstance(b, VecV) and b.k[0] == "push" and b.k[1] == h.k and isinstance(b.k[3], Lin) and len(b.k[3].t) == 1
                    and b.k[3].c == 0 and b.k[3].t[0][1] == 1):
                src = None
                break
            k = ATOMS[b.k[3].t[0][0]]
            if k[0] != "rd" or k[3] != 8:
                src = None
                break
            p = k[2] - rec.n.scale(8)
            if any(_is_head(a, rec.n) or a == rec.n.t[0][0] for a in p.atoms()) or (src is not None and src != (k[1], p)):
                src = None
                break
            src = (k[1], p)
        if src is not None:
            eng.copies[h.k] = src


def guards(eng, base, head, backs, n, step):
    """facts l(n) <= 0 established in the body by every iteration, shifted to the loop head"""
    (na, _), = n.t
    cands = None
    for x in backs:
        cur = set()
        for fct in x.facts:
            for a, k in fct.t:
                if a == na and k > 0:
                    cur.add(fct - k)
        lo, hi = x.arange(na)
        if hi < (1 << 62):
            cur.add(n - (hi + 1))
        cands = cur if cands is None else cands & cur
    out = []
    for l in cands or ():
        at0 = subst(l, {na: ZERO})
        if base.ev_cond(c_le0(at0)) is True:
            # only loop-invariant atoms besides n
            if all(a == na or not _is_head(a, n) for a, _ in l.t):
                out.append(l)
    return out


def _is_head(a, n):
    k = ATOMS[a]
    return k[0] == "h" and k[1] == ATOMS[n.t[0][0]][1]


def term_measure(eng, base, backs, cells0, S, n, rec):
    """a reason why the loop terminates: (kind, detail) or None"""
    (na, _), = n.t
    # a guard n < bound with a loop-invariant bound
    ok = bool(backs)
    for x in backs:
        g = False
        for fct in x.facts:
            d = dict(fct.t)
            if d.get(na, 0) > 0 and all(a == na or not _is_head(a, n) for a in d):
                g = True
        if x.arange(na)[1] < (1 << 62):
            g = True
        if not g:
            ok = False
    if ok:
        return ("counter", "iteration count bounded by a loop-invariant quantity")
    # a reader or slice that advances by at least one on every back edge
    for loc in S:
        if loc[-1] in ("rpos", "slo"):
            h = get(cells0[loc[0]], loc[1:])
            if all(x.prove_le0(h - get(x.cells[loc[0]], loc[1:]) + 1) for x in backs):
                return ("progress", "input position advances on every iteration")
    # an iterator over a finite sequence that advances on every back edge
    for loc in S:
        if isinstance(loc[-1], tuple) and loc[-1][0] == "it":
            h = get(cells0[loc[0]], loc[1:])
            if isinstance(h, Lin):
                vs = [get(x.cells[loc[0]], loc[1:]) for x in backs]
                if all(isinstance(v, Lin) and x.prove_le0(h - v + 1) for x, v in zip(backs, vs)):
                    return ("iterator", "an iterator advances on every iteration")
    return None


def finish(eng, st, rec, res, nev):
    out = []
    for x in res:
        if x.kind == "back":
            continue
        if x.kind == "exit":
            # effects of the final, partial iteration follow the loop record
            evs = x.events(nev)
            ev = x.ev
            k = x.nev
            while k > nev:
                ev = ev[0]
                k -= 1
            x.ev = (ev, ("loop", rec))
            x.nev = nev + 1
            for e in evs:
                x.emit(*e)
        out.append(x)
    return out
