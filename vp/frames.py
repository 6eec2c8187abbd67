"""Network frames: FrameDecoder::decode_frames against the frame grammar and the actor lifecycle."""
import time
from terms import *
from absint import Engine, GiveUp, State, seq_cond
from prog import Prog
import accept, attr_spec, models, panics
from accept import Ctx, W, SpecFail, Mismatch, Undecided, check_state, mk_adt
from models import ok, err, some, NONE, RES, OPT, as_slice
from container import one, result_types


def deref(eng, st, v):
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    return v


# ------------------------------------------------------------------ actor table and attribute tables: opaque stores
def store_of(v):
    """the keys of the two parts of a segmented array"""
    raw = v.fields[0]
    a, m = raw.fields[0], raw.fields[1]
    if not (isinstance(a, VecV) and isinstance(m, MapV)):
        raise GiveUp("segmented array representation")
    return a, m


def with_store(v, a, m):
    raw = v.fields[0]
    return Agg(v.name, v.variant, (Agg(raw.name, raw.variant, (a, m) + tuple(raw.fields[2:])),) + tuple(v.fields[1:]))


def akey(eng, st, k):
    k = deref(eng, st, k)
    while isinstance(k, Agg) and len(k.fields) == 1:
        k = k.fields[0]
    if not isinstance(k, Lin):
        raise GiveUp("key of a segmented array")
    return st.norm(k)


def find_store(eng, st, p):
    while True:
        v = eng.read(st, p)
        if not isinstance(v, Ptr):
            return p, v
        p = v


def arg_val_ty(P, inst):
    """V of SegmentedArray<K, V> from the instance's first parameter"""
    return None


def store_key(v):
    a, m = store_of(v)
    return (a.k, m.k)


def known(sk, k):
    return ("op", ("has", sk, k))


def held(sk, k):
    return ("held", sk, k)


def seg_get(eng, st, inst, args):
    p, v = find_store(eng, st, args[0])
    a, m = store_of(v)
    sk = store_key(v)
    k = akey(eng, st, args[1])
    vty = eng.P.kind(a.ety)[2][0]
    out = []
    for t, x in models.fork(eng, st, known(sk, k)):
        if not t:
            out.append((x, NONE))
            continue
        v = eng.mksym(vty, held(sk, k))
        for y in cache_limits(eng, x, v):
            out.append((y, some(Ptr(("const", v), ()))))
    return out


def cache_limits(eng, st, v):
    """what holds of every attribute table in use: its width of ids fits its bound"""
    if isinstance(v, Agg) and v.name == "()":
        for f in v.fields:
            c = deref(eng, st, f)
            if isinstance(c, Agg) and isinstance(c.name, str) and c.name.endswith("::CacheInfo"):
                bits, mx = field(eng.P, c, "prop_id_bits"), field(eng.P, c, "max_prop_id")
                out = limits(eng, st, bits, mx)
                x = st.copy()
                if x.assume(c_eq(bits, K(63))) and x.assume(c_le(K(1 << 31), mx)):
                    out.append(x)
                return out
    return [st]


def seg_insert(eng, st, inst, args):
    p, v = find_store(eng, st, args[0])
    a, m = store_of(v)
    k = akey(eng, st, args[1])
    eng.write(st, p, with_store(v, VecV(("sins", a.k, k, args[2]), a.len, a.ety), MapV(("sins", m.k, k, args[2]))))
    return [(st, Agg("()", 0, ()))]


def seg_delete(eng, st, inst, args):
    p, v = find_store(eng, st, args[0])
    a, m = store_of(v)
    k = akey(eng, st, args[1])
    eng.write(st, p, with_store(v, VecV(("sdel", a.k, k), a.len, a.ety), MapV(("sdel", m.k, k))))
    return [(st, Agg("()", 0, ()))]


# ------------------------------------------------------------------ attribute decoding: opaque
def attr_cut(P, decode):
    T, E = result_types(P, decode)

    def cut(eng, st, inst, args):
        rp = None
        tag = None
        for a in args:
            v = a
            q = None
            while isinstance(v, Ptr):
                q = v
                v = eng.read(st, v)
            if isinstance(v, RdrV):
                rp, r = q, v
            elif isinstance(v, (Sym, Agg)) and (P.kind(v.ty)[1] if isinstance(v, Sym) else v.name).endswith("::AttributeTag"):
                tag = v.key() if isinstance(v, Agg) else ("sym", v.k)
        if rp is None or tag is None:
            raise GiveUp("attribute decoder arguments")
        pos = st.norm(r.pos)
        out = []
        for t, x in models.fork(eng, st, ("op", ("attr-ok", tag, pos))):
            e = attr_end(tag, pos)
            if not (x.assume(c_le(pos, e)) and x.assume(c_le(e, r.tot))):
                continue
            eng.write(x, rp, RdrV(r.base, e, r.tot, None, None))
            out.append((x, ok(eng.mksym(T, ("attr", tag, pos))) if t else err(eng.mksym(E, ("attr-err", tag, pos)))))
        return out
    return cut


def traj_cut(P, inst):
    T = P.kind(P.insts[inst]["body"]["locals"][0])[2][0]

    def cut(eng, st, inst, args):
        rp = None
        rest = []
        for a in args:
            v, q = a, None
            while isinstance(v, Ptr):
                q = v
                v = eng.read(st, v)
            if isinstance(v, RdrV):
                rp, r = q, v
            else:
                rest.append(v)
        if rp is None:
            raise GiveUp("trajectory decoder arguments")
        pos = st.norm(r.pos)
        key = traj_key(rest, pos)
        out = []
        for t, x in models.fork(eng, st, ("op", ("traj-ok", key))):
            e = atom(("traj-end", key), 0, 1 << 62)
            if not (x.assume(c_le(pos, e)) and x.assume(c_le(e, r.tot))):
                continue
            eng.write(x, rp, RdrV(r.base, e, r.tot, None, None))
            out.append((x, some(eng.mksym(T, ("traj", key))) if t else NONE))
        return out
    return cut


def traj_key(vals, pos):
    return (tuple(sorted((v.key() if not isinstance(v, Lin) else v for v in vals), key=repr)), pos)


def context_builders(P, but):
    """functions and closures that assemble the context of a frame error"""
    out = []
    for n, i in enumerate(P.insts):
        b = i.get("body")
        if not b or n == but:
            continue
        if any(s[0] == "=" and s[2][0] == "agg" and "FrameContext" in str(s[2][1]) for blk in b["bb"] for s in blk[0]):
            out.append(n)
    return out


def context_cut(P, inst, log):
    T = P.insts[inst]["body"]["locals"][0]

    def cut(eng, st, inst, args):
        key = tuple(a.key() if isinstance(a, V) else a for a in args)
        log.append((inst, st.copy(), args))
        return [(st, eng.mksym(T, ("ctx", key)))]
    return cut


def attr_end(tag, pos):
    return atom(("attr-end", tag, pos), 0, 1 << 62)


def opaque(eng, P, log):
    for n, f in (("get", seg_get), ("insert", seg_insert), ("delete", seg_delete)):
        for i in P.find("SegmentedArray::" + n):
            eng.cuts[i] = f
    dec = one(P, "AttributeDecoder::decode")
    eng.cuts[dec] = attr_cut(P, dec)
    tr = one(P, "Trajectory::from_spawn")
    eng.cuts[tr] = traj_cut(P, tr)
    for i in context_builders(P, None):
        eng.cuts[i] = context_cut(P, i, log)


class Args:
    """the arguments of a frame decoder function, found by type"""

    def __init__(self, P, eng, st, inst):
        body = P.insts[inst]["body"]
        self.tys = [body["locals"][j + 1] for j in range(body["argc"])]
        self.args = [eng.mksym(t, ("a", j)) for j, t in enumerate(self.tys)]
        self.by = {}
        for j, (t, a) in enumerate(zip(self.tys, self.args)):
            while P.kind(t)[0] == "ref":
                t = P.kind(t)[1]
            k = P.kind(t)
            name = k[1].rsplit("::", 1)[-1] if k[0] == "adt" else k[0]
            if name == "Vec":
                e = P.kind(k[2][0])
                name = "Vec<%s>" % (e[1].rsplit("::", 1)[-1] if e[0] == "adt" else e[0])
            self.by[name] = a

    def get(self, *names):
        for n in names:
            if n in self.by:
                return self.by[n]
        raise Undecided("the frame decoder has no argument of type %s" % names[0])


def field(P, v, name):
    if not isinstance(v, Agg):
        raise Undecided("%s is not a record" % name)
    ns = P.adts[v.name]["variants"][v.variant][2]
    if name not in ns:
        raise Undecided("field %s of %s is gone" % (name, v.name))
    return v.fields[ns.index(name)]


def limits(eng, st, bits, mx):
    """states in which bits is the width to read for ids below mx: max(bit width of mx, 1) - 1"""
    out = []
    x = st.copy()
    if x.assume(c_eq(mx, ZERO)) and x.assume(c_eq(bits, ZERO)):
        out.append(x)
    x = st.copy()
    z = atom(("ctlz", 64, mx), 32, 63)
    if x.assume(c_le(ONE, mx)) and x.assume(c_eq(bits + z, K(63))) and x.assume(c_le(bits, K(31))):
        p = eng.pow2(x, bits)
        if x.assume(c_le(p, mx)) and x.assume(c_lt(mx, p.scale(2))):
            out.append(x)
    return out


class FFail(SpecFail):
    def __init__(self, value, why="malformed"):
        SpecFail.__init__(self, why)
        self.value = value


class Slots:
    pass


class FW(W):
    """cursor over the network data"""

    def limited(self, bits, mx):
        d = self.bits(bits)
        up = d + self.eng.pow2(self.st, self.rw(bits))
        if not self.lt(up, mx):
            return d
        b = self.bits(1)
        return self.rw(up) if self.is_eq(b, 1) else self.rw(d)

    def ferr(self, v, **f):
        return mk_adt(self.P, "FrameError", v, **f) if f else Agg(self.P.adt_name("FrameError"), self.variant("FrameError", v), ())

    def variant(self, ty, v):
        return [x[0] for x in self.P.adts[self.P.adt_name(ty)]["variants"]].index(v)

    def short(self, what):
        full = self.P.adt_name("FrameError")
        raise FFail(Agg(full, self.variant("FrameError", "NotEnoughDataFor"), (StrV(("c", what.encode())),)), "truncated")

    def frame_err(self, v, **f):
        raise FFail(mk_adt(self.P, "FrameError", v, **f))

    def want(self, n, what):
        n = n if isinstance(n, Lin) else K(n)
        if not self.cond(c_le(self.pos + n, self.tot)):
            self.short(what)

    def wbits(self, n, what):
        self.want(n, what)
        return self.bits(n)

    # ---- stateful loops
    def stateful(self, slots, step, tag):
        """slots: {name: value}; step(w, slots) -> ("stop"|"go", slots).  Induction on the summarised loop at this position."""
        rec = self.next_rec()
        if rec is not None:
            p0 = self.rec_pos(rec, rec.init)
            if p0 is None or not self.zero(p0 - self.pos):
                rec = None
        if rec is None:
            S = slots
            for _ in range(4):
                r, S = step(self, S)
                if r == "stop":
                    return S
            raise Undecided("loop %s is not recognised" % tag)
        self.cur += 1
        key = (id(rec), tag)
        if key not in self.ctx.memo:
            try:
                self.ctx.memo[key] = self._verify_stateful(rec, slots, step, tag)
                self.ctx.nloops += 1
            except (Mismatch, Undecided) as e:
                self.ctx.memo[key] = e
        locs = self.ctx.memo[key]
        if isinstance(locs, Exception):
            raise locs
        for n, v in slots.items():
            if not same_slot(self, slot_at(self, rec.init, locs[n]), v):
                raise Mismatch("%s of the loop at %s starts from a wrong value" % (n, rec.site))
        self.pos = self.rec_pos(rec, rec.cells0)
        S = {n: self.rw(slot_at(self, rec.cells0, locs[n])) for n in slots}
        r, S = step(self, S)
        if r != "stop":
            raise Mismatch("the loop at %s is left although it should go on" % rec.site)
        return S

    def _verify_stateful(self, rec, slots, step, tag):
        locs = {}
        for n, v in slots.items():
            c = [l for l in slot_locs(self, rec, v)]
            if not c:
                raise Undecided("%s is not found in the loop at %s" % (n, rec.site))
            if len(c) > 1:
                ch = [l for l in c if changed_slot(self, rec, l)]
                c = ch or c[:1]
            if len(c) > 1:
                raise Undecided("%s is ambiguous in the loop at %s" % (n, rec.site))
            locs[n] = c[0]
        for B, evs in rec.iters:
            def one_iter(w, B=B):
                S = {n: w.rw(slot_at(w, rec.cells0, locs[n])) for n in slots}
                r, S = step(w, S)
                if r == "stop":
                    raise Mismatch("the loop at %s goes on after its end" % rec.site)
                w.check_pos(B.cells, "iteration of the loop at %s" % rec.site)
                for n in slots:
                    got = slot_at(w, B.cells, locs[n])
                    compare_slot(w, got, S[n], n)
                return S
            for w, v, exc in accept.replays(self.ctx, B, evs, one_iter, self.at(rec.cells0), B.cells):
                if exc is not None:
                    raise Mismatch("the loop at %s goes on although the input is %s" % (rec.site, exc), "truncated" if exc == "truncated" else "accepts")
        return locs


def etype(P, v):
    if v.ety is None:
        return None
    k = P.kind(v.ety)
    return k[1].rsplit("::", 1)[-1] if k[0] == "adt" else k[0]


def slot_locs(w, rec, v):
    """locations of the loop's cells that hold a value like v"""
    P = w.P
    out = []

    def visit(x, loc):
        if isinstance(v, VecV) and isinstance(x, VecV):
            if etype(P, x) == etype(P, v) and etype(P, v) is not None:
                out.append(loc)
        if isinstance(x, Agg):
            if isinstance(v, Agg) and x.name == v.name:
                out.append(loc)
                return
            for i, y in enumerate(x.fields):
                visit(y, loc + (("f", i),))
    for c, x in rec.cells0.items():
        if x is not UNDEF and isinstance(x, V) and c in rec.init:
            visit(x, (c,))
    return out


def slot_at(w, cells, loc):
    return accept.get_loc(cells, loc)


def changed_slot(w, rec, loc):
    a, b = slot_at(w, rec.init, loc), slot_at(w, rec.cells0, loc)
    return a is not b and a.key() != b.key()


def same_slot(w, a, b):
    try:
        compare_slot(w, a, b, "")
        return True
    except Mismatch:
        return False


def compare_slot(w, a, b, name):
    """implementation value a against specification value b"""
    if isinstance(b, Agg) and isinstance(b.name, str) and b.name.endswith("SegmentedArray"):
        sa, sb = store_of(a), store_of(b)
        for x, y in zip(sa, sb):
            compare_store(w, x.k, y.k, name)
        return
    if isinstance(b, VecV):
        compare_vec(w, a, b, name)
        return
    w.equal(a, b, name)


def compare_store(w, x, y, name):
    while True:
        if x[0] != y[0] or x[0] not in ("sins", "sdel"):
            if w.cank(w.rw(x)) != w.cank(w.rw(y)):
                raise Mismatch("%s is not updated as it should be: %s instead of %s" % (name, store_op(x), store_op(y)))
            return
        if not w.zero(x[2] - y[2]):
            raise Mismatch("%s: the wrong key is %s" % (name, "set" if x[0] == "sins" else "removed"))
        if x[0] == "sins":
            compare_entry(w, x[3], y[3], name)
        x, y = x[1], y[1]


def store_op(k):
    return {"sins": "an insertion", "sdel": "a deletion"}.get(k[0], "no change")


def compare_entry(w, a, b, name):
    for x, y in zip(a.fields, b.fields):
        x, y = deref(w.eng, w.st, x), deref(w.eng, w.st, y)
        w.equal(w.rw(x), w.rw(y), name + " entry")


def compare_vec(w, a, b, name):
    a, b = w.rw(a), w.rw(b)
    if not isinstance(a, VecV) or not w.zero(a.len - b.len):
        raise Mismatch("%s has length %r, expected %r" % (name, getattr(a, "len", None), b.len))
    x, y = a.k, b.k
    while x[0] == "push" and y[0] == "push":
        w.equal(x[3], y[3], "element of %s" % name)
        x, y = x[1], y[1]
    if w.cank(x) != w.cank(y):
        n = w.st.norm(b.len)
        if n == ZERO:
            return
        raise Mismatch("%s holds %s, expected %s" % (name, key_str(x)[:120], key_str(y)[:120]))


def push(w, v, x):
    return VecV(("push", v.k, v.len, x), v.len + 1, v.ety)


# ------------------------------------------------------------------ the frame grammar
F10 = Fv(("fc", 0x2EDBE6FF, 32))       # 1e-10 as f32
F0 = Fv(("fc", 0, 32))


class Env:
    pass


def newtype(w, name, l):
    return Agg(w.P.adt_name(name), 0, (l,))


def i32(w, l):
    return models.wrap_to(w.eng, 32, True)(w.st, w.rw(l))


def at_least(w, v, want):
    """lexicographic comparison of version numbers"""
    for a, b in zip(v, want):
        if w.lt(b, a):
            return True
        if not w.is_eq(a, b):
            return False
    return True


def bad_number(w, t):
    f = w.eng.fbin
    if w.cond(f("Lt", t, F0).c):
        return True
    return w.cond(f("Lt", F0, t).c) and w.cond(f("Lt", t, F10).c)


def new_actor(w, E, actor):
    what = "New Actor"
    name = NONE
    if at_least(w, E.version, (868, 20, 0)) or (at_least(w, E.version, (868, 14, 0)) and not w.cond(E.is_lan)):
        name = some(i32(w, w.wbits(32, what)))
    w.wbits(1, what)
    oid = i32(w, w.wbits(32, what))
    obj = newtype(w, "ObjectId", oid)
    idx = oid
    if w.lt(oid, 0):
        w.frame_err("ObjectIdOutOfRange", obj=obj)
    if not w.lt(oid, E.spawns.len):
        w.frame_err("ObjectIdOutOfRange", obj=obj)
    spawn = w.rw(w.eng.elem(w.st, E.spawns, w.rw(oid)))
    key = traj_key([spawn, w.rw(E.version[2])], w.st.norm(w.rw(w.pos)))
    if not w.cond(("op", ("traj-ok", key))):
        w.short(what)
    w.pos = atom(("traj-end", key), 0, 1 << 62)
    traj = w.eng.mksym(E.traj_ty, ("traj", key))
    return w.adt("NewActor", actor_id=actor, name_id=name, object_id=obj, initial_trajectory=traj), oid


def variant_of(w, v):
    """the variant of an enum value, taking every way when it is open"""
    v = w.rw(v)
    if isinstance(v, Agg):
        return v.variant, v
    n = len(w.P.kind(v.ty)[3])
    for i in range(n):
        known = w.st.variants.get(v.k)
        if known is not None:
            break
        if i == n - 1 or w.cond(("op", ("variant", v.k, i))):
            w.st.variants[v.k] = i
    return w.st.variants[v.k], v


def frame(w, E, S):
    """one frame: ("end", S) or ("frame", value, S)"""
    time_ = Fv(("fbits", 32, w.wbits(32, "Time")))
    if bad_number(w, time_):
        w.frame_err("TimeOutOfRange", time=time_)
    delta = Fv(("fbits", 32, w.wbits(32, "Delta")))
    if bad_number(w, delta):
        w.frame_err("DeltaOutOfRange", delta=delta)
    if w.cond(w.eng.fbin("Eq", time_, F0).c) and w.cond(w.eng.fbin("Eq", delta, F0).c):
        return "end", None, S

    def actor_step(w, S):
        S = dict(S)
        if w.is_eq(w.wbits(1, "Actor data"), 0):
            return "stop", S
        w.want(E.channel_bits + 2, "Actor Id")
        raw = w.limited(E.channel_bits, E.max_channels)
        aid = i32(w, raw)
        actor = newtype(w, "ActorId", aid)
        if w.is_eq(w.bits(1), 0):
            S["deleted"] = push(w, S["deleted"], actor)
            S["actors"] = with_store(S["actors"], *(f(x) for f, x in zip(
                (lambda a: VecV(("sdel", a.k, aid), a.len, a.ety), lambda m: MapV(("sdel", m.k, aid))), store_of(S["actors"]))))
            return "go", S
        if w.is_eq(w.wbits(1, "Is new actor"), 1):
            new, oid = new_actor(w, E, actor)
            obj = newtype(w, "ObjectId", oid)
            missing = not w.lt(oid, E.caches.len)
            if not missing:
                var, c = variant_of(w, w.eng.elem(w.st, E.caches, w.rw(oid)))
                missing = var == 0
            if missing:
                w.frame_err("MissingCache", actor=actor, actor_object=obj)
            cache = w.eng.proj(w.st, c, ("f", 0)) if isinstance(c, Agg) else w.eng.expand(c, 1).fields[0]
            val = Agg("()", 0, (obj, cache))
            S["new"] = push(w, S["new"], new)
            S["actors"] = with_store(S["actors"], *(f(x) for f, x in zip(
                (lambda a: VecV(("sins", a.k, aid, val), a.len, a.ety), lambda m: MapV(("sins", m.k, aid, val))), store_of(S["actors"]))))
            return "go", S
        st = store_of(S["actors"])
        sk = (w.rw(st[0].k), w.rw(st[1].k))
        if not w.cond(known(sk, w.st.norm(w.rw(aid)))):
            w.frame_err("MissingActor", actor=actor)
        ent = w.eng.mksym(w.P.kind(st[0].ety)[2][0], held(sk, w.st.norm(w.rw(aid))))
        obj = ent.fields[0]
        cache = deref(w.eng, w.st, ent.fields[1])
        pb, mx = field(w.P, cache, "prop_id_bits"), field(w.P, cache, "max_prop_id")
        at = field(w.P, cache, "attributes")

        def attr_step(w, T):
            T = dict(T)
            if w.is_eq(w.wbits(1, "Is prop present"), 0):
                return "stop", T
            w.want(pb + 1, "Prop id")
            if w.le(K(32), pb):          # a table with a negative largest id: no id can be read
                w.short("Prop id")
            sid = i32(w, w.limited(pb, mx))
            stream = newtype(w, "StreamId", sid)
            ast = store_of(at)
            ak = (w.rw(ast[0].k), w.rw(ast[1].k))
            sid_ = w.st.norm(w.rw(sid))
            if not w.cond(known(ak, sid_)):
                w.frame_err("MissingAttribute", actor=actor, actor_object=obj, attribute_stream=stream)
            oa = w.eng.mksym(w.P.kind(ast[0].ety)[2][0], held(ak, sid_))
            tag = ("sym", field(w.P, oa, "attribute").k)
            pos = w.st.norm(w.rw(w.pos))
            if not w.cond(("op", ("attr-ok", tag, pos))):
                e = w.eng.mksym(E.attr_err_ty, ("attr-err", tag, pos))
                var, e = variant_of(w, e)
                if var == w.variant("AttributeError", "Unimplemented"):
                    w.frame_err("MissingAttribute", actor=actor, actor_object=obj, attribute_stream=stream)
                w.frame_err("AttributeError", actor=actor, actor_object=obj, attribute_stream=stream, error=e)
            w.pos = attr_end(tag, pos)
            T["updated"] = push(w, T["updated"], w.adt("UpdatedAttribute", actor_id=actor, stream_id=stream, object_id=field(w.P, oa, "object_id"),
                                                       attribute=w.eng.mksym(E.attr_ty, ("attr", tag, pos))))
            return "go", T
        T = w.stateful({"updated": S["updated"]}, attr_step, "attributes")
        S["updated"] = T["updated"]
        return "go", S
    S = w.stateful(S, actor_step, "actors")
    return "frame", w.adt("Frame", time=time_, delta=delta, new_actors=S["new"], deleted_actors=S["deleted"],
                          updated_actors=S["updated"]), S


def fail_hook(w, value, e):
    if isinstance(e, FFail):
        try:
            w.equal(accept.strip_box(value.fields[0]), w.rw(e.value), "error")
        except Mismatch as m:
            m.kind = "context"
            raise


def check_frame(P, limit=120, case=None):
    inst = one(P, "FrameDecoder::decode_frame")
    eng = Engine(P, limit=limit, maxpaths=20000)
    log = []
    opaque(eng, P, log)
    st = State()
    A = Args(P, eng, st, inst)
    sv = deref(eng, st, A.get("FrameDecoder"))
    E = Env()
    ver = field(P, sv, "version")
    E.version = ver.fields
    eng.free_atoms = [x.t[0][0] for x in ver.fields if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0]
    E.is_lan = field(P, sv, "is_lan").c
    E.spawns = deref(eng, st, field(P, sv, "spawns"))
    E.caches = deref(eng, st, field(P, sv, "object_ind_attributes"))
    if isinstance(E.caches, VecV):
        eng.free_vecs = (E.caches.k,)
    E.channel_bits, E.max_channels = field(P, sv, "channel_bits"), field(P, sv, "max_channels")
    E.traj_ty = P.kind(P.insts[one(P, "Trajectory::from_spawn")]["body"]["locals"][0])[2][0]
    E.attr_ty, E.attr_err_ty = result_types(P, one(P, "AttributeDecoder::decode"))
    rp = A.get("LittleEndianReader")
    eng.getcell(st, rp.cell)
    slots = {}
    for n, t in (("new", "NewActor"), ("deleted", "ActorId"), ("updated", "UpdatedAttribute")):
        p = A.get("Vec<%s>" % t)
        v = eng.read(st, p)
        eng.write(st, p, VecV(("lit", ()), ZERO, v.ety))
        slots[n] = p
    slots["actors"] = A.get("SegmentedArray")
    start = {n: eng.read(st, p) for n, p in slots.items()}
    res = dict(ok=0, err=0, infeasible=0)
    bad, und, outs = [], [], []
    look = []
    ctx = Ctx(eng, rp.cell, FW)
    ctx.on_error = fail_hook
    for n, s0 in enumerate(limits(eng, st, E.channel_bits, E.max_channels)):
        if case is not None and n != case:
            continue
        s0c = s0
        out = eng.analyse(inst, list(A.args), s0c)
        outs += out

        for s in out:
            def spec(w, s=s):
                k, v, S = frame(w, E, start)
                if k == "end":
                    return mk_adt(P, "DecodedFrame", "EndFrame")
                # the working lists are handed over: the next frame starts with empty ones
                for n in ("new", "deleted", "updated"):
                    got = w.eng.read(s, slots[n])
                    if not w.zero(got.len):
                        raise Mismatch("elements of one frame are left for the next (%s actors)" % n, "carry")
                compare_slot(w, w.eng.read(s, slots["actors"]), S["actors"], "actors")
                return mk_adt(P, "DecodedFrame", "Frame", v)
            if s.kind == "giveup":
                und.append(s.info)
                continue
            if s.kind == "panic" and not look and str(s.info[0]).endswith(":lookahead"):
                try:
                    w = panics.certain(eng, s)
                    look.append(w)
                    bad.append((Mismatch("bits are taken from the reader although it may have run out of them (%s)" % str(w)[:100], "truncated"), s))
                except (panics.Unsure, RecursionError):
                    pass
            if s.kind != "ret":
                continue
            try:
                for r in check_state(ctx, s, spec, ok):
                    res[r] += 1
            except Mismatch as e:
                if e.kind == "variant" and "DecodedFrame" in str(e):
                    e.kind = "end"
                bad.append((e, s))
            except Undecided as e:
                und.append((str(e), None))
    return eng, ctx, outs, res, bad, und


# ------------------------------------------------------------------ the sequence of frames
FKEY = "frame"


def frame_cut(P, dfr, log):
    """one frame: outcome, value, end position and actors afterwards are functions of the position and the actors before"""
    T, E = result_types(P, dfr)

    def cut(eng, st, inst, args):
        rp = sp = None
        lists = []
        rest = []
        for a in args:
            v, q = a, None
            while isinstance(v, Ptr):
                q = v
                v = eng.read(st, v)
            if isinstance(v, RdrV):
                rp, r = q, v
            elif isinstance(v, Agg) and isinstance(v.name, str) and v.name.endswith("SegmentedArray"):
                sp, sv = q, v
            elif isinstance(v, VecV) and isinstance(a, Ptr):
                lists.append((q, v))
            else:
                rest.append(v)
        if rp is None or sp is None:
            raise GiveUp("frame decoder arguments")
        log.append((st.copy(), lists, rest))
        pos = st.norm(r.pos)
        key = (pos,) + store_key(sv)
        out = []
        for k in ("err", "end", "frame"):
            x = st.copy()
            c1, c2 = ("op", ("frame-ok", key)), ("op", ("frame-end?", key))
            if not x.assume(c1, k != "err"):
                continue
            if k != "err" and not x.assume(c2, k == "end"):
                continue
            e = frame_end(key)
            if not (x.assume(c_lt(pos, e)) and x.assume(c_le(e, r.tot))):
                continue
            eng.write(x, rp, RdrV(r.base, e, r.tot, None, None))
            a, m = store_of(sv)
            eng.write(x, sp, with_store(sv, VecV(("after", a.k, key), a.len, a.ety), MapV(("after", m.k, key))))
            for q, v in lists:
                if k == "err":
                    eng.write(x, q, VecV(("partial", etype(P, v), key), atom(("partial-len", etype(P, v), key), 0, 1 << 60), v.ety))
            if k == "err":
                v = err(eng.mksym(E, ("frame-err", key)))
            else:
                kT = P.kind(T)
                vs = [q[0] for q in P.adts[kT[1]]["variants"]]
                if k == "end":
                    v = ok(Agg(kT[1], vs.index("EndFrame"), ()))
                else:
                    fi = vs.index("Frame")
                    v = ok(Agg(kT[1], fi, (eng.mksym(kT[3][fi][0], ("frame", key)),)))
            out.append((x, v))
        return out
    return cut


def frame_end(key):
    return atom(("frame-end", key), 0, 1 << 62)


def seg_new(P, inst):
    T = P.insts[inst]["body"]["locals"][0]

    def cut(eng, st, inst, args):
        v = eng.mksym(T, ("snew",))
        a, m = store_of(v)
        return [(st, with_store(v, VecV(("snew",), args[0], a.ety), MapV(("snew",))))]
    return cut


def frames_spec(E):
    def spec(w):
        def step(w, S):
            S = dict(S)
            if not w.lt(w.pos, w.tot) or not w.lt(S["frames"].len, E.frames_len):
                return "stop", S
            st = store_of(S["actors"])
            pos = w.st.norm(w.rw(w.pos))
            key = (pos, w.rw(st[0].k), w.rw(st[1].k))
            if not w.cond(("op", ("frame-ok", key))):
                raise FFail(("ctx", w.eng.mksym(E.err_ty, ("frame-err", key))))
            w.pos = frame_end(key)
            if w.cond(("op", ("frame-end?", key))):
                return "stop", S
            S["frames"] = push(w, S["frames"], w.eng.mksym(E.frame_ty, ("frame", key)))
            S["actors"] = with_store(S["actors"], VecV(("after", st[0].k, key), st[0].len, st[0].ety), MapV(("after", st[1].k, key)))
            return "go", S
        S = w.stateful(dict(E.slots), step, "frames")
        return S["frames"]
    return spec


class FindReader:
    """the reader among the cells"""

    def __init__(self, first):
        self.first = first

    def get(self, cells):
        r = [v for v in cells.values() if isinstance(v, RdrV)]
        if not r and self.first is not None:
            return (self.first.base, ZERO, self.first.tot)
        if len({(x.base, x.tot) for x in r}) != 1:
            return None
        r = r[0]
        return (r.base, r.pos, r.tot)


def frames_hook(w, value, e):
    got = accept.strip_box(value.fields[0])
    want = w.rw(e.value[1])
    k = got.key() if isinstance(got, V) else got
    if not mentions(k, want.key()) and not mentions(k, want.k):
        raise Mismatch("the error is not the error of the frame that failed", "context")


def mentions(k, x):
    if k == x:
        return True
    if isinstance(k, V):
        return mentions(k.key(), x)
    return isinstance(k, tuple) and any(mentions(y, x) for y in k)


class FWS(FW):
    def check_pos(self, cells, what):
        if what != "the item":
            FW.check_pos(self, cells, what)


def check_frames(P, limit=60):
    inst = one(P, "FrameDecoder::decode_frames")
    dfr = one(P, "FrameDecoder::decode_frame")
    eng = Engine(P, limit=limit)
    log, clog = [], []
    eng.cuts[dfr] = frame_cut(P, dfr, log)
    for i in P.find("SegmentedArray::new"):
        eng.cuts[i] = seg_new(P, i)
    for i in context_builders(P, inst):
        eng.cuts[i] = context_cut(P, i, clog)
    st = State()
    A = Args(P, eng, st, inst)
    sv = deref(eng, st, A.get("FrameDecoder"))
    E = Env()
    E.frames_len = field(P, sv, "frames_len")
    T, E.err_ty = result_types(P, dfr)
    kT = P.kind(T)
    E.frame_ty = kT[3][[q[0] for q in P.adts[kT[1]]["variants"]].index("Frame")][0]
    body = deref(eng, st, field(P, sv, "body"))
    data = field(P, body, "network_data")
    out = eng.analyse(inst, list(A.args), st)
    E.slots = dict(frames=VecV(("lit", ()), ZERO, E.frame_ty))
    rds = [v for v in log[0][0].cells.values() if isinstance(v, RdrV)] if log else []
    ctx = Ctx(eng, FindReader(rds[0] if rds else None), FWS)
    ctx.on_error = frames_hook
    res = dict(ok=0, err=0, infeasible=0)
    bad, und = [], []
    for s0, lists, rest in log:
        for q, v in lists:
            if v.len != ZERO:
                und.append("the working lists are not known to be empty at the start of a frame")
                break
        # the decoder is used with the same versions as the frame decoder, a large enough buffer, and the whole network data
        r = [v for v in s0.cells.values() if isinstance(v, RdrV)]
        for x in r:
            if x.tot != (data.hi - data.lo).scale(8):
                bad.append((Mismatch("the frames are not decoded from the whole network data"), s0))
    first = [v for v in log[0][0].cells.values() if isinstance(v, Agg) and isinstance(v.name, str) and v.name.endswith("SegmentedArray")] if log else []
    new = None
    for i in P.find("SegmentedArray::new"):
        T = P.insts[i]["body"]["locals"][0]
        if first and P.kind(T)[1] == first[0].name:
            a, m = store_of(first[0])
            new = with_store(first[0], VecV(("snew",), a.len, a.ety), MapV(("snew",)))
    if new is None:
        raise Undecided("the table of actors is not found")
    E.slots["actors"] = new
    for s in out:
        if s.kind == "giveup":
            und.append(s.info)
            continue
        if s.kind != "ret":
            continue
        try:
            for r in check_state(ctx, s, frames_spec(E), ok):
                res[r] += 1
        except Mismatch as e:
            bad.append((e, s))
        except Undecided as e:
            und.append((str(e), None))
    return eng, ctx, out, res, bad, und, log, clog, A


def preconditions(P, eng, log, A, st=None):
    """how the attribute decoder and its buffer are set up: (mismatches, undecided, buffer size)"""
    bad, und, size = [], [], None
    for s0, lists, rest in log:
        fd = [v for v in rest if isinstance(v, Agg) and isinstance(v.name, str) and v.name.endswith("::FrameDecoder")]
        ad = [v for v in rest if isinstance(v, Agg) and isinstance(v.name, str) and v.name.endswith("::AttributeDecoder")]
        bufs = [v for v in rest if isinstance(v, Slice)]
        if len(bufs) == 1:
            n = s0.norm(bufs[0].hi - bufs[0].lo)
            if n.is_const():
                size = n.c if size is None else min(size, n.c)
        if not fd or not ad:
            und.append("the attribute decoder's setup is not recognised")
            continue
        for f in P.adts[ad[0].name]["variants"][0][2]:
            try:
                want = field(P, fd[0], f)
            except Undecided:
                continue
            if field(P, ad[0], f).key() != want.key():
                bad.append("the attribute decoder uses another %s than the replay's" % f)
    return bad, und, size


def check_context(P, eng, clog, A):
    """the context attached to a frame error holds the objects, the attributes known and the frames decoded so far"""
    out = []
    bad, und = [], []
    n = 0
    for inst, st, args in clog:
        s0 = st.copy()
        frames = [v for c, v in s0.cells.items() if isinstance(v, VecV) and etype(P, v) == "Frame"]
        lists = {t: [v for v in s0.cells.values() if isinstance(v, VecV) and etype(P, v) == t] for t in ("NewActor", "UpdatedAttribute")}
        s0.frames = []
        s0.kind = None
        saved = dict(eng.cuts)
        eng.cuts.clear()
        eng.cuts.update({k: v for k, v in saved.items() if k != inst})
        eng.deadline = time.process_time() + 40
        for s in eng.analyse(inst, args, s0):
            if s.kind == "giveup":
                und.append(s.info)
                continue
            if s.kind != "ret":
                continue
            n += 1
            fc = find_adt(s.value, "FrameContext")
            if fc is None:
                und.append("no context in %r" % s.value)
                continue
            for name, want in (("frames", frames), ("new_actors", lists["NewActor"]), ("updated_actors", lists["UpdatedAttribute"])):
                got = field(P, fc, name)
                if not isinstance(got, VecV):
                    und.append("%s of the context" % name)
                elif not any(same_vec(st, got, w) for w in want):
                    bad.append("%s in the context of a frame error is not what was decoded so far" % name)
            sv = deref(eng, s, A.get("FrameDecoder"))
            for name, want in (("objects", field(P, deref(eng, s, field(P, sv, "body")), "objects")),
                               ("object_attributes", field(P, sv, "object_ind_attributes"))):
                got = field(P, fc, name)
                if not isinstance(got, VecV) or not same_vec(st, got, want):
                    bad.append("%s in the context of a frame error is not the replay's" % name)
            try:
                b, u = context_actors(P, eng, s, field(P, fc, "actors"))
            except (GiveUp, KeyError, IndexError, AttributeError, TypeError) as e:
                b, u = [], ["actors of the context: %s %s" % (type(e).__name__, str(e)[:150])]
            bad += b
            und += u
        eng.cuts.clear()
        eng.cuts.update(saved)
    return n, sorted(set(bad)), und


def context_actors(P, eng, s, got):
    """every actor of the table is entered under its own id with its own object"""
    if not isinstance(got, MapV) or got.k[0] != "h":
        return [], ["actors of the context"]
    rec = [e[1] for e in s.events() if e[0] == "loop" and e[1].id == got.k[1]]
    if len(rec) != 1:
        return [], ["actors of the context: %d loops" % len(rec)]
    rec, loc = rec[0], got.k[2]
    bad, und, kinds = [], [], set()
    recs, m = [], got
    while m.k[0] == "h" and len(recs) < 4:
        # a map that one loop leaves and the next goes on with
        r = [e[1] for e in s.events() if e[0] == "loop" and e[1].id == m.k[1]]
        if len(r) != 1:
            return [], ["actors of the context: %d loops" % len(r)]
        recs.append((r[0], m, m.k[2]))
        m = r[0].heads[m.k[2]][0] if m.k[2] in r[0].heads else None
        if not isinstance(m, MapV):
            return [], ["actors of the context: what the map is at first"]
    if m.k != ("empty",):
        return [], ["actors of the context: %s at first" % (m.k[:1],)]
    for x, got, loc in [(x, g, l) for r, g, l in recs for x, _ in r.iters]:
        v = accept.get_loc(x.cells, loc)
        if isinstance(v, MapV) and v.k == got.k:
            continue
        if not isinstance(v, MapV) or v.k[0] != "ins" or v.k[1] != got.k:
            und.append("actors of the context: %s" % (v.k[:1],))
            continue
        key, val = v.k[2], v.k[3]
        while isinstance(key, Agg) and len(key.fields) == 1:
            key = key.fields[0]
        while isinstance(val, Agg) and len(val.fields) == 1:
            val = val.fields[0]
        src = entry_source(val)
        if not isinstance(key, Lin) or src is None:
            und.append("actors of the context: an entry")
            continue
        kinds.add(src[0])
        want = src[2] if isinstance(src[2], Lin) else Lin(0, ((src[2], 1),)) if isinstance(src[2], int) else src[2]
        if not isinstance(want, Lin):
            want = source_lin(want)
        if want is None:
            und.append("actors of the context: key %s" % (src[2],))
        elif x.norm(key - want) == ZERO or x.norm(key - atom(("wrap", 1, 32, x.norm(want)), -(1 << 31), (1 << 31) - 1)) == ZERO:
            pass
        else:
            bad.append("an actor in the context of a frame error is not under its own id")
    if not und and kinds != {"elem", "mapval"}:
        bad.append("actors with %s ids are left out of the context of a frame error" % ("large" if "elem" in kinds else "small"))
    if not und and not bad:
        for r, _, _ in recs:
            b, u = used_up(eng, s, r, "actors of the context")
            bad += b if len(recs) == 1 else []
            und += u + (b if len(recs) > 1 else [])
    return bad, und


def used_up(eng, s, rec, what):
    """every iterator the loop, left in state s, draws from has been used up: at the end of the loop, or when the loop turns to its
    second part for good (a position that starts at one constant and only ever becomes another)"""
    from loops import get
    latch, pos = [], []
    for k, (init, head) in rec.heads.items():
        if len(k) < 2 or not isinstance(head, Lin):
            continue
        try:
            it = get((s.cells if k[0] in s.cells else rec.cells0)[k[0]], k[1:-1])
        except (GiveUp, KeyError, IndexError, AttributeError, TypeError):
            continue
        if isinstance(it, IterV) and it.kind in ("slice", "vec", "mapref", "mapval") and k[-1] == ("it", 1):
            pos.append(k)
        elif isinstance(init, Lin) and not init.t:
            vs = [accept.get_loc(x.cells, k) for x, _ in rec.iters]
            if all(isinstance(v, Lin) and (v == head or not v.t and v != init) for v in vs) and any(v != head for v in vs):
                latch.append((k, init, head))
    if not pos:
        return [], [what + ": nothing it is drawn from"]
    first = {k for k in pos if any(accept.get_loc(x.cells, l[0]) == l[2] and x.ev_cond(c_lt(l[1], l[2])) is not True and
                                   accept.get_loc(x.cells, k) != rec.heads[k][1] for x, _ in rec.iters for l in latch)} if latch else set()
    bad, und = [], []
    for x, left in [(x, False) for x, _ in rec.iters] + [(s, True)]:
        turned = any(x.ev_cond(c_lt(l[1], l[2])) is True for l in latch)
        turns = any(accept.get_loc(x.cells, l[0]) not in (l[2], l[1]) for l in latch)
        for k in pos:
            if not (left and not (k in first and turned)) and not (k in first and turns and not turned):
                continue
            # what went out of scope is as the last test of the loop left it
            it = get((x.cells if k[0] in x.cells else rec.cells0)[k[0]], k[1:-1])
            if not isinstance(it, IterV):
                und.append(what + ": the end")
                continue
            a = it.a
            if it.kind == "slice":
                end = a[0].hi - a[0].lo
            elif it.kind == "vec":
                end = a[0].len
            else:
                m = models.map_at(eng, x, a[0]) if it.kind == "mapref" else a[0]
                if m.k == ("empty",):
                    continue
                end = atom(("maplen", m.k), 0, 1 << 60)
            if x.ev_cond(c_le(end, a[1])) is True:
                continue
            y = x.copy()
            if y.assume(c_lt(a[1], end), True) and accept.feasible(y):
                bad.append(what + ": not all of them")
            else:
                und.append(what + ": the end")
    return bad, und


def entry_source(val):
    """("elem", list, index) or ("mapval", map, key): the entry of the table the value is part of"""
    if not isinstance(val, Lin) or len(val.t) != 1 or val.c:
        return None
    k = ATOMS[val.t[0][0]]
    while isinstance(k, tuple) and k and k[0] in ("s", "f", "fld"):
        k = k[1]
    return k if isinstance(k, tuple) and k and k[0] in ("elem", "mapval") and len(k) >= 3 else None


def source_lin(k):
    for a, q in enumerate(ATOMS):
        if q == k:
            return Lin(0, ((a, 1),))
    return None


def same_vec(st, a, b):
    return isinstance(b, VecV) and st.norm(a.len - b.len) == ZERO and a.k == b.k


def find_adt(v, name):
    if isinstance(v, BoxV):
        return find_adt(v.v, name)
    if isinstance(v, Agg):
        if isinstance(v.name, str) and v.name.endswith("::" + name):
            return v
        for f in v.fields:
            r = find_adt(f, name)
            if r is not None:
                return r
    return None


# ------------------------------------------------------------------ where and how an actor appears
def check_trajectory(P, limit=30):
    inst = one(P, "Trajectory::from_spawn")
    eng = Engine(P, limit=limit)
    st = State()
    A = Args(P, eng, st, inst)
    rp = A.get("LittleEndianReader")
    eng.getcell(st, rp.cell)
    sp, net = A.get("SpawnTrajectory"), A.get("int")
    vs = [v[0] for v in P.adts[P.adt_name("SpawnTrajectory")]["variants"]]
    E = attr_spec.Env(None, None, net, None, None, None)
    ctx = Ctx(eng, rp.cell, FW)
    res = dict(ok=0, err=0, infeasible=0)
    bad, und = [], []
    out = eng.analyse(inst, list(A.args), st)

    def spec(w):
        v, _ = variant_of(w, sp)
        loc = rot = NONE
        if vs[v] in ("Location", "LocationAndRotation"):
            x, y, z = [i32(w, c) for c in attr_spec.vec3i(w, E)]
            loc = some(w.adt("Vector3i", x=x, y=y, z=z))
        if vs[v] == "LocationAndRotation":
            rot = some(attr_spec.rotation(w, E))
        return w.adt("Trajectory", location=loc, rotation=rot)
    for s in out:
        if s.kind == "giveup":
            und.append(s.info)
            continue
        if s.kind != "ret":
            continue
        try:
            for r in check_state(ctx, s, spec, some):
                res[r] += 1
        except Mismatch as e:
            bad.append((e, s))
        except Undecided as e:
            und.append((str(e), None))
    return eng, ctx, out, res, bad, und


# ------------------------------------------------------------------ the actor table is a map
def check_table(P, limit=40):
    """every table of actors or attributes: what get returns after new, insert and delete"""
    n = 0
    bad, und, calls = [], [], set()
    gets = P.find("SegmentedArray::get")
    if not gets:
        raise Undecided("SegmentedArray::get not found")

    def same_table(i, j):
        t = [P.kind(P.kind(P.insts[x]["body"]["locals"][1])[1]) for x in (i, j)]
        return t[0] == t[1]

    for g in gets:
        b = P.insts[g]["body"]
        tref, tkey = b["locals"][1], b["locals"][2]
        tab = P.kind(tref)[1]
        ops = {}
        for o in ("insert", "delete", "remove"):
            for i in P.find("SegmentedArray::" + o):
                if same_table(i, g):
                    ops[o] = i
        for i in P.find("SegmentedArray::new"):
            if P.insts[i]["body"]["locals"][0] == tab or P.kind(P.insts[i]["body"]["locals"][0]) == P.kind(tab):
                ops["new"] = i
        if "insert" not in ops or "new" not in ops:
            und.append("operations on the table %s" % P.insts[g]["name"])
            continue
        for o, inst in sorted(ops.items()):
            for rel in ("same", "less", "more"):
                if o == "new" and rel != "same":
                    continue
                eng = Engine(P, limit=limit)
                if o != "new":
                    eng.free_roots = {("q",), ("a", 1)}
                st = State()
                ib = P.insts[inst]["body"]
                tys = [ib["locals"][j + 1] for j in range(ib["argc"])]
                q = eng.mksym(tkey, ("q",))
                if o == "new":
                    args = [eng.mksym(t, ("a", j)) for j, t in enumerate(tys)]
                else:
                    args = [eng.mksym(t, ("a", j)) for j, t in enumerate(tys)]
                    k = akey(eng, st, args[1])
                    ql = akey(eng, st, q)
                    if not st.assume({"same": c_eq(ql, k), "less": c_lt(ql, k), "more": c_lt(k, ql)}[rel]):
                        continue
                    orig = eng.read(st, args[0])
                    st.cells[("orig",)] = orig
                    st.cells[("new",)] = orig
                    args[0] = Ptr(("new",), ())
                for s in eng.analyse(inst, args, st):
                    if s.kind == "giveup":
                        und.append(s.info)
                        continue
                    if s.kind != "ret":
                        continue
                    if o == "new":
                        s.cells[("new",)] = s.value
                    for s1 in call(eng, s, g, [Ptr(("new",), ()), q], und):
                        r1 = s1.value
                        if o == "new":
                            n += 1
                            if not is_none(r1):
                                bad.append((Mismatch("a new table holds a value"), s1))
                            continue
                        if o == "insert" and rel == "same":
                            n += 1
                            if is_none(r1) or deref(eng, s1, r1.fields[0]).key() != args[2].key():
                                bad.append((Mismatch("after inserting under a key, the key does not hold the value inserted"), s1))
                            continue
                        for s2 in call(eng, s1, g, [Ptr(("orig",), ()), q], und):
                            n += 1
                            r2 = s2.value
                            same = is_none(r1) == is_none(r2) and (is_none(r1) or deref(eng, s2, r1.fields[0]).key() == deref(eng, s2, r2.fields[0]).key())
                            if rel != "same" and not same:
                                bad.append((Mismatch("%s under one key changes what another key holds" % o), s2))
                            if rel == "same" and not is_none(r1) and not same:
                                bad.append((Mismatch("%s leaves another value under the key" % o), s2))
                            if rel == "same" and not is_none(r1):
                                a, _ = store_of(deref(eng, s2, Ptr(("orig",), ())))
                                k2 = s2.norm(k)
                                far = s2.copy()
                                if implied(far, c_le(ZERO, k2)) and implied(far, c_le(a.len, k2)):
                                    bad.append((Mismatch("%s leaves the value of a key beyond the first segment" % o), s2))
                calls |= set(eng.stats["calls"])
    return n, bad, und, calls


def implied(st, c):
    x = st.copy()
    return not x.assume(c, False)


def is_none(v):
    return isinstance(v, Agg) and v.name == OPT and v.variant == 0


def call(eng, s, inst, args, und):
    s = s.copy()
    s.frames = []
    s.kind = None
    eng.deadline = time.process_time() + 40
    out = []
    for x in eng.analyse(inst, args, s):
        if x.kind == "giveup":
            und.append(x.info)
        elif x.kind == "ret":
            out.append(x)
    return out


if __name__ == "__main__" and len(__import__("sys").argv) > 1:
    import sys, collections
    sys.setrecursionlimit(100000)
    P = Prog()
    t = time.time()
    eng, ctx, out, res, bad, und, log, clog, A = check_frames(P)
    print("frames", len(out), res, "bad", len(bad), "und", len(und), "panics", sum(1 for s in out if s.kind == "panic"), "replays",
          ctx.nreplays, "loops", ctx.nloops, "%.1fs" % (time.time() - t))
    for m, n in collections.Counter((e.kind, str(e)[:300]) for e, s in bad).most_common(8):
        print("   ", n, m)
    for u in und[:4]:
        print("    und", str(u)[:300])
    print(preconditions(P, eng, log, A))
    print(str(check_context(P, eng, clog, A))[:1500])
    sys.exit()

if __name__ == "__main__":
    import sys, collections
    sys.setrecursionlimit(100000)
    P = Prog()
    t = time.time()
    eng, ctx, out, res, bad, und = check_frame(P)
    print("frame", len(out), res, "bad", len(bad), "und", len(und), "panics", sum(1 for s in out if s.kind == "panic"), "replays",
          ctx.nreplays, "loops", ctx.nloops, "%.1fs" % (time.time() - t))
    for m, n in collections.Counter((e.kind, str(e)[:300]) for e, s in bad).most_common(8):
        print("   ", n, m)
    for u in und[:4]:
        print("    und", str(u)[:300])
    for m, n in collections.Counter(str(s.info)[:300] for s in out if s.kind == "panic").most_common(5):
        print("    panic", n, m)
    for e, s in bad[:1]:
        print(repr(s.value)[:300])
        w = e.w
        for c, v in w.st.conds.items():
            print("   ", v, cond_str(c)[:200])
        for f in w.st.facts[:40]:
            print("   f", repr(f)[:200])
