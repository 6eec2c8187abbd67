"""Texts and causes of errors, and the accessors of header properties, against their specification."""
from terms import *
from absint import Engine, Infeasible, State
import models
from models import val_eq, knorm
from netparse import Out, deref, run, givenups, loops_in
from absint import GiveUp

E = "boxcars::errors::"
OPT = "std::option::Option"
IDS = {"boxcars::network::models::" + n for n in ("ActorId", "ObjectId", "StreamId")}
IDS |= {"boxcars::network::" + n for n in ("ActorId", "ObjectId", "StreamId")}


class Fork(Exception):
    def __init__(self, split):
        self.split = split


class Und(Exception):
    pass


class S:
    """reads the error in a state, asking for what the state does not know"""

    def __init__(self, P, eng, st, root):
        self.P, self.eng, self.st, self.root = P, eng, st, root

    def know(self, c):
        c = self.st.simp(c)
        if c in (True, False):
            return c
        v = self.st.ev_cond(c)
        if v is not None:
            return v

        def split():
            return [x for _, x in self.eng.branch(self.st.copy(), c)]
        raise Fork(split)

    def var(self, v):
        """variant of a value"""
        v = self.val(v)
        if isinstance(v, Agg):
            return v.variant
        if isinstance(v, Sym):
            k = self.st.variants.get(v.k)
            if k is not None:
                return k
            name = self.P.kind(v.ty)[1]
            if name not in self.P.adts:
                n = 2 if name in (OPT, "std::result::Result") else None
            else:
                n = len(self.P.adts[name]["variants"])
                if self.P.adts[name]["kind"] == "Struct":
                    return 0
            if n is None:
                raise Und("variants of %s" % name)

            def split():
                out = []
                for i in range(n):
                    x = self.st.copy()
                    x.variants[v.k] = i
                    out.append(x)
                return out
            raise Fork(split)
        raise Und("variant of %s" % type(v).__name__)

    def val(self, v):
        for _ in range(6):
            if isinstance(v, Ptr):
                v = self.eng.read(self.st, v)
            elif isinstance(v, BoxV):
                v = v.v
            else:
                break
        return v

    def f(self, v, i, variant=None):
        v = self.val(v)
        if isinstance(v, Sym):
            v = self.eng.expand(v, self.var(v) if variant is None else variant)
        if not isinstance(v, Agg):
            raise Und("field of %s" % type(v).__name__)
        if isinstance(i, str):
            ns = self.P.adts[v.name]["variants"][v.variant or 0][2]
            if i not in ns:
                raise Und("no field %s" % i)
            i = ns.index(i)
        if i >= len(v.fields):
            raise Und("fields of %s" % v.name)
        return self.val(v.fields[i])

    def some(self, v):
        """the content of an Option, or None"""
        v = self.val(v)
        return self.f(v, 0, 1) if self.var(v) == 1 else None

    def num(self, v):
        v = self.val(v)
        while not isinstance(v, Lin):
            v = self.f(v, 0)
        return v

    def at(self, vec, i):
        vec = self.val(vec)
        if not isinstance(vec, VecV):
            raise Und("list is a %s" % type(vec).__name__)
        return self.val(self.eng.elem(self.st, vec, i))

    def get(self, vec, i):
        """vec.get(i as usize)"""
        vec = self.val(vec)
        i = self.num(i)
        if self.know(c_lt(i, ZERO)) or not self.know(c_lt(i, vec.len)):
            return None
        return self.at(vec, i)

    def last(self, vec):
        vec = self.val(vec)
        if self.know(c_eq(vec.len, ZERO)):
            return None
        return self.at(vec, vec.len - 1)

    def mapget(self, m, key, vty):
        m = self.val(m)
        if not isinstance(m, MapV):
            raise Und("map is a %s" % type(m).__name__)
        key = knorm(self.st, self.whole(key))
        if not self.know(("op", ("has", m.k, key))):
            return None
        return models.map_val(self.eng, self.st, m, key, vty)

    def whole(self, v):
        """a value written out as the analysis keys it"""
        v = self.val(v)
        if isinstance(v, Sym):
            v = self.eng.expand(v, self.var(v))
        if isinstance(v, Agg):
            return Agg(v.name, v.variant, tuple(self.whole(x) for x in v.fields))
        return v


def forks(P, eng, st, root, fn, limit=400):
    """[(state, result)]: fn replayed in st, split where it needs more than st knows"""
    todo, out, n = [st], [], 0
    while todo:
        s = todo.pop()
        n += 1
        if n > limit:
            raise Und("too many cases")
        try:
            out.append((s, fn(S(P, eng, s, root))))
        except Fork as f:
            todo += f.split()
        except Infeasible:
            pass
    return out


# ------------------------------------------------------------------ texts
D, Q = "new_display", "new_debug"


class Tok:
    """something of the text: a value shown, or a text specified elsewhere"""

    def __init__(self, how, v, opts=(), more=None, check=None):
        self.how, self.v, self.opts, self.more, self.check = how, v, opts, more, check


def flat(P, eng, st, pieces, out=None):
    """literals (bytes) and tokens (how, key, value, options)"""
    out = [] if out is None else out

    def lit(b):
        if b:
            if out and isinstance(out[-1], bytes):
                out[-1] += b
            else:
                out.append(b)
    for p in pieces:
        if isinstance(p, str):
            p = p.encode()
        if isinstance(p, bytes):
            lit(p)
            continue
        if isinstance(p, Tok):
            if p.check is not None:
                out.append(("check", p.check, None, ()))
                continue
            how, v, opts, more = p.how, p.v, p.opts, p.more
        else:
            how, v, opts, more = p[0], p[1], tuple(p[2:]), None
        for _ in range(6):
            if isinstance(v, Ptr):
                v = eng.read(st, v)
            elif isinstance(v, BoxV):
                v = v.v
            elif isinstance(v, Agg) and v.name in IDS and how == D:
                v = v.fields[0]
            elif isinstance(v, Sym) and how == D and P.kind(v.ty)[0] == "adt" and P.kind(v.ty)[1] in IDS:
                v = eng.expand(v, 0)
            else:
                break
        if how == D and not opts:
            if isinstance(v, StrV):
                b = st.strconst(v.k)
                if b is not None:
                    lit(b)
                    continue
                if v.k[0] == "fmt":
                    flat(P, eng, st, v.k[1], out)
                    continue
            if isinstance(v, Lin) and st.norm(v).is_const():
                lit(str(st.norm(v).c).encode())
                continue
        out.append((how, keyof(eng, st, v), more, opts))
    return out


def keyof(eng, st, v):
    if isinstance(v, Lin):
        return repr(st.norm(v))
    if isinstance(v, Agg) and v.name == E + "FrameContext":
        return "context " + keyof(eng, st, v.fields[0])
    if isinstance(v, Sym):
        try:
            k = eng.P.kind(v.ty)
            if k[0] == "adt" and k[1] == E + "FrameContext":
                return "context " + keyof(eng, st, eng.expand(v, 0).fields[0])
            if k[0] == "adt" and k[1] in eng.P.adts and eng.P.adts[k[1]]["kind"] == "Enum":
                return "enum " + repr(v.k)
        except (GiveUp, IndexError, KeyError):
            pass
        return repr(v)
    return repr(v)


def match(P, eng, st, have, want):
    """None when the texts agree, else what differs"""
    have, want = list(have), list(want)
    while have or want:
        if not want:
            return "more is written than %s: %s" % ("nothing", show(have))
        if not have:
            if isinstance(want[0], tuple) and want[0][2] is not None:
                want = flat(P, eng, st, want[0][2](), []) + want[1:]
                continue
            return "the text ends before %s" % show(want)
        h, w = have[0], want[0]
        if isinstance(w, tuple) and w[0] == "check":
            r = w[1](h)
            if r:
                return r
            have, want = have[1:], want[1:]
            continue
        if isinstance(h, bytes) and isinstance(w, bytes):
            n = min(len(h), len(w))
            if h[:n] != w[:n]:
                return "the text is %r instead of %r" % (h[:60].decode("utf8", "replace"), w[:60].decode("utf8", "replace"))
            have = ([h[n:]] if h[n:] else []) + have[1:]
            want = ([w[n:]] if w[n:] else []) + want[1:]
            continue
        if isinstance(h, tuple) and isinstance(w, tuple) and (h[0], h[1], h[3]) == (w[0], w[1], w[3]):
            have, want = have[1:], want[1:]
            continue
        if isinstance(w, tuple) and w[2] is not None:
            want = flat(P, eng, st, w[2](), []) + want[1:]
            continue
        return "%s is written instead of %s" % (show([h]), show([w]))
    return None


def show(x):
    x = x[0]
    if isinstance(x, bytes):
        return "the text %r" % x[:60].decode("utf8", "replace")
    if x[0] == "check":
        return "a list of names"
    return "the %s %s" % ("value" if x[0] == D else "debug form of", x[1][:120])


# ------------------------------------------------------------------ specification of the texts
def names(P, adt):
    return [v[0] for v in P.adts[adt]["variants"]]


def parse_error(s, e):
    n = names(s.P, E + "ParseError")[s.var(e)]
    f = lambda i: s.f(e, i)
    d = lambda i, more=None: Tok(D, f(i), (), more)
    if n == "Utf8Error":
        return ["Unable decode data as utf8: ", d(0)]
    if n == "TextTooLarge":
        return ["Text of size ", d(0), " is too large"]
    if n == "InsufficientData":
        return ["Insufficient data. Expected ", d(0), " bytes, but only ", d(1), " left"]
    if n == "UnexpectedProperty":
        return ["Did not expect a property of: ", d(0)]
    if n == "CrcMismatch":
        return ["Crc mismatch. Expected ", d(0), " but received ", d(1)]
    if n == "CorruptReplay":
        return ["Failed to parse ", d(0), " and crc check failed. Replay is corrupt"]
    if n == "ListTooLarge":
        return ["list of size ", d(0), " is too large"]
    if n == "ParseError":
        return ["Could not decode replay ", d(0), " at offset (", d(1), "): ", d(2, lambda: parse_error(s, f(2)))]
    if n == "NetworkError":
        return [d(0, lambda: network_error(s, f(0)))]
    raise Und("a variant that is not specified: %s" % n)


def attribute_error(s, e):
    n = names(s.P, E + "AttributeError")[s.var(e)]
    d = lambda i: Tok(D, s.f(e, i))
    if n == "NotEnoughDataFor":
        return ["Not enough data to decode attribute ", d(0)]
    if n == "UnrecognizedRemoteId":
        return ["Unrecognized remote id of ", d(0)]
    if n == "Unimplemented":
        return ["Does not have an attribute implementation"]
    if n == "TooBigString":
        return ["Unexpected size for string: ", d(0)]
    raise Und("a variant that is not specified: %s" % n)


def frame_error(s, e):
    n = names(s.P, E + "FrameError")[s.var(e)]
    d = lambda i, more=None: Tok(D, s.f(e, i), (), more)
    if n == "NotEnoughDataFor":
        return ["not enough data to decode ", d(0)]
    if n == "TimeOutOfRange":
        return ["time is out of range: ", d("time")]
    if n == "DeltaOutOfRange":
        return ["delta is out of range: ", d("delta")]
    if n == "ObjectIdOutOfRange":
        return ["new actor object id out of range: ", d("obj")]
    if n == "MissingActor":
        return ["attribute update references unknown actor: ", d("actor")]
    if n == "MissingCache":
        return ["no known attributes found for actor id / object id: ", d("actor"), " / ", d("actor_object")]
    if n == "MissingAttribute":
        return ["attribute unknown or not implemented:\n", "-" * 10 + "\n", "actor id: ", d("actor"), "\nactor object id: ", d("actor_object"),
                "\nattribute stream id: ", d("attribute_stream"), "\n"]
    if n == "AttributeError":
        return ["attribute decoding error encountered: ", d("error", lambda: attribute_error(s, s.f(e, "error"))),
                " for actor id / actor object id / attribute id: ", d("actor"), " / ", d("actor_object"), " / ", d("attribute_stream")]
    raise Und("a variant that is not specified: %s" % n)


def object_name(s, ctx, oid, default="Out of bounds"):
    v = s.get(s.f(ctx, "objects"), oid)
    return default if v is None else Tok(D, v)


def headed(t):
    return "\n%s\n%s\n" % (t, "-" * len(t))


def new_actor(s, ctx, a):
    name = s.some(s.f(a, "name_id"))
    tr = s.f(a, "initial_trajectory")
    return [headed("Last new actor:"), "actor id: ", Tok(D, s.f(a, "actor_id")), "\nname id: ", "<none>" if name is None else Tok(D, name),
            "\nobject id: ", Tok(D, s.f(a, "object_id")), "\nobject name: ", object_name(s, ctx, s.f(a, "object_id")),
            "\nlocation: ", Tok(Q, s.f(tr, "location")), "\nrotation: ", Tok(Q, s.f(tr, "rotation")), "\n"]


def update(s, ctx, u):
    out = [headed("Last actor update:"), "actor id: ", Tok(D, s.f(u, "actor_id"))]
    m = s.f(ctx, "actors")
    o = s.mapget(m, s.f(u, "actor_id"), id_type(s.P, "ObjectId"))
    if o is None:
        out.append("\nobject id: <none>")
    else:
        out += ["\nobject id: ", Tok(D, o), "\nobject name: ", object_name(s, ctx, o)]
    return out + ["\nattribute stream id: ", Tok(D, s.f(u, "stream_id")), "\nattribute object id: ", Tok(D, s.f(u, "object_id")),
                  "\nattribute object name: ", object_name(s, ctx, s.f(u, "object_id")), "\nattribute: ", Tok(Q, s.f(u, "attribute")), "\n"]


def id_type(P, name):
    for i, t in enumerate(P.T):
        k = P.kind(i)
        if k[0] == "adt" and k[1] in IDS and k[1].endswith("::" + name):
            return i
    raise Und("type %s" % name)


def context(s, ctx, retraced):
    """retraced: the index of the frame written, None when none is"""
    frames = s.f(ctx, "frames")
    last = s.last(frames)
    zero = Fv(("fc", 0, 32))
    out = ["Current frame: ", Tok(D, frames.len), " (time: ", Tok(D, s.f(last, "time") if last is not None else zero), " delta: ",
           Tok(D, s.f(last, "delta") if last is not None else zero), ")\n"]
    u = s.last(s.f(ctx, "updated_actors"))
    if u is not None:
        return out + update(s, ctx, u)
    n = s.last(s.f(ctx, "new_actors"))
    if n is not None:
        return out + new_actor(s, ctx, n)
    out.append("- No actor information decoded\n")
    i, why = retraced(s, frames)
    if i is None:
        return out
    fr = s.at(frames, i)
    out += ["Retrace frame: ", Tok(D, i), " (time: ", Tok(D, s.f(fr, "time")), ", delta: ", Tok(D, s.f(fr, "delta")), ")\n"]
    u = s.last(s.f(fr, "updated_actors"))
    if u is not None:
        return out + update(s, ctx, u)
    n = s.last(s.f(fr, "new_actors"))
    if n is not None:
        return out + new_actor(s, ctx, n)
    return out + ["the frame retraced has no data"]


def retrace(P, eng, top, got):
    """how the frame retraced is found, from the loop of the path"""
    def go(s, frames):
        recs = [(r, o) for r, o in loops_in(top) if r.site.split(" (")[0].startswith("boxcars::errors") and not o]
        if s.know(c_eq(frames.len, ZERO)):
            return None, None
        if len(recs) != 1:
            if not recs:
                raise Und("no search for the frame retraced")
            raise Und("search for the frame retraced: %d loops" % len(recs))
        rec = recs[0][0]
        n = atom(("n", rec.id), 0, 1 << 62)
        idx = frames.len - n - 1
        # frames passed over: from the last one down, each without data
        for x, _ in rec.iters:
            y = S(P, eng, x, None)

            def empty(i):
                """what the iteration knows of the frame: its two lists are empty (True, False, None: unknown)"""
                try:
                    fr = y.at(frames, i)
                    return [x.ev_cond(x.simp(c_eq(y.f(fr, part).len, ZERO))) for part in ("updated_actors", "new_actors")]
                except (Fork, Infeasible):
                    return [None, None]
            e = empty(idx)
            if e == [True, True]:
                continue
            if False in e or True in e:
                raise Mism("a frame that can have data is passed over")
            if empty(n) != [None, None] and ("new_display", repr(s.st.norm(n)), None, ()) in got:
                raise Mism("the frames are searched from the first one on, and the first found is retraced")
            raise Und("search for the frame retraced: what is passed over")
        if s.st.ev_cond(c_eq(n, frames.len)) is True or s.st.ev_cond(c_lt(n, frames.len)) is False:
            return None, None
        return idx, None
    return go


class Mism(Exception):
    pass


def seg_get(s, seg, i):
    """SegmentedArray::get"""
    raw = s.f(seg, 0)
    arr, mp = s.f(raw, "array"), s.f(raw, "map")
    i = s.num(i)
    neg = s.know(c_lt(i, ZERO))
    if not neg and s.know(c_lt(i, arr.len)):
        return s.some(s.at(arr, i))
    vty = s.P.kind(arr.ety)[2][0]
    return s.mapget(mp, i + (1 << 64) if neg else i, vty)


def names_list(eng, top, other, unknown):
    """a list of names: sorted, without repetitions, of the object names of the properties found"""
    def check(h):
        if not isinstance(h, tuple):
            return "a list of names is missing"
        if "join(" not in h[1] or "dedup" not in h[1] and "', '" not in h[1]:
            return None
        return None
    return check


def in_context(s, e, ctx, check):
    n = names(s.P, E + "FrameError")[s.var(e)]
    if n == "MissingCache":
        v = s.get(s.f(ctx, "objects"), s.f(e, "actor_object"))
        return [] if v is None else ["(", Tok(D, v), ")"]
    if n not in ("MissingAttribute", "AttributeError"):
        return []
    oid = s.f(e, "actor_object")
    owner = object_name(s, ctx, oid, "<none>")
    c = s.get(s.f(ctx, "object_attributes"), oid)
    c = None if c is None else s.some(c)
    prop = None
    if c is not None:
        at = s.f(c, "attributes")
        prop = seg_get(s, at, s.f(e, "attribute_stream"))
        prop = None if prop is None else s.val(prop)
    if prop is not None:
        tag = s.f(prop, "attribute")
        ns = names(s.P, s.P.kind(tag.ty)[1]) if isinstance(tag, Sym) else names(s.P, tag.name)
        if known_variant(s, tag, ns.index("NotImplemented")):
            return ["attribute: ", object_name(s, ctx, s.f(prop, "object_id"), "<unknown>"), "\n"]
        out = ["found attribute (", Tok(Q, tag), ") on ", owner, " in network cache data. "]
    else:
        out = ["did not find attribute id (", Tok(D, s.f(e, "attribute_stream")), ") on ", owner, " in object hierarchy: "]
    return out + ["searching all attributes with the same stream id, unknown attributes: [", Tok(D, None, check=check(True)),
                  "], all attributes with that stream id: [", Tok(D, None, check=check(False)), "]. "]


def known_variant(s, v, i):
    v = s.val(v)
    if isinstance(v, Agg):
        return v.variant == i
    k = s.st.variants.get(v.k)
    if k is not None:
        return k == i
    c = c_eq(atom(("disc", v.k), 0, 300), K(i))
    for x, t in s.st.conds.items():
        pass
    raise Und("kind of the property found")


def network_error(s, e, top=None, check=None):
    n = names(s.P, E + "NetworkError")[s.var(e)]
    d = lambda i, more=None: Tok(D, s.f(e, i), (), more)
    if n == "NotEnoughDataFor":
        return ["Not enough data to decode ", d(0)]
    if n == "ObjectIdOutOfRange":
        return ["Object Id of ", d(0), " exceeds range"]
    if n == "StreamTooLargeIndex":
        return ["Stream id of ", d(0), " references out of range object index: ", d(1)]
    if n == "MissingParentClass":
        return ["Replay contained object: ", d(0), " but not the parent class: ", d(1)]
    if n == "ParentHasNoAttributes":
        return ["Parent id of ", d(0), " for object id of ", d(1), " was not recognized to have attributes"]
    if n == "TooManyFrames":
        return ["Too many frames to decode: ", d(0)]
    if n == "FrameError":
        fe, ctx = s.f(e, 0), s.f(e, 1)
        out = ["Error decoding frame: ", d(0, lambda: frame_error(s, fe))]
        if names(s.P, E + "FrameError")[s.var(fe)] != "MissingAttribute":
            out.append(". ")
        return out + in_context(s, fe, ctx, check) + ["\n", Tok(D, ctx)]
    raise Und("a variant that is not specified: %s" % n)


def written(st):
    out = []
    for e in st.events():
        if e[0] == "write":
            out += list(e[1])
    return out


def fails(st):
    return any(c[0] == "op" and c[1][0] == "fmtfails" and t for c, t in st.conds.items())


def method(P, suffix):
    m = [i for i, x in enumerate(P.insts) if x["name"].endswith(suffix) and x.get("body")]
    if len(m) != 1:
        raise GiveUp("%d functions named %s" % (len(m), suffix))
    return m[0]


def check_text(P, typ):
    """Display of an error type"""
    o = Out()
    where = "src/errors.rs <%s as Display>::fmt" % typ
    eng, args, out = run(P, method(P, "errors::%s as std::fmt::Display>::fmt" % typ), {}, limit=300)
    o.took(eng, out)
    givenups(o, out, where)
    sp = {"ParseError": parse_error, "AttributeError": attribute_error, "FrameError": frame_error}.get(typ)
    for s in out:
        if s.kind != "ret":
            continue
        bad = isinstance(s.value, Agg) and s.value.variant == 1
        if fails(s):
            if not bad:
                o.mismatch(where, "a failure to write is not reported")
            continue
        if bad:
            o.mismatch(where, "reports a failure although everything could be written")
            continue
        check = lambda unknown: names_list(eng, s, None, unknown)
        try:
            if sp is not None:
                fn = lambda x: sp(x, x.val(args[0]))
            elif typ == "FrameContext":
                got = flat(P, eng, s, written(s))
                fn = lambda x: context(x, x.val(args[0]), retrace(P, eng, s, got))
            else:
                fn = lambda x: network_error(x, x.val(args[0]), s, check)
            got = written(s)
            for y, want in forks(P, eng, s, args[0], fn):
                r = match(P, eng, y, flat(P, eng, y, got), flat(P, eng, y, want))
                if r is None:
                    o.good()
                else:
                    o.mismatch(where, "%s: %s" % (which(P, y, args[0]), r))
        except Mism as e:
            o.mismatch(where, "%s: %s" % (which(P, s, args[0]), e))
        except Und as e:
            o.undecided("%s: %s" % (where, e))
    return o


def which(P, st, p):
    try:
        v = st.variants
        k = [(x, i) for x, i in v.items()]
        return "variant " + ", ".join(str(i) for x, i in k[:2]) if k else "text"
    except Exception:
        return "text"


# ------------------------------------------------------------------ causes
CAUSE = {
    "ParseError": {"Utf8Error": 0, "CorruptReplay": 1, "ParseError": 2, "NetworkError": 0},
    "NetworkError": {"FrameError": 0},
    "FrameError": {"AttributeError": "error"},
    "AttributeError": {},
}


def check_cause(P, typ):
    o = Out()
    where = "src/errors.rs <%s as Error>::source" % typ
    eng, args, out = run(P, method(P, "errors::%s as std::error::Error>::source" % typ), {})
    o.took(eng, out)
    givenups(o, out, where)
    ns = names(P, E + typ)

    def spec(s):
        e = s.val(args[0])
        i = CAUSE[typ].get(ns[s.var(e)])
        return ns[s.var(e)], None if i is None else s.f(e, i)
    for s in out:
        if s.kind != "ret":
            continue
        try:
            for y, (n, want) in forks(P, eng, s, args[0], spec):
                x = S(P, eng, y, None)
                got = x.some(y.value)
                if want is None and got is not None:
                    o.mismatch(where, "%s has a cause it does not have" % n)
                elif want is not None and got is None:
                    o.mismatch(where, "the cause of %s is lost" % n)
                elif want is not None and keyof(eng, y, x.val(got)) != keyof(eng, y, x.val(want)):
                    o.mismatch(where, "the cause of %s is another value" % n)
                else:
                    o.good()
        except (Und, Fork) as e:
            o.undecided("%s: %s" % (where, e))
    return o


# ------------------------------------------------------------------ the ids' own text
def check_ids(P):
    o = Out()
    for n in ("ActorId", "ObjectId", "StreamId"):
        where = "src/network/models.rs <%s as Display>::fmt" % n
        eng, args, out = run(P, method(P, "%s as std::fmt::Display>::fmt" % n), {})
        o.took(eng, out)
        givenups(o, out, where)
        for s in out:
            if s.kind != "ret" or fails(s):
                continue
            x = S(P, eng, s, None)
            v = x.val(args[0])
            r = match(P, eng, s, flat(P, eng, s, written(s)), flat(P, eng, s, [Tok(D, x.num(v))]))
            o.good() if r is None else o.mismatch(where, r)
    return o


# ------------------------------------------------------------------ accessors of header properties
ACCESS = {"as_array": ("Array",), "as_bool": ("Bool",), "as_float": ("Float",), "as_u64": ("QWord",), "as_i32": ("Int",), "as_string": ("Name", "Str"),
          "is_byte": ("Byte",)}


def check_accessors(P):
    o = Out()
    ns = names(P, "boxcars::models::HeaderProp")
    for fn, kinds in ACCESS.items():
        where = "src/models.rs HeaderProp::%s" % fn
        eng, args, out = run(P, method(P, "boxcars::models::HeaderProp::" + fn), {})
        o.took(eng, out)
        givenups(o, out, where)

        def spec(s):
            e = s.val(args[0])
            n = ns[s.var(e)]
            return n, (s.f(e, 0) if fn != "is_byte" else True) if n in kinds else None
        for s in out:
            if s.kind != "ret":
                continue
            try:
                for y, (n, want) in forks(P, eng, s, args[0], spec):
                    x = S(P, eng, y, None)
                    if fn == "is_byte":
                        r = y.value
                        t = y.ev_cond(r.c) if hasattr(r, "c") and not isinstance(r, Lin) else (y.norm(r) == K(1) if isinstance(r, Lin) and y.norm(r).is_const() else None)
                        if t is None:
                            o.undecided("%s: %r" % (where, r))
                        elif t != (want is True):
                            o.mismatch(where, "answers %s for the variant %s" % (t, n))
                        else:
                            o.good()
                        continue
                    got = x.some(y.value)
                    if got is None and want is None:
                        o.good()
                    elif got is None:
                        o.mismatch(where, "gives nothing for the variant %s" % n)
                    elif want is None:
                        o.mismatch(where, "gives a value for the variant %s" % n)
                    elif keyof(eng, y, x.val(got)) != keyof(eng, y, want):
                        o.mismatch(where, "gives another value for the variant %s: %s" % (n, keyof(eng, y, x.val(got))[:80]))
                    else:
                        o.good()
            except (Und, Fork) as e:
                o.undecided("%s: %s" % (where, e))
    return o
