"""What the Serialize and Deserialize implementations write and read, for every value of every type.

The implementations (derived or written by hand) are generic functions; they are analysed as they are, with the serializer, the deserializer and the
accesses of serde replaced by what they are: a recorder of calls, and a player of the calls recorded.  Values of other types are opaque: each type is looked at on its own.
"""
import re
from terms import *
from absint import Engine, State, GiveUp, Infeasible
from netparse import Out, deref
from models import knorm
from prog import strip

OPT, RES = "std::option::Option", "std::result::Result"
ACC = "serde-access"
UNITV = Agg("()", 0, ())


class Und(Exception):
    pass


class Bad(Exception):
    pass


def ok(v):
    return Agg(RES, 0, (v,))


def err(what):
    return Agg(RES, 1, (Agg("serde-error", 0, (StrV(("c", what.encode())),)),))


def some(v):
    return Agg(OPT, 1, (v,))


NONE = Agg(OPT, 0, ())


def const_text(v):
    if isinstance(v, Ptr) and v.cell[0] == "const":
        v = v.cell[1]
    if isinstance(v, StrV) and v.k[0] == "c":
        b = v.k[1]
        return b.decode() if isinstance(b, bytes) else b
    raise Und("a name that is not a constant: %s" % type(v).__name__)


class Split(Exception):
    """a function that reads has several results: they depend on the value that was written"""

    def __init__(self, out):
        Exception.__init__(self, "split")
        self.out = out


class Serde:
    def __init__(self, P):
        self.P = P
        self.strip = Engine(P).stripped
        self.ser, self.de, self.vis, self.byname = {}, {}, {}, {}
        dup = {}
        for x in P.d["generics"]:
            dup[x["name"]] = dup.get(x["name"], 0) + 1
        for x in P.d["generics"]:
            n, b = x["name"], x["body"]
            i = len(P.insts)
            P.insts.append(dict(name=n, **{"def": n}, body=b, args=[], local=True, span=x.get("span")))
            if dup[n] == 1:
                self.byname[n] = i
            L = b["locals"]
            if re.search(r"serde::(ser::)?Serialize(>| for .*>)::serialize$", n) and P.kind(L[1])[0] == "ref":
                self.ser[P.kind(L[1])[1]] = i
            elif re.search(r"serde::(de::)?Deserialize<[^<>]*>(>| for .*>)::deserialize$", n):
                k = P.kind(L[0])
                if k[0] == "adt" and k[1] == RES:
                    self.de[k[2][0]] = i
            elif "serde::de::Visitor" in n and b["argc"] >= 1:
                self.vis[(L[1], n.rsplit("::", 1)[1])] = i
        # generic functions and closures of the crate are entered by name
        for t in P.T:
            k = t["k"]
            if k[0] == "closure" and len(k) > 2 and k[2] is None and k[1] in self.byname:
                k[2] = self.byname[k[1]]
            elif k[0] == "fndef" and k[3] is None and k[1] in self.byname:
                k[3] = self.byname[k[1]]

    def adts(self, what):
        """types of the crate with an implementation, those of the crate's own interface first"""
        out = []
        public = {"boxcars::" + x[0] for x in self.P.d["vis"] if x[2] and x[1] in ("Struct", "Enum")}
        for t in what:
            k = self.P.kind(t)
            if k[0] == "adt" and k[1] in public:
                out.append(t)
        return sorted(out, key=self.P.tname)


# ------------------------------------------------------------------ writing
def item_type(P, t):
    """what an iterator made by map gives, or None"""
    k = P.kind(t)
    if k[0] == "adt" and k[1].endswith("::Map"):
        for x in k[2]:
            c = P.kind(x)
            if c[0] == "closure" and c[2] is not None and P.insts[c[2]].get("body"):
                return P.insts[c[2]]["body"]["locals"][0]
    return None


def _collected(entry, t=None, P=None):
    import models
    kt = P.kind(t)[1] if t is not None and P.kind(t)[0] == "tuple" else (None, None)
    from models import body, mv, L, RET, NEXT

    def one(eng, st, a):
        v = eng.proj(st, a[0], ("f", 0))
        rd = lambda x: deref(eng, st, x)
        if entry:
            v = rd(v)
            st.emit("ser", "key", None, kt[0], rd(v.fields[0]))
            st.emit("ser", "value", None, kt[1], rd(v.fields[1]))
        else:
            st.emit("ser", "elem", None, t, rd(v))
        return UNITV

    def end(eng, st, a):
        st.emit("ser", "end")
        return ok(UNITV)
    return body(1, 5, [
        ([], ["goto", 1]),
        ([], ["icall", NEXT, [mv(1)], L(2), 2]),
        ([], ["match", L(2), {0: 4, 1: 3}]),
        ([], ["py", one, [mv(2)], L(3), 1]),
        ([], ["py", end, [], L(0), 5]),
        ([], RET)])


COLLECT_MAP, COLLECT_SEQ = _collected(True), _collected(False)


def state_of(op):
    return Agg("serde-ser", 0, (StrV(("c", op.encode())),))


def ser_cuts():
    cuts = {}

    def add(path, f):
        for root in ("boxcars::serde::", "serde::", "serde_core::"):
            cuts[root + path] = f

    def rd(eng, st, p):
        return eng.read(st, p) if isinstance(p, Ptr) else p

    def begin(op, *names):
        def f(eng, st, c, args):
            st.emit("ser", op, *[a if isinstance(a, (Lin, Agg)) else const_text(a) for a in args[1:]])
            return ok(state_of(op))
        return f

    def field(op, keyed):
        def f(eng, st, c, args):
            t = c.targs[1] if len(c.targs) > 1 else None
            key = const_text(args[1]) if keyed else None
            st.emit("ser", op, key, t, rd(eng, st, args[-1]))
            return ok(UNITV)
        return f

    def end(eng, st, c, args):
        st.emit("ser", "end")
        return ok(UNITV)

    for nm in ("serialize_struct", "serialize_tuple_struct", "serialize_tuple_variant", "serialize_struct_variant", "serialize_seq", "serialize_map", "serialize_tuple"):
        add("Serializer::" + nm, begin(nm[len("serialize_"):]))
    for tr, keyed in (("SerializeStruct", True), ("SerializeStructVariant", True), ("SerializeTupleStruct", False), ("SerializeTupleVariant", False)):
        add("ser::%s::serialize_field" % tr, field("field", keyed))
        add("ser::%s::end" % tr, end)

        def skip(eng, st, c, args):
            st.emit("ser", "skip", const_text(args[1]))
            return ok(UNITV)
        add("ser::%s::skip_field" % tr, skip)
    for tr in ("SerializeSeq", "SerializeTuple"):
        add("ser::%s::serialize_element" % tr, field("elem", False))
        add("ser::%s::end" % tr, end)
    add("ser::SerializeMap::serialize_key", field("key", False))
    add("ser::SerializeMap::serialize_value", field("value", False))
    add("ser::SerializeMap::end", end)

    def entry(eng, st, c, args):
        st.emit("ser", "key", None, c.targs[1], rd(eng, st, args[1]))
        st.emit("ser", "value", None, c.targs[2], rd(eng, st, args[2]))
        return ok(UNITV)
    add("ser::SerializeMap::serialize_entry", entry)

    def newtype(eng, st, c, args):
        st.emit("ser", "newtype", const_text(args[1]), c.targs[1], rd(eng, st, args[2]))
        return ok(UNITV)
    add("Serializer::serialize_newtype_struct", newtype)

    def unit_variant(eng, st, c, args):
        st.emit("ser", "unit_variant", const_text(args[1]), args[2], const_text(args[3]))
        return ok(UNITV)
    add("Serializer::serialize_unit_variant", unit_variant)

    def newtype_variant(eng, st, c, args):
        st.emit("ser", "newtype_variant", const_text(args[1]), args[2], const_text(args[3]), c.targs[1], rd(eng, st, args[4]))
        return ok(UNITV)
    add("Serializer::serialize_newtype_variant", newtype_variant)

    def collect_str(eng, st, c, args):
        st.emit("ser", "text", c.targs[1], rd(eng, st, args[1]))
        return ok(UNITV)
    add("Serializer::collect_str", collect_str)

    def prim(nm):
        def f(eng, st, c, args):
            st.emit("ser", "prim", nm, args[1])
            return ok(UNITV)
        return f
    for nm in ("bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "str", "bytes"):
        add("Serializer::serialize_" + nm, prim(nm))

    def nothing(nm):
        def f(eng, st, c, args):
            st.emit("ser", nm)
            return ok(UNITV)
        return f
    add("Serializer::serialize_none", nothing("null"))
    add("Serializer::serialize_unit", nothing("null"))
    add("Serializer::serialize_unit_struct", nothing("null"))

    def value(eng, st, c, args):
        st.emit("ser", "same", c.targs[1] if len(c.targs) > 1 else None, rd(eng, st, args[1]))
        return ok(UNITV)
    add("Serializer::serialize_some", value)

    def again(eng, st, c, args):
        # <T as Serialize>::serialize(&v, serializer)
        st.emit("ser", "same", c.targs[0], rd(eng, st, args[0]))
        return ok(UNITV)
    add("Serialize::serialize", again)
    add("ser::Serialize::serialize", again)

    def branch(eng, st, c, args):
        v = args[0]
        if isinstance(v, Agg) and v.name == RES:
            return Agg("std::ops::ControlFlow", v.variant, (v.fields[0] if v.variant == 0 else v,))
        raise GiveUp("? of %s" % type(v).__name__)

    def residual(eng, st, c, args):
        v = args[0]
        if isinstance(v, Agg) and v.name == RES and v.variant == 1:
            return v
        raise GiveUp("residual")
    for nm, b in (("collect_map", COLLECT_MAP), ("collect_seq", COLLECT_SEQ)):
        def collect(eng, st, c, args, nm=nm, b=b):
            import models
            st.emit("ser", nm[8:], NONE)
            t = item_type(eng.P, c.targs[-1])
            if t is not None:
                b = _collected(nm == "collect_map", t, eng.P)
            it = args[1]
            if not isinstance(it, IterV):
                it = models.into_iter(eng, st, c, [it])
                if isinstance(it, (list, tuple)) or it is NotImplemented:
                    raise GiveUp("collects something else")
            return ("push", b, [models.cell_of(eng, st, it)], nm)
        add("Serializer::" + nm, collect)
    def is_some(eng, st, c, args):
        v = deref(eng, st, args[0])
        yes = 1 if eng.stripped(c.raw).endswith("is_some") else 0
        return [(s, bv(var == yes)) for var, s, _ in eng.variants_of(st, v)]
    cuts["std::option::Option::is_some"] = is_some
    cuts["std::option::Option::is_none"] = is_some

    def default(eng, st, c, args):
        P = eng.P
        t = c.targs[0]
        k = P.kind(t)
        if k[0] == "int":
            return ZERO
        if k[0] == "bool":
            return bv(False)
        if k[0] == "adt" and k[1] == OPT:
            return NONE
        if k[0] == "adt" and k[1] == "std::string::String":
            return StrV(("c", b""))
        if k[0] == "adt" and k[1] == "std::vec::Vec":
            return VecV(("lit", ()), ZERO, k[2][0])
        if c.inst is not None:
            return NotImplemented
        return Sym(("default", P.tname(t)), t)
    cuts["std::default::Default::default"] = default

    def opt_ref(eng, st, c, args):
        v = deref(eng, st, args[0])
        how = eng.stripped(c.raw).rsplit("::", 1)[1]
        out = []
        for var, s, x in eng.variants_of(st, v):
            if var == 0:
                out.append((s, NONE))
                continue
            y = eng.proj(s, eng.proj(s, x, ("d", 1)), ("f", 0))
            if isinstance(y, BoxV) and how.startswith("as_deref"):
                y = y.v
            if how in ("as_ref", "as_mut", "as_deref", "as_deref_mut") and not isinstance(y, (StrV, Ptr)):
                cell = ("play", eng.fresh())
                s.cells[cell] = y
                y = Ptr(cell, ())
            elif how in ("cloned", "copied"):
                y = deref(eng, s, y)
            out.append((s, some(y)))
        return out
    for n in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied"):
        cuts["std::option::Option::" + n] = opt_ref

    def unwrap_or(eng, st, c, args):
        v = deref(eng, st, args[0])
        out = []
        for var, s, x in eng.variants_of(st, v):
            if var == 1:
                out.append((s, eng.proj(s, eng.proj(s, x, ("d", 1)), ("f", 0))))
            elif len(args) > 1:
                out.append((s, args[1]))
            else:
                raise GiveUp("unwrap_or_default")
        return out
    cuts["std::option::Option::unwrap_or"] = unwrap_or

    def to_slice(eng, st, c, args):
        v = deref(eng, st, args[0])
        if isinstance(v, StrV):
            return v
        if isinstance(v, VecV):
            p = args[0]
            while isinstance(eng.read(st, p), Ptr):
                p = eng.read(st, p)
            return Slice(p, ZERO, v.len)
        if isinstance(v, BoxV):
            cell = ("play", eng.fresh())
            st.cells[cell] = v.v
            return Ptr(cell, ())
        return NotImplemented
    def index(eng, st, c, args):
        if isinstance(args[1], Agg) and args[1].name == "std::ops::RangeFull":
            return to_slice(eng, st, c, args)
        return NotImplemented
    cuts["std::ops::Index::index"] = index
    cuts["std::ops::Deref::deref"] = to_slice
    cuts["std::convert::AsRef::as_ref"] = to_slice

    def convert(eng, st, c, args):
        v = args[0]
        if c.inst is not None:
            return NotImplemented
        if isinstance(v, (Lin, StrV)):
            return v
        if isinstance(v, Bv) and c.dest is not None and eng.P.kind(eng.place_ty(st, c.dest))[0] == "int":
            return [(x, Lin(1 if truth else 0)) for truth, x in eng.branch(st, v.c)]
        return Sym(("into", knorm(st, v)), eng.place_ty(st, c.dest) if c.dest is not None else None)
    cuts["std::convert::From::from"] = convert
    cuts["std::convert::Into::into"] = convert
    cuts["std::ops::Try::branch"] = branch
    cuts["std::ops::FromResidual::from_residual"] = residual
    return cuts


class SerdeEngine(Engine):
    count = 0

    def call_def(self, st, fty, args, dest, tgt):
        try:
            return Engine.call_def(self, st, fty, args, dest, tgt)
        except GiveUp as e:
            # a function that is not known and answers yes or no: both answers are possible
            dt = self.place_ty(st, dest)
            if not str(e).startswith("unresolved call") or self.P.kind(dt)[0] not in ("bool", "int", "float", "char"):
                raise
            if self.P.kind(dt)[0] != "bool":
                # a number made of numbers, by a function of the standard library that is not known: some number
                if not re.match(r"(std|core)::", self.P.kind(fty)[1]) or not all(isinstance(a, (Lin, Fv, Bv)) for a in args):
                    raise
                return self.finish(st, self.mksym(dt, ("unknown", self.P.kind(fty)[1], tuple(knorm(st, a) for a in args))), dest, tgt)
            c = Bv(("op", ("unknown", self.P.kind(fty)[1], tuple(knorm(st, deref(self, st, a)) for a in args))))
            return self.finish(st, c, dest, tgt)

    def fresh(self):
        SerdeEngine.count += 1           # values pass from one engine to another: names are never used twice
        return SerdeEngine.count

    def operand(self, st, o):
        if o[0] == "u":
            return Agg("serde-const", 0, (StrV(("c", str(o[2]).encode())),))     # the lists of names given to a deserializer
        return Engine.operand(self, st, o)


def engine(P, cuts):
    eng = SerdeEngine(P, limit=60)
    eng.cuts.update(cuts)
    return eng


def run_on(S, inst, args, cuts, o, st=None):
    eng = engine(S.P, cuts)
    st = st or State()
    out = eng.analyse(inst, args, st)
    if o is not None:
        o.took(eng, out)
    for s in out:
        if s.kind == "giveup":
            raise Und("%s" % (s.info,))
    return eng, out


class Doc:
    """what one path writes: kind, name, parts; a part is (key, type, value)"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.parts, self.variant, self.keys = [], None, None
        self.__dict__.update(kw)


def docs(S, t, o, value=None, st=None):
    """[(engine, state, value, Doc)] of a type; value: a particular value instead of an arbitrary one"""
    P = S.P
    inst = S.ser[t]
    cuts = ser_cuts()
    eng = engine(P, cuts)
    st = st.copy() if st is not None else State()
    st.kind, st.ev, st.nev, st.frames = None, None, 0, []
    v = eng.mksym(t, ("self", P.tname(t))) if value is None else value
    cell = ("self", eng.fresh() if value is not None else 0)
    st.cells[cell] = v
    out = eng.analyse(inst, [Ptr(cell, ()), state_of("top")], st)
    o.took(eng, out)
    res = []
    for s in out:
        if s.kind == "giveup":
            raise Und("%s" % (s.info,))
        if s.kind != "ret":
            raise Bad("writing a value can panic")
        r = s.value
        if not (isinstance(r, Agg) and r.name == RES):
            raise Und("result of serialize")
        if r.variant != 0:
            raise Bad("a value cannot be written: serialize fails by itself")
        res.append((eng, s, eng.read(s, Ptr(cell, ())), doc(eng, s)))
    return res


def doc(eng, s):
    ev = [e for e in s.events() if e[0] in ("ser", "loop")]
    if not ev or ev[0][0] != "ser":
        raise Und("writes nothing" if not ev else "a loop writes at the top")
    e = ev[0]
    op = e[1]
    if op in ("newtype", "text", "prim", "same", "null", "unit_variant", "newtype_variant"):
        if len(ev) != 1:
            raise Und("more than one value written")
    if op == "newtype":
        return Doc("same", parts=[(None, e[3], e[4])])
    if op == "text":
        return Doc("text", parts=[(None, e[2], e[3])])
    if op == "prim":
        return Doc("prim", prim=e[2], parts=[(None, None, e[3])])
    if op == "same":
        return Doc("same", parts=[(None, e[2], e[3])])
    if op == "null":
        return Doc("null")
    if op == "unit_variant":
        return Doc("variant", variant=e[4], shape="unit", index=e[3])
    if op == "newtype_variant":
        return Doc("variant", variant=e[4], shape="newtype", index=e[3], parts=[(None, e[5], e[6])])
    if op in ("struct", "tuple_struct", "tuple"):
        d = Doc("struct" if op == "struct" else "tuple", name=e[2], len=e[-1])
    elif op in ("tuple_variant", "struct_variant"):
        d = Doc("variant", variant=e[4], index=e[3], shape=op[:-8], len=e[-1])
    elif op in ("seq", "map"):
        d = Doc(op, len=e[2])
    else:
        raise Und("writes %s first" % op)
    if ev[-1] != ("ser", "end"):
        raise Bad("what was begun is not ended")
    d.skipped = []
    d.body = ev[1:-1]
    if op == "map" and d.body and all(e[0] == "ser" for e in d.body):
        ks = d.body[0::2]
        if all(e[1] == "key" for e in ks) and all(e[1] == "value" for e in d.body[1::2]) and len(d.body) % 2 == 0:
            try:
                ps = [(const_text(k[4]), v[3], v[4]) for k, v in zip(ks, d.body[1::2])]
            except Und:
                return d
            return Doc("struct", name=None, len=None, parts=ps, skipped=[], body=d.body)
    if op in ("seq", "map"):
        return d
    for e in ev[1:-1]:
        if e[0] != "ser" or e[1] not in ("field", "skip", "elem"):
            raise Und("writes %s in a %s" % (e[1] if e[0] == "ser" else "a loop", op))
        if e[1] == "skip":
            d.skipped.append(e[2])
        else:
            d.parts.append((e[2], e[3], e[4]))
    return d


WIDE = re.compile(r"(?<![A-Za-z0-9_:])(i64|u64|i128|u128|usize|isize)(?![A-Za-z0-9_])")


def wide(P, t, seen=()):
    """does the JSON of a type hold 64-bit numbers of its own (not of another type of the crate)?"""
    return bool(WIDE.search(P.tname(t)))


def strip_refs(eng, st, P, t, v):
    while t is not None and P.kind(t)[0] == "ref":
        t = P.kind(t)[1]
        if isinstance(v, Ptr) and P.kind(t)[0] != "slice":
            v = eng.read(st, v)
    return t, v


def form(S, eng, st, t, v, o, depth=0, want=None):
    """canonical form of a value written: ("val", type, value) for a value of a type with a form of its own, otherwise the form it is written in"""
    P = S.P
    t, v = strip_refs(eng, st, P, t, v)
    while isinstance(v, Ptr) and t is not None and P.kind(t)[0] == "adt":
        v = eng.read(st, v)
    if t is not None and t in S.ser and (t not in S.adts_ser or want is not None and t != want) and depth < 5:
        r = docs(S, t, o, v, st)
        fs = [form_of(S, e2, s2, d, o, depth + 1) for e2, s2, _, d in r]
        if len(fs) != 1:
            return ("ways", [(f, e2, s2) for f, (e2, s2, _, _) in zip(fs, r)])
        return fs[0]
    if t is None:
        raise Und("a value without a type")
    n = P.tname(t)
    if n in ("std::string::String", "str"):
        if isinstance(v, StrV) and isinstance(v.k, tuple) and v.k[0] == "fmt":
            return text_form(S, eng, st, None, v)
        return ("val", "str", knorm(st, v))
    if P.kind(t)[0] in ("param", "alias"):
        n = type_of(deref(eng, st, v))
    return ("val", n, knorm(st, v))


def text_form(S, eng, st, t, v):
    """the text that shows a value"""
    v = deref(eng, st, v)
    ps = v.k[1] if isinstance(v, StrV) and isinstance(v.k, tuple) and v.k[0] == "fmt" else v.fields if isinstance(v, Agg) and v.name == "fmt::Arguments" else None
    if ps is not None:
        if len(ps) == 1 and not isinstance(ps[0], bytes) and len(ps[0]) == 2 and ps[0][0] == "new_display":
            v, t = deref(eng, st, ps[0][1]), None
        else:
            return ("text", "?", StrV(("fmt", tuple(ps))))
    n = S.P.tname(t) if t is not None and S.P.kind(t)[0] not in ("param", "alias") else "?"
    if n in ("std::string::String", "str") or isinstance(v, StrV):
        return ("val", "str", knorm(st, v))
    if n == "?":
        n = type_of(v)
    return ("text", n, knorm(st, v))


def type_of(v):
    """the type of a value of a type parameter"""
    if isinstance(v, Lin):
        k = ATOMS[v.t[0][0]] if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
        if k and k[0] == "s":
            return k[2]
    if isinstance(v, Sym) and v.ty is not None:
        return "?"
    return "?"


def form_of(S, eng, st, d, o, depth):
    if d.kind == "same":
        _, t, v = d.parts[0]
        return form(S, eng, st, t, v, o, depth)
    if d.kind == "text":
        _, t, v = d.parts[0]
        t, v = strip_refs(eng, st, S.P, t, v)
        return text_form(S, eng, st, t, v)
    if d.kind == "prim":
        v = d.parts[0][2]
        if isinstance(v, (Ptr, Slice)) and d.prim == "str":
            v = eng.read(st, v) if isinstance(v, Ptr) else v
        if isinstance(v, StrV) and isinstance(v.k, tuple) and v.k[0] == "fmt":
            return text_form(S, eng, st, None, v)
        return ("val", d.prim, knorm(st, v))
    if d.kind == "map":
        return map_form(S, eng, st, d, o, depth)
    if d.kind == "seq":
        return seq_form(S, eng, st, d, o, depth)
    if d.kind == "struct":
        return ("struct", tuple((k, form(S, eng, st, t, v, o, depth)) for k, t, v in d.parts))
    raise Und("writes a %s" % d.kind)


def one_loop(d, what):
    """the loop that writes a list: (record, [(state, events)]) - the loop must write every element once and in order"""
    ls = [e for e in d.body if e[0] == "loop"]
    sers = [e for e in d.body if e[0] == "ser"]
    if sers:
        raise Bad("%s has content that is not of its list" % what)
    if len(ls) != 1:
        raise Und("%d loops write %s" % (len(ls), what))
    return ls[0][1]


def list_of(eng, st, v):
    if isinstance(v, Slice):
        x = eng.read(st, v.base)
        if isinstance(x, VecV):
            if st.norm(v.lo) == ZERO and st.norm(v.hi) == st.norm(x.len):
                return x
            raise Und("part of a list")
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if isinstance(v, VecV):
        return v
    raise Und("a list that is a %s" % type(v).__name__)


def elem_key(eng, st, vec, i):
    return knorm(st, eng.elem(st, vec, i))


def map_form(S, eng, st, d, o, depth):
    if not d.body:
        return ("map", None, [], st)
    rec = one_loop(d, "a map")
    iters = [(x, [e for e in ev if e[0] == "ser"], [e for e in ev if e[0] == "loop"]) for x, ev in rec.iters]
    for x, ev, inner in iters:
        if inner:
            raise Und("a loop in a loop that writes a map")
        if [e[1] for e in ev] != ["key", "value"]:
            raise Bad("of an entry of a map, %s written" % (" and ".join(e[1] for e in ev) + " are" if ev else "nothing is"))
    return ("map", rec, iters, st)


def seq_form(S, eng, st, d, o, depth):
    if not d.body:
        return ("seq", None, [], st)
    rec = one_loop(d, "a list")
    iters = [(x, [e for e in ev if e[0] == "ser"], [e for e in ev if e[0] == "loop"]) for x, ev in rec.iters]
    for x, ev, inner in iters:
        if inner or [e[1] for e in ev] != ["elem"]:
            raise Bad("of an element of a list, %d are written" % len(ev)) if not inner else Und("a loop in a loop that writes a list")
    return ("seq", rec, iters, st)


# ------------------------------------------------------------------ reading
DE = "serde-de"
ACCS = "serde-acc"
INTS = {"i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "isize", "usize"}


class Player:
    """plays what was written to the implementations that read: items are ("val", type, value), ("text", type, value), ("doc", Doc), ("name", text), ("index", n)"""

    def __init__(self, S, o, mode):
        self.S, self.o, self.mode = S, o, mode
        self.items = []
        self.cuts = dict(ser_cuts())
        self.more_cuts()

    def item(self, it):
        self.items.append(it)
        return K(len(self.items) - 1)

    def de(self, it):
        return Agg(DE, 0, (self.item(it),))

    def the(self, v):
        if isinstance(v, Agg) and v.name in (DE, ACCS):
            return self.items[v.fields[0].c]
        raise GiveUp("a deserializer that is not known")

    def name(self, t):
        n = self.S.P.tname(t)
        return n

    def take(self, eng, st, it, t):
        """deserialize a T from an item: the result, or ("inst", ..) to go on with"""
        S, P = self.S, self.S.P
        k = P.kind(t)
        n = P.tname(t)
        if k[0] == "adt" and k[1].endswith("IgnoredAny"):
            return ok(UNITV)
        if t in S.de and t not in S.adts_de:
            return ("inst", S.de[t], [self.de(it)])      # a wrapper made by the derive, or a field name
        if it[0] == "val":
            if n == it[1] or it[1] == "?" or (n, it[1]) in (("std::string::String", "str"), ("str", "std::string::String")):
                return ok(it[2])
            if self.inner(t) == self.inner_name(it[1]):
                return ok(it[2])
            raise Bad("a %s is written and a %s is read" % (short(it[1]), short(n)))
        if it[0] == "text":
            if n in ("std::string::String", "std::borrow::Cow<'_, str>", "&str"):
                return ok(StrV(("shown", it[1], it[2])))
            raise Bad("the text of a %s is written and a %s is read" % (short(it[1]), short(n)))
        if it[0] == "name":
            if n in ("std::string::String", "&str"):
                return ok(StrV(("c", it[1].encode())))
        raise Und("reads a %s from a %s" % (short(n), it[0]))

    def inner(self, t):
        """a box reads and writes as its content"""
        k = self.S.P.kind(t)
        while k[0] == "adt" and k[1] == "std::boxed::Box":
            t = k[2][0]
            k = self.S.P.kind(t)
        return self.inner_name(self.S.P.tname(t))

    def inner_name(self, n):
        m = re.match(r"std::boxed::Box<(.*)>$", n)
        return m.group(1) if m else n

    def visit(self, eng, st, vt, meth, args):
        i = self.S.vis.get((vt, meth))
        if i is None:
            return None
        return ("inst", i, args)

    def visitor_type(self, c, args, i):
        t = c.targs[-1]
        return t

    def primitive(self, eng, st, vt, v, it):
        """an item that is a primitive, or a text, given to a visitor"""
        if it[0] in ("text", "name") or (it[0] == "val" and it[1] in ("str", "std::string::String")):
            s = StrV(("shown", it[1], it[2])) if it[0] == "text" else StrV(("c", it[1].encode())) if it[0] == "name" else it[2]
            for m in ("visit_str", "visit_string", "visit_borrowed_str"):
                arg = s if m == "visit_string" else self.ref(eng, st, s)
                r = self.visit(eng, st, vt, m, [v, arg])
                if r:
                    return r
            raise Bad("a text is written and the reader takes no text")
        if it[0] == "index":
            for m in ("visit_u64", "visit_u32"):
                r = self.visit(eng, st, vt, m, [v, it[1]])
                if r:
                    return r
            raise Und("no visitor for an index")
        if it[0] == "val" and (it[1] in INTS or it[1] in ("bool", "f32", "f64", "char")):
            r = self.visit(eng, st, vt, "visit_" + it[1], [v, it[2]])
            if r:
                return r
            raise Und("no visitor for a %s" % it[1])
        raise Und("reads a primitive from a %s" % it[0])

    def ref(self, eng, st, v):
        cell = ("play", eng.fresh())
        st.cells[cell] = v
        return Ptr(cell, ())

    def struct(self, eng, st, vt, v, it):
        """a struct is given to a visitor, by its names or by its order"""
        if it[0] != "doc" or it[1].kind not in ("struct", "tuple"):
            if it[0] == "doc" and it[1].kind == "variant":
                pass
            elif it[0] in ("val", "text") or it[0] == "doc":
                raise Bad("a struct is read from a %s" % (it[0] if it[0] != "doc" else it[1].kind))
            else:
                raise Und("a struct is read from a %s" % it[0])
        d = it[1]
        acc = Agg(ACCS, 0, (self.item(it), ZERO))
        meth = "visit_map" if self.mode == "map" and (d.kind == "struct" or d.kind == "variant" and d.shape == "struct") else "visit_seq"
        r = self.visit(eng, st, vt, meth, [v, acc])
        if r is None:
            raise Und("no %s" % meth)
        return r

    def parts(self, st, acc):
        return self.the(acc)[1].parts

    def sub(self, eng, st, inst, args):
        """run a function to its only result"""
        saved = st.frames
        st.frames = []
        out = eng.analyse(inst, args, st.copy())
        st.frames = saved
        if len(out) > 1 and all(x.kind == "ret" for x in out):
            raise Split(out)
        if len(out) != 1:
            raise GiveUp("%d results of a function that reads" % len(out))
        s = out[0]
        if s.kind == "giveup":
            raise GiveUp("%s" % (s.info,))
        if s.kind != "ret":
            raise Bad("reading can panic")
        s.frames = [f.copy() for f in saved]
        s.kind = None
        return s, s.value

    def result(self, eng, st, r):
        """a result that may still have to be run"""
        if isinstance(r, tuple) and r and r[0] == "inst":
            return self.sub(eng, st, r[1], r[2])
        return st, r

    def apply(self, eng, st, f, args):
        import models
        while isinstance(f, Ptr):
            f = eng.read(st, f)
        if isinstance(f, FnV) and eng.P.kind(f.ty)[0] == "fndef":
            c = models.ctor_of(eng, eng.stripped(eng.P.kind(f.ty)[1]))
            if c is not None:
                return st, Agg(c[0], c[1], tuple(args))
            n = eng.P.kind(f.ty)[1]
            if re.search(r"de::Error::custom$|::Error>?::custom$", n):
                return st, err("custom").fields[0]
            if n.endswith("convert::Into::into") or n.endswith("convert::From::from"):
                return st, args[0]
            if n.endswith("boxed::Box::new"):
                return st, args[0]
        if isinstance(f, FnV) and eng.P.kind(f.ty)[0] == "closure":
            f = Agg(("closure", f.ty), 0, ())
        if isinstance(f, Agg) and isinstance(f.name, tuple) and f.name[0] == "closure":
            ct = f.name[1]
            inst = eng.P.kind(ct)[2]
            b = eng.P.insts[inst].get("body") if inst is not None else None
            if b:
                env = f
                if eng.P.kind(b["locals"][1])[0] == "ref":
                    env = self.ref(eng, st, f)
                a = [env] + list(args)
                if len(a) != b["argc"]:
                    raise GiveUp("closure arguments")
                return self.sub(eng, st, inst, a)
        raise GiveUp("a function that is applied to a result")

    def more_cuts(self):
        P, S = self.S.P, self.S
        cuts = self.cuts

        def add(path, f):
            for root in ("boxcars::serde::", "serde::", "serde_core::"):
                cuts[root + path] = f

        def d_struct(eng, st, c, args):
            return self.struct(eng, st, c.targs[-1], args[-1], self.the(args[0]))
        add("Deserializer::deserialize_struct", d_struct)
        add("Deserializer::deserialize_map", d_struct)
        add("Deserializer::deserialize_tuple_struct", d_struct)
        add("Deserializer::deserialize_tuple", d_struct)

        def d_enum(eng, st, c, args):
            it = self.the(args[0])
            if it[0] != "doc" or it[1].kind != "variant":
                raise Bad("an enum is read from a %s" % (it[0] if it[0] != "doc" else it[1].kind))
            r = self.visit(eng, st, c.targs[-1], "visit_enum", [args[-1], Agg(ACCS, 0, (self.item(it), ZERO))])
            if r is None:
                raise Und("no visit_enum")
            return r
        add("Deserializer::deserialize_enum", d_enum)

        def d_newtype(eng, st, c, args):
            it = self.the(args[0])
            if it[0] == "doc" and it[1].kind == "same":
                it = self.part(eng, st, it[1].parts[0])
            r = self.visit(eng, st, c.targs[-1], "visit_newtype_struct", [args[-1], self.de(it)])
            if r is None:
                raise Und("no visit_newtype_struct")
            return r
        add("Deserializer::deserialize_newtype_struct", d_newtype)

        def d_prim(eng, st, c, args):
            it = self.the(args[0])
            if it[0] == "doc" and it[1].kind == "same":
                it = self.part(eng, st, it[1].parts[0])
            hint = eng.stripped(c.raw).rsplit("_", 1)[1]
            texts = it[0] in ("text", "name") or it[0] == "val" and it[1] in ("str", "std::string::String")
            if texts and (hint in INTS or hint in ("bool", "f32", "f64", "char")) and it[0] != "name":
                raise Bad("a text is written and a %s is asked for" % hint)
            if hint in ("str", "string") and it[0] == "val" and it[1] in INTS:
                raise Bad("a %s is written and a text is asked for" % it[1])
            return self.primitive(eng, st, c.targs[-1], args[-1], it)
        for nm in ("identifier", "str", "string", "any") + tuple(INTS) + ("bool", "f32", "f64", "char"):
            add("Deserializer::deserialize_" + nm, d_prim)

        def key(eng, st, acc, t):
            a = eng.read(st, acc)
            ps = self.the(a)[1].parts
            n = a.fields[1].c
            if n >= len(ps):
                return None
            return ps[n], n

        def next_key(eng, st, c, args):
            r = key(eng, st, args[0], None)
            if r is None:
                return ok(NONE)
            (k, _, _), n = r
            s, v = self.result(eng, st, self.take(eng, st, ("name", k), c.targs[1]))
            return [(s, wrap_some(v))]
        add("de::MapAccess::next_key", next_key)

        def advance(eng, st, acc):
            a = eng.read(st, acc)
            eng.write(st, acc, Agg(ACCS, 0, (a.fields[0], K(a.fields[1].c + 1))))

        def next_value(eng, st, c, args):
            r = key(eng, st, args[0], None)
            if r is None:
                raise Und("a value after the last")
            advance(eng, st, args[0])
            return self.take(eng, st, self.part(eng, st, r[0]), c.targs[1])
        add("de::MapAccess::next_value", next_value)

        def next_entry(eng, st, c, args):
            r = key(eng, st, args[0], None)
            if r is None:
                return ok(NONE)
            s, k = self.result(eng, st, self.take(eng, st, ("name", r[0][0]), c.targs[1]))
            advance(eng, s, args[0])
            s, v = self.result(eng, s, self.take(eng, s, self.part(eng, s, r[0]), c.targs[2]))
            return [(s, wrap_some(ok(Agg("()", 0, (k.fields[0], v.fields[0])))) if k.variant == 0 == v.variant else v if v.variant else k)]
        add("de::MapAccess::next_entry", next_entry)

        def next_element(eng, st, c, args):
            r = key(eng, st, args[0], None)
            if r is None:
                return ok(NONE)
            advance(eng, st, args[0])
            s, v = self.result(eng, st, self.take(eng, st, self.part(eng, st, r[0]), c.targs[1]))
            return [(s, wrap_some(v))]
        add("de::SeqAccess::next_element", next_element)

        def size_hint(eng, st, c, args):
            return NONE
        add("de::SeqAccess::size_hint", size_hint)
        add("de::MapAccess::size_hint", size_hint)

        def variant(eng, st, c, args):
            it = self.the(args[0])
            d = it[1]
            if self.mode == "map":
                w = ("name", d.variant)
            else:
                w = ("index", d.index)
            s, v = self.result(eng, st, self.take(eng, st, w, c.targs[1]))
            if v.variant != 0:
                return [(s, v)]
            return [(s, ok(Agg("()", 0, (v.fields[0], args[0]))))]
        add("de::EnumAccess::variant", variant)

        def shape(what):
            def f(eng, st, c, args):
                d = self.the(args[0])[1]
                if d.shape != what:
                    raise Bad("variant %s is written as a %s and read as a %s" % (d.variant, d.shape, what))
                if what == "unit":
                    return ok(UNITV)
                if what == "newtype":
                    return self.take(eng, st, self.part(eng, st, d.parts[0]), c.targs[1])
                return self.struct(eng, st, c.targs[-1], args[-1], self.the(args[0]))
            return f
        for w in ("unit", "newtype", "tuple", "struct"):
            add("de::VariantAccess::%s_variant" % w, shape(w))

        def deserialize(eng, st, c, args):
            it = self.the(args[0])
            if it[0] == "doc" and it[1].kind == "same":
                it = self.part(eng, st, it[1].parts[0])
            return self.take(eng, st, it, c.targs[0])
        add("Deserialize::deserialize", deserialize)
        add("de::Deserialize::deserialize", deserialize)

        def failing(nm):
            def f(eng, st, c, args):
                what = nm
                if nm in ("duplicate_field", "missing_field"):
                    try:
                        what = "%s %s" % (nm, const_text(args[0]))
                    except Und:
                        pass
                return err(what).fields[0]
            return f
        for nm in ("duplicate_field", "missing_field", "unknown_variant", "unknown_field", "invalid_length", "invalid_value", "invalid_type", "custom"):
            add("de::Error::" + nm, failing(nm))

        def missing(eng, st, c, args):
            t = c.targs[0] if len(c.targs) == 1 else [x for x in c.targs if P.kind(x)[0] != "param"][0]
            if P.kind(t)[0] == "adt" and P.kind(t)[1] == OPT:
                return ok(NONE)
            return err("missing field %s" % const_text(args[0]))
        for t in P.T:
            k = t["k"]
            if k[0] == "fndef" and re.search(r"serde(_core)?::__private\d*::de::missing_field$", k[1]):
                cuts[S.strip(k[1])] = missing

        def cases(eng, st, v):
            """[(does it hold a value, state, the option or result, the value)]"""
            v = deref(eng, st, v)
            if isinstance(v, Agg):
                good = v.variant == (1 if v.name == OPT else 0)
                return [(good, st, v, v.fields[0] if good else None)]
            out = []
            for var, s, x in eng.variants_of(st, v):
                opt = P.kind(x.ty)[1] == OPT if isinstance(x, Sym) and x.ty is not None else True
                if not opt:
                    raise GiveUp("a result that is not known")
                y = eng.proj(s, eng.proj(s, x, ("d", 1)), ("f", 0)) if var == 1 else None
                out.append((var == 1, s, some(y) if var == 1 else NONE, y))
            return out

        def opt_map(eng, st, c, args):
            out = []
            for good, s, v, x in cases(eng, st, args[0]):
                if good:
                    s, x = self.apply(eng, s, args[1], [x])
                    v = Agg(v.name, v.variant, (x,))
                out.append((s, v))
            return out
        cuts["std::option::Option::map"] = opt_map
        cuts["std::result::Result::map"] = opt_map

        def opt_filter(eng, st, c, args):
            out = []
            for good, s, v, x in cases(eng, st, args[0]):
                if not good:
                    out.append((s, v))
                    continue
                s, r = self.apply(eng, s, args[1], [self.ref(eng, s, x)])
                if not isinstance(r, Bv):
                    raise GiveUp("filter")
                out.extend((z, v if truth else NONE) for truth, z in eng.branch(s, r.c))
            return out
        cuts["std::option::Option::filter"] = opt_filter

        def and_then(eng, st, c, args):
            out = []
            for good, s, v, x in cases(eng, st, args[0]):
                if good:
                    s, v = self.apply(eng, s, args[1], [x])
                out.append((s, v))
            return out
        cuts["std::option::Option::and_then"] = and_then
        cuts["std::result::Result::and_then"] = and_then

        def unwrap_or_else(eng, st, c, args):
            out = []
            for good, s, v, x in cases(eng, st, args[0]):
                if not good:
                    if v.name != OPT:
                        raise GiveUp("unwrap_or_else")
                    s, x = self.apply(eng, s, args[1], [])
                out.append((s, x))
            return out
        cuts["std::option::Option::unwrap_or_else"] = unwrap_or_else

        def map_err(eng, st, c, args):
            v = args[0]
            if isinstance(v, Agg) and v.variant == 0:
                return v
            return err("an error")
        cuts["std::result::Result::map_err"] = map_err

        def ok_or(eng, st, c, args):
            v = args[0]
            if v.variant == 1:
                return ok(v.fields[0])
            return err("nothing there")
        cuts["std::option::Option::ok_or_else"] = ok_or
        cuts["std::option::Option::ok_or"] = ok_or

        def parse(eng, st, c, args):
            v = deref(eng, st, args[0])
            if not (isinstance(v, StrV) and isinstance(v.k, tuple) and v.k[0] == "shown"):
                raise GiveUp("parse of something else")
            t = c.targs[-1] if c.targs else None
            if t is not None and P.kind(t)[0] not in ("param", "alias") and v.k[1] not in ("?", P.tname(t)):
                raise Bad("the text of a %s is parsed as a %s" % (short(v.k[1]), short(P.tname(t))))
            return ok(v.k[2])

        def radix(eng, st, c, args):
            v = deref(eng, st, args[0])
            if not (isinstance(v, StrV) and isinstance(v.k, tuple) and v.k[0] == "shown") or not isinstance(args[1], Lin) or not args[1].is_const():
                raise GiveUp("from_str_radix of something else")
            if args[1].c != 10:
                raise Bad("a decimal number is read to the base %d" % args[1].c)
            return ok(v.k[2])
        for n in ("core::str::<impl str>::parse", "std::str::<impl str>::parse", "str::parse", "std::str::FromStr::from_str"):
            cuts[n] = parse

        def same(eng, st, c, args):
            v = deref(eng, st, args[0])
            if isinstance(v, StrV) and isinstance(v.k, tuple) and v.k[0] == "shown" and v.k[1] in INTS:
                return args[0]
            return NotImplemented
        for n in ("trim", "trim_start", "trim_end"):
            for r in ("core::str::<impl str>::", "std::str::<impl str>::", "str::"):
                cuts[r + n] = same
        for n in ("std::string::String::as_str", "<std::string::String as std::ops::Deref>::deref"):
            cuts[n] = same
        for t in P.T:
            k = t["k"]
            if k[0] == "fndef":
                n = S.strip(k[1])
                if n.endswith("::from_str_radix"):
                    cuts[n] = radix
                elif re.search(r"str>?::parse$", n):
                    cuts[n] = parse
                elif re.search(r"str>?::trim(_start|_end)?$", n):
                    cuts[n] = same

    def part(self, eng, st, p):
        """a part of a document as an item"""
        _, t, v = p
        S = self.S
        f = form(S, eng, st, t, v, self.o)
        if f[0] == "val":
            # the value itself, not only its canonical form
            return ("val", self.inner_name(f[1]), f[2])
        if f[0] == "text":
            return f
        raise Und("a part that is a %s" % f[0])


def wrap_some(v):
    if isinstance(v, Agg) and v.name == RES and v.variant == 0:
        return ok(some(v.fields[0]))
    return v


def short(n):
    return re.sub(r"(?:[a-z_0-9]+::)+", "", n)


def deep(eng, st, v, n=0):
    """canonical form of a value with the places it points to"""
    if n > 12:
        return v
    if isinstance(v, Sym) and v.k in st.variants:
        v = eng.expand(v, st.variants[v.k])
    if isinstance(v, Agg):
        return Agg(v.name, v.variant, tuple(deep(eng, st, f, n + 1) for f in v.fields))
    if isinstance(v, BoxV):
        return BoxV(deep(eng, st, v.v, n + 1))
    return knorm(st, v)


def round_trip(S, t, o, mode):
    """[(what is written, what is read)] must be equal for every way a type is written; yields (variant, problem or None)"""
    P = S.P
    out, work = [], [(x, 0) for x in docs(S, t, o)]
    while work:
        (eng, st, v, d), splits = work.pop(0)
        pl = Player(S, o, mode)
        eng.cuts.update(pl.cuts)
        st = st.copy()
        st.kind, st.frames = None, []
        try:
            it = ("doc", d)
            if d.kind == "text":
                f = form_of(S, eng, st, d, o, 0)
                it = f
            elif d.kind == "prim":
                it = form_of(S, eng, st, d, o, 0)
            res = eng.analyse(S.de[t], [pl.de(it)], st)
            o.took(eng, res)
            for s in res:
                if s.kind == "giveup":
                    raise Und("%s" % (s.info,))
                if s.kind != "ret":
                    raise Bad("reading back can panic")
                r = s.value
                if not (isinstance(r, Agg) and r.name == RES):
                    raise Und("result of deserialize")
                if r.variant != 0:
                    e = r.fields[0]
                    raise Bad("is not read back: %s" % (e.fields[0].k[1].decode() if isinstance(e, Agg) and e.name == "serde-error" else "an error"))
                x, y = deep(eng, s, r.fields[0]), deep(eng, s, v)
                if x != y:
                    out.append((d.variant, differ(P, eng, s, r.fields[0], v)))
                    continue
                out.append((d.variant, None))
        except Split as e:
            # what is read depends on the value: each case is played from the start
            if splits > 5 or len(work) > 60:
                raise Und("too many cases of what is read")
            for x in e.out:
                n = st.copy()
                n.iv, n.facts, n.conds, n.variants, n.fr, n.strs = dict(x.iv), x.facts, dict(x.conds), dict(x.variants), dict(x.fr), dict(x.strs)
                work.append(((eng, n, v, d), splits + 1))
        except Bad as e:
            out.append((d.variant, str(e)))
    return out


def differ(P, eng, st, a, b, path=""):
    a, b = deep(eng, st, a), deep(eng, st, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name:
        if a.variant != b.variant:
            return "reads back as another variant"
        names = P.adts[a.name]["variants"][a.variant or 0][2] if a.name in P.adts else None
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            if deep(eng, st, x) != deep(eng, st, y):
                return differ(P, eng, st, x, y, path + "." + (names[i] if names and i < len(names) else str(i)))
    if type(a) != type(b) and not isinstance(a, (Agg, Lin, StrV)) and not isinstance(b, (Agg, Lin, StrV)):
        raise Und("compares %s with %s" % (type(a).__name__, type(b).__name__))
    return "%s is not what was written" % (path or "the value")
