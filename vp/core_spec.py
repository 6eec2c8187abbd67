"""Layout of the replay container, header and body, written from the format description in the crate documentation."""
from terms import *
from absint import seq_cond
from accept import W, SpecFail, Undecided
import models
from models import some, NONE

W1252 = "encoding_rs::WINDOWS_1252_INIT"
U16LE = "encoding_rs::UTF_16LE_INIT"
HOW = "decode_without_bom_handling"


class Fail(SpecFail):
    """malformed input: what is wrong, and where it was noticed"""

    def __init__(self, w, why, kind, *args):
        SpecFail.__init__(self, why)
        self.kind, self.args2 = kind, args
        self.pos = w.pos
        self.sect = list(w.sect)


class CW(W):
    """cursor over the bytes of a replay"""

    def __init__(self, *a):
        self.sect = []
        W.__init__(self, *a)
        if isinstance(self.base, Ptr):
            self.fkey = self.eng.read(self.st, self.base).k

    def fork_state(self):
        pass

    class Section:
        def __init__(self, w, name):
            self.w, self.name = w, name

        def __enter__(self):
            self.w.sect.append(self.name)

        def __exit__(self, t, v, tb):
            self.w.sect.pop()

    def section(self, name):
        return CW.Section(self, name)

    def need(self, n):
        if not isinstance(n, Lin):
            n = K(n)
        n = self.rw(n)
        if not self.cond(c_le(self.pos + n, self.tot)):
            raise Fail(self, "truncated", "short", n)

    def u(self, n):
        self.need(n)
        a = atom(("le", self.fkey, self.st.norm(self.pos), n), 0, (1 << (8 * n)) - 1)
        self.pos = self.pos + n
        return a

    def i32(self):
        return models.wrap_to(self.eng, 32, True)(self.st, self.u(4))

    def f32(self):
        return Fv(("fbits", 32, self.u(4)))

    def skip(self, n):
        self.need(n)
        self.pos = self.pos + n

    def data(self, n):
        """n bytes; a negative n is an error"""
        n = self.rw(n)
        if self.lt(n, 0):
            raise Fail(self, "truncated", "short", n)
        self.need(n)
        n = self.rw(n)
        p = self.pos
        self.pos = self.pos + n
        return p, n

    def is_str(self, s, lit):
        return self.cond(seq_cond(self.rw(s.k), ("c", lit)))

    def text(self):
        n = self.i32()
        if not (self.le(-10000, n) and self.le(n, 10000)):
            raise Fail(self, "oversized text", "TextTooLarge", n)
        if self.is_eq(n, 0):
            return StrV(("c", b""))
        if self.lt(n, 0):
            p, k = self.data(n.scale(-2))
            return StrV(("dec", U16LE, HOW, ("mem", self.fkey, p, k - 2)))
        p, k = self.data(n)
        return StrV(("dec", W1252, HOW, ("mem", self.fkey, p, k - 1)))

    def str(self):
        n = self.i32()
        p, k = self.data(n)
        if self.is_eq(k, 0):
            return StrV(("c", b""))
        c = ("mem", self.rw(self.fkey), self.st.norm(self.rw(p)), self.st.norm(self.rw(k) - 1))
        if not self.cond(("op", ("utf8ok", c))):
            raise Fail(self, "not utf-8", "Utf8Error")
        return StrV(("utf8", c))

    def count(self):
        n = self.i32()
        if not (self.le(0, n) and self.le(n, 25000)):
            raise Fail(self, "too long a list", "ListTooLarge", n)
        return n

    def list_of(self, elem, tag):
        return self.list(self.count(), elem, tag)


def tup(*vs):
    return Agg("()", 0, tuple(vs))


def text_list(tag):
    return lambda w: w.list_of(lambda w: w.text(), tag)


# ------------------------------------------------------------------ header
def header_prop(v, *a, **f):
    return lambda w: w.adt("HeaderProp", v, *a, **f)


def rdict(w, quirks):
    P = lambda v, *a, **f: w.adt("HeaderProp", v, *a, **f)

    def step(w):
        key = w.str()
        if w.is_str(key, b"None"):
            return "stop"
        kind = w.str()
        with w.section("property size"):
            w.skip(4)
        w.skip(4)
        if w.is_str(kind, b"BoolProperty"):
            w.need(4 if quirks else 1)
            b = w.u(1)
            if quirks:
                w.skip(3)
            v = P("Bool", bv(c_eq(b, ONE)))
        elif w.is_str(kind, b"ByteProperty"):
            if quirks:
                v = P("Byte", kind=w.text(), value=NONE)
            else:
                k = w.str()
                if w.is_str(k, b"None"):
                    w.skip(1)
                    return "skip"
                v = P("Byte", kind=k, value=some(w.str()))
        elif w.is_str(kind, b"ArrayProperty"):
            with w.section("array property size"):
                n = w.i32()
            if not (w.le(0, n) and w.le(n, 25000)):
                raise Fail(w, "too long a list", "ListTooLarge", n)
            v = P("Array", w.list(n, lambda w: nested(w), "array"))
        elif w.is_str(kind, b"FloatProperty"):
            v = P("Float", w.f32())
        elif w.is_str(kind, b"IntProperty"):
            v = P("Int", w.i32())
        elif w.is_str(kind, b"QWordProperty"):
            v = P("QWord", w.u(8))
        elif w.is_str(kind, b"NameProperty"):
            v = P("Name", w.text())
        elif w.is_str(kind, b"StrProperty"):
            v = P("Str", w.text())
        elif w.is_str(kind, b"StructProperty"):
            name = w.str()
            v = P("Struct", name=name, fields=nested(w))
        else:
            raise Fail(w, "unknown property type", "UnexpectedProperty", kind)
        return ("push", tup(key, v))
    return w.repeat(step, "properties")


NESTED = "nested-properties"


def nested(w):
    """a dictionary of the same grammar, one level down"""
    p = w.st.norm(w.rw(w.pos))
    base = w.fkey
    if not w.cond(("op", (NESTED + "-ok", base, p))):
        raise Fail(w, "malformed nested properties", "nested")
    w.pos = nested_end(base, p)
    return nested_value(base, p)


def nested_end(base, p):
    return atom((NESTED + "-end", base, p), 0, (1 << 63) - 1)


def nested_value(base, p):
    return VecV((NESTED, base, p), atom((NESTED + "-len", base, p), 0, (1 << 63) - 1), None)


def header(w):
    with w.section("major version"):
        major = w.i32()
    with w.section("minor version"):
        minor = w.i32()
    net = NONE
    quirks = False
    if w.lt(865, major) and w.lt(17, minor):
        with w.section("net version"):
            net = some(w.i32())
    elif w.is_eq(major, 0) and w.is_eq(minor, 0):
        quirks = True
    with w.section("game type"):
        game = w.text()
    with w.section("header properties"):
        props = rdict(w, quirks)
    return w.adt("Header", major_version=major, minor_version=minor, net_version=net, game_type=game, properties=props)


# ------------------------------------------------------------------ body
def body(w):
    d = {}

    def sect(name, field, f):
        with w.section(name):
            d[field] = f(w)
    sect("levels", "levels", text_list("levels"))
    sect("keyframes", "keyframes", lambda w: w.list_of(
        lambda w: w.adt("KeyFrame", **order(time=w.f32, frame=w.i32, position=w.i32)), "keyframes"))
    with w.section("network size"):
        n = w.i32()
    with w.section("network data"):
        p, k = w.data(n)
    d["network_data"] = Slice(w.base, w.rw(p), w.rw(p) + w.rw(k))
    sect("debug info", "debug_info", lambda w: w.list_of(
        lambda w: w.adt("DebugInfo", **order(frame=w.i32, user=w.text, text=w.text)), "debug info"))
    sect("tickmarks", "tick_marks", lambda w: w.list_of(
        lambda w: w.adt("TickMark", **order(description=w.text, frame=w.i32)), "tickmarks"))
    sect("packages", "packages", text_list("packages"))
    sect("objects", "objects", text_list("objects"))
    sect("names", "names", text_list("names"))
    sect("class index", "class_indices", lambda w: w.list_of(
        lambda w: w.adt("ClassIndex", **order(**{"class": w.str, "index": w.i32})), "class index"))
    sect("net cache", "net_cache", lambda w: w.list_of(
        lambda w: w.adt("ClassNetCache", **order(
            object_ind=w.i32, parent_id=w.i32, cache_id=w.i32, properties=lambda: w.list_of(
                lambda w: w.adt("CacheProp", **order(object_ind=w.i32, stream_id=w.i32)), "cache properties"))), "net cache"))
    return w.adt("ReplayBody", **d)


def order(**f):
    return {k: v() for k, v in f.items()}
