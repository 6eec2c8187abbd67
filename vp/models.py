"""Abstract semantics of the library calls the parser makes (bit reader, slices, vectors, maps, strings, iterators)."""
from terms import *
from prog import strip
from absint import GiveUp, Infeasible, LAREM, rd_atom, seq_cond, fcmp, fval

OPT = "std::option::Option"
RES = "std::result::Result"
USIZE_MAX = (1 << 64) - 1


def some(v):
    return Agg(OPT, 1, (v,))


NONE = Agg(OPT, 0, ())


def ok(v):
    return Agg(RES, 0, (v,))


def err(v):
    return Agg(RES, 1, (v,))


# ------------------------------------------------------------------ dispatch
TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


class Call:
    __slots__ = ("name", "fty", "targs", "inst", "dest", "raw")


def dispatch(eng, st, name, args, fty, dest=None):
    P = eng.P
    c = Call()
    c.fty = fty
    c.dest = dest
    c.targs = ()
    c.inst = None
    if name is None:
        k = P.kind(fty)
        c.targs = k[2]
        c.inst = k[3]
        c.raw = k[1]
        raw = P.insts[k[3]]["def"] if k[3] is not None else k[1]
        name = eng.stripped(raw)
        if k[3] is not None and P.insts[k[3]]["args"]:
            c.targs = P.insts[k[3]]["args"]
    c.name = name
    cut = eng.cuts.get(name)
    if cut is not None:
        r = cut(eng, st, c, args)
        if r is not NotImplemented:
            return r
    f = TABLE.get(name)
    if f is not None:
        return f(eng, st, c, args)
    last = name.rsplit("::", 1)[-1]
    if name.startswith("std::intrinsics::") and args and all(isinstance(a, Fv) for a in args) and not (c.inst is not None and P.insts[c.inst].get("body")):
        # a function on floats: the same result for the same arguments
        return Fv(("fi", last, tuple(a.t for a in args)))
    if fty is not None and c.raw.startswith("std::ops::Fn") and c.raw.rsplit("::", 1)[-1] in ("call_once", "call_mut", "call"):
        a = args[1]
        if isinstance(a, Agg) and a.name == "()":
            return ("callv", args[0], list(a.fields))
    if last in ("call_once", "call_mut", "call") and ("std::ops::Fn" in name):
        a = args[1]
        if isinstance(a, Agg) and a.name == "()":
            return ("callv", args[0], list(a.fields))
        raise GiveUp("call_once args")
    if last in REORDERS and ("slice::<impl [" in name or "Vec" in name or "slice::" in name):
        return reorder_by(eng, st, c, args, last)
    if last in ("sort", "sort_unstable", "dedup", "join") and ("slice::<impl [" in name or "Vec" in name or "slice::" in name):
        return reorder(eng, st, c, args, last)
    if "fmt::rt::Argument" in name and last.startswith("new_"):
        return fmt_arg(eng, st, c, args, last)
    if name.startswith("core::panicking::") or last in ("unwrap_failed", "expect_failed") or name.endswith("_fail"):
        return [(eng.panic(st, last, None), None)]
    if c.inst is not None and P.insts[c.inst].get("body"):
        if name.startswith("std::iter::Iterator::") or (name.endswith("as std::iter::Iterator>::next") and not own(eng, name)):
            pass
        else:
            return NotImplemented
    # constructor functions
    if fty is not None:
        ctor = ctor_of(eng, name)
        if ctor is not None:
            return Agg(ctor[0], ctor[1], tuple(args))
    if name.endswith("as std::iter::Iterator>::next") or name == "std::iter::range::next":
        return it_next(eng, st, args[0])
    if last in ADAPT and ("Iterator" in name):
        return ADAPT[last](eng, st, c, [ranged(args[0])] + list(args[1:]))
    if last == "into_iter" and "IntoIterator" in c.raw:
        return into_iter(eng, st, c, args)
    if "as std::clone::Clone>::clone" in name and any(x in name for x in ("Vec", "String", "HashMap", "Box", "std::iter")):
        return eng.read(st, args[0])
    return NotImplemented


def own(eng, name):
    return name.startswith("<boxcars::") or name.startswith("boxcars::")


def ctor_of(eng, name):
    if name == "std::prelude::v1::Some":
        return (OPT, 1)
    if name == "std::prelude::v1::Ok":
        return (RES, 0)
    if name == "std::prelude::v1::Err":
        return (RES, 1)
    P = eng.P
    if name in P.adts and P.adts[name]["kind"].lower() == "struct":
        return (name, 0)
    if "::" in name:
        a, v = name.rsplit("::", 1)
        if a in P.adts:
            i = P.variant_index(a, v)
            if i is not None:
                return (a, i)
    return None


def fork(eng, st, c):
    """[(truth, state)]"""
    return eng.branch(st, c)


def oblige(eng, st, what, c):
    """a library precondition: violation of it is a terminal 'panic' state"""
    out = []
    good = None
    for t, x in fork(eng, st, c):
        if t:
            good = x
        else:
            out.append((eng.panic(x, what, c), None))
    return good, out


def few_values(st, l, most=4):
    l = st.norm(l)
    if l.is_const():
        return None
    lo, hi = st.bounds(l)
    if len(l.t) == 1 and hi < INF and lo > -INF:
        k = abs(l.t[0][1])
        if (hi - lo) // k + 1 <= most:
            return [K(v) for v in range(int(lo), int(hi) + 1, k)]
    return None


def concretise(eng, st, l, most=2):
    """[(state, value)] with l replaced by its few possible values"""
    vs = few_values(st, l, most)
    if vs is None:
        return [(st, st.norm(l))]
    out = []
    for v in vs:
        x = st.copy()
        if x.assume(c_eq(l, v)):
            x.last = (c_eq(l, v), True)
            out.append((x, v))
    return out


def expand_states(f):
    """apply f to [(state,val)] and flatten"""
    out = []
    for x, v in f:
        out.append((x, v))
    return out


# ------------------------------------------------------------------ bit reader
B = "<bitter::LittleEndianReader as bitter::BitReader>::"


def rdr(eng, st, p):
    v = eng.read(st, p)
    if not isinstance(v, RdrV):
        raise GiveUp("reader is %s" % type(v).__name__)
    return v


@model("bitter::LittleEndianReader::new")
def m_new(eng, st, c, args):
    base, n = content(eng, st, args[0])
    return RdrV(base, ZERO, n.scale(8), None, None)


def read_n(eng, st, p, n, conv):
    out = []
    for x, nn in concretise(eng, st, n):
        good, bad = oblige(eng, x, "read_bits:width", c_le(nn, K(64)))
        out += bad
        if good is None:
            continue
        r = rdr(eng, good, p)
        for t, y in fork(eng, good, c_le(r.pos + nn, r.tot)):
            if t:
                a = rd_sym(eng, y, r, nn)
                eng.write(y, p, RdrV(r.base, r.pos + nn, r.tot, None, None))
                out.append((y, some(conv(y, a))))
            else:
                eng.write(y, p, RdrV(r.base, r.pos, r.tot, None, None))
                out.append((y, NONE))
    return out


def wrap_to(eng, bits, signed):
    m = 1 << bits

    def f(st, a):
        if not signed:
            return a
        lo, hi = st.bounds(a)
        if hi < m // 2:
            return a
        return atom(("wrap", 1, bits, a), -(m // 2), m // 2 - 1)
    return f


@model(B + "read_bits")
def m_read_bits(eng, st, c, args):
    return read_n(eng, st, args[0], args[1], lambda s, a: a)


@model(B + "read_signed_bits")
def m_read_sbits(eng, st, c, args):
    raise GiveUp("read_signed_bits")


def _mk_read(n, signed):
    def f(eng, st, c, args):
        return read_n(eng, st, args[0], K(n), wrap_to(eng, n, signed))
    return f


for _n in (8, 16, 32, 64):
    TABLE[B + "read_u%d" % _n] = _mk_read(_n, False)
    TABLE[B + "read_i%d" % _n] = _mk_read(_n, True)


@model(B + "read_f32")
def m_read_f32(eng, st, c, args):
    return read_n(eng, st, args[0], K(32), lambda s, a: Fv(("fbits", 32, a)))


@model(B + "read_f64")
def m_read_f64(eng, st, c, args):
    return read_n(eng, st, args[0], K(64), lambda s, a: Fv(("fbits", 64, a)))


@model(B + "read_bit")
def m_read_bit(eng, st, c, args):
    return read_n(eng, st, args[0], K(1), lambda s, a: bv(c_eq(a, ONE)))


@model(B + "refill_lookahead")
def m_refill(eng, st, c, args):
    r = rdr(eng, st, args[0])
    rem = r.tot - r.pos
    la = atom(("la", r.base, r.pos, r.tot), 0, 63)
    (aid, _), = la.t
    LAREM[aid] = rem
    st.assume(c_le(la, rem))
    eng.write(st, args[0], RdrV(r.base, r.pos, r.tot, la, (rem, ZERO)))
    return la


@model(B + "lookahead_bits")
def m_la(eng, st, c, args):
    r = rdr(eng, st, args[0])
    if r.la is None:
        return atom(("la?", eng.fresh()), 0, 64)
    return r.la - r.rf[1]


def look_ok(eng, st, r, n, what):
    """n more bits are available in the lookahead buffer"""
    if r.rf is None:
        return oblige(eng, st, what, c_le(n, ZERO))
    need = n + r.rf[1]
    return oblige(eng, st, what, c_and(c_le(need, K(56)), c_le(need, r.rf[0])))


@model(B + "peek")
def m_peek(eng, st, c, args):
    out = []
    for x, n in concretise(eng, st, args[1]):
        r = rdr(eng, x, args[0])
        good, bad = look_ok(eng, x, r, n, "peek:lookahead")
        out += bad
        if good is not None:
            out.append((good, rd_sym(eng, good, r, n)))
    return out


def rd_sym(eng, st, r, n):
    n = st.norm(n)
    a = rd_atom(r.base, st.norm(r.pos), n)
    if not n.is_const():
        st.assume(c_lt(a, eng.pow2(st, n)))
    return a


@model(B + "consume")
def m_consume(eng, st, c, args):
    out = []
    for x, n in concretise(eng, st, args[1]):
        r = rdr(eng, x, args[0])
        good, bad = look_ok(eng, x, r, n, "consume:lookahead")
        out += bad
        if good is not None:
            rf = (r.rf[0], r.rf[1] + n) if r.rf else None
            eng.write(good, args[0], RdrV(r.base, r.pos + n, r.tot, r.la, rf))
            out.append((good, UNIT))
    return out


@model(B + "has_bits_remaining")
def m_has(eng, st, c, args):
    r = rdr(eng, st, args[0])
    return bv(c_le(args[1], r.tot - r.pos))


@model(B + "is_empty")
def m_empty(eng, st, c, args):
    r = rdr(eng, st, args[0])
    st.assume(c_le(r.pos, r.tot))
    return bv(c_le(r.tot - r.pos, ZERO))


@model(B + "bits_remaining")
def m_remaining(eng, st, c, args):
    r = rdr(eng, st, args[0])
    return some(r.tot - r.pos)


@model(B + "unbuffered_bytes_remaining", B + "bytes_remaining")
def m_unbuf(eng, st, c, args):
    r = rdr(eng, st, args[0])
    rem = r.tot - r.pos
    ub = atom(("ub", r.base, r.pos, r.tot), 0, 1 << 61)
    st.assume(c_le(ub.scale(8), rem))
    return ub


@model(B + "read_bytes")
def m_read_bytes(eng, st, c, args):
    r = rdr(eng, st, args[0])
    s = as_slice(eng, st, args[1])
    n = s.hi - s.lo
    out = []
    for t, x in fork(eng, st, c_le(r.pos + n.scale(8), r.tot)):
        if t:
            v = eng.read(x, s.base)
            nk = ("reg", v.k, x.norm(s.lo), x.norm(n), r.base, x.norm(r.pos))
            eng.write(x, s.base, VecV(nk, v.len, v.ety))
            eng.write(x, args[0], RdrV(r.base, r.pos + n.scale(8), r.tot, None, None))
            out.append((x, TRUE))
        else:
            eng.write(x, args[0], RdrV(r.base, r.pos, r.tot, None, None))
            out.append((x, FALSE))
    return out


# ------------------------------------------------------------------ slices
def as_slice(eng, st, v):
    if isinstance(v, Slice):
        return v
    if isinstance(v, Ptr):
        x = eng.read(st, v)
        if isinstance(x, VecV):
            return Slice(v, ZERO, x.len)
        if isinstance(x, (Ptr, Slice)):
            return as_slice(eng, st, x)
    if isinstance(v, VecV):
        return Slice(Ptr(("const", v), ()), ZERO, v.len)
    raise GiveUp("slice of %s" % type(v).__name__)


def copied(eng, k, n):
    """the input bytes a loop copied into a vector with content k"""
    s = eng.copies.get(k)
    return k if s is None else ("bits", s[0], s[1], n)


def byte_run(st, vs):
    """(base, position) when the values are consecutive bytes of the input"""
    base = pos = None
    for i, e in enumerate(vs):
        if not (isinstance(e, Lin) and len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1):
            return None
        k = ATOMS[e.t[0][0]]
        if k[0] != "rd" or k[3] != 8:
            return None
        if pos is None:
            base, pos = k[1], k[2]
        elif k[1] != base or st.norm(k[2] - pos - 8 * i) != ZERO:
            return None
    return None if pos is None else (base, pos)


def content(eng, st, v):
    """(key of the bytes, number of bytes) of a byte slice"""
    s = as_slice(eng, st, v)
    x = eng.read(st, s.base)
    n = st.norm(s.hi - s.lo)
    lo = st.norm(s.lo)
    k = copied(eng, x.k, x.len)
    while True:
        if k[0] == "bits":
            return ("bits", k[1], st.norm(k[2] + lo.scale(8)), n), n
        if k[0] == "reg":
            if k[2] == lo and k[3] == n:
                return ("bits", k[4], k[5], n), n
            # a sub-range of the region
            if st.prove_le0(k[2] - lo) and st.prove_le0(lo + n - k[2] - k[3]):
                return ("bits", k[4], k[5] + (lo - k[2]).scale(8), n), n
            # region does not overlap
            if st.prove_le0(k[2] + k[3] - lo) or st.prove_le0(lo + n - k[2]):
                k = k[1]
                continue
            break
        if k[0] == "from":
            k, lo = k[1], lo + k[2]
            continue
        break
    if k[0] == "const":
        cm = k[1]
        if lo.is_const() and n.is_const():
            return ("c", cm.raw()[lo.c:lo.c + n.c]), n
    if k[0] == "lit" and lo.is_const() and n.is_const():
        vs = k[1][lo.c:lo.c + n.c]
        if all(isinstance(e, Lin) and e.is_const() for e in vs):
            return ("c", bytes(e.c for e in vs)), n
        run = byte_run(st, vs)
        if run is not None:
            return ("bits", run[0], run[1], n), n
    return ("mem", k, lo, n), n


@model("core::slice::len", "std::vec::Vec::len")
def m_len(eng, st, c, args):
    if isinstance(args[0], Slice):
        return args[0].hi - args[0].lo
    return vec_at(eng, st, args[0]).len


@model("core::slice::is_empty", "std::vec::Vec::is_empty")
def m_isempty(eng, st, c, args):
    return bv(c_eq(m_len(eng, st, c, args), ZERO))


def vec_at(eng, st, p):
    v = eng.read(st, p)
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if not isinstance(v, VecV):
        raise GiveUp("vector is %s" % type(v).__name__)
    return v


def elem_ptr(s, i):
    return Ptr(s.base.cell, s.base.path + (("i", s.lo + i),))


RANGES = ("std::ops::Range", "std::ops::RangeTo", "std::ops::RangeFrom", "std::ops::RangeFull", "std::ops::RangeInclusive",
          "std::ops::RangeToInclusive")


def range_bounds(eng, st, r, n):
    nm = r.name.rsplit("::", 1)[-1]
    if nm == "Range":
        return r.fields[0], r.fields[1]
    if nm == "RangeTo":
        return ZERO, r.fields[0]
    if nm == "RangeFrom":
        return r.fields[0], n
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeToInclusive":
        return ZERO, r.fields[0] + 1
    if nm == "RangeInclusive":
        return r.fields[0], r.fields[1] + 1
    raise GiveUp("range %s" % r.name)


def in_range(eng, st, s, idx):
    """(condition, resulting pointer or slice)"""
    n = s.hi - s.lo
    if isinstance(idx, Lin):
        return c_lt(idx, n), elem_ptr(s, idx)
    if isinstance(idx, Agg) and isinstance(idx.name, str) and "ops::" in idx.name and "Range" in idx.name:
        a, b = range_bounds(eng, st, idx, n)
        return c_and(c_le(a, b), c_le(b, n)), Slice(s.base, s.lo + a, s.lo + b)
    raise GiveUp("index by %r" % (idx,))


@model("core::slice::get", "core::slice::get_mut")
def m_get(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    cond, r = in_range(eng, st, s, args[1])
    return [(x, some(r) if t else NONE) for t, x in fork(eng, st, cond)]


@model("core::slice::index::index", "core::slice::index::index_mut", "<std::vec::Vec as std::ops::Index>::index",
       "<std::vec::Vec as std::ops::IndexMut>::index_mut", "core::array::index", "core::array::index_mut")
def m_index(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    cond, r = in_range(eng, st, s, args[1])
    return [(x, r) if t else (eng.panic(x, "index", cond), None) for t, x in fork(eng, st, cond)]


@model("core::slice::first")
def m_first(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    return [(x, some(elem_ptr(s, ZERO)) if t else NONE) for t, x in fork(eng, st, c_lt(ZERO, s.hi - s.lo))]


@model("core::slice::last", "core::slice::last_mut")
def m_last(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    return [(x, some(elem_ptr(s, s.hi - s.lo - 1)) if t else NONE) for t, x in fork(eng, st, c_lt(ZERO, s.hi - s.lo))]


@model("core::slice::split_first", "core::slice::split_last")
def m_split_first(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    first = c.name.endswith("split_first")
    out = []
    for t, x in fork(eng, st, c_lt(ZERO, s.hi - s.lo)):
        if t:
            a = (elem_ptr(s, ZERO), Slice(s.base, s.lo + 1, s.hi)) if first else (elem_ptr(s, s.hi - s.lo - 1), Slice(s.base, s.lo, s.hi - 1))
            out.append((x, some(Agg("()", 0, a))))
        else:
            out.append((x, NONE))
    return out


@model("core::slice::split_at_checked")
def m_split_at_checked(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    n = args[1]
    m = s.lo + n
    return [(x, some(Agg("()", 0, (Slice(s.base, s.lo, m), Slice(s.base, m, s.hi)))) if t else NONE)
            for t, x in fork(eng, st, c_le(n, s.hi - s.lo))]


@model("core::slice::split_at")
def m_split_at(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    n = args[1]
    m = s.lo + n
    cond = c_le(n, s.hi - s.lo)
    return [(x, Agg("()", 0, (Slice(s.base, s.lo, m), Slice(s.base, m, s.hi)))) if t else (eng.panic(x, "split_at", cond), None)
            for t, x in fork(eng, st, cond)]


def const_arg(eng, c):
    """value of the const generic parameter: taken from the array type in the return type"""
    P = eng.P
    nm = P.insts[c.inst]["name"] if c.inst is not None else ""
    import re
    m = re.search(r"::<(\d+)>$", nm)
    if m:
        return int(m.group(1))
    raise GiveUp("const generic of %s" % nm)


def sub_array(eng, st, s, off, n):
    v = eng.read(st, s.base)
    return Ptr(("const", VecV(("from", v.k, st.norm(s.lo + off)), K(n), v.ety)), ())


@model("core::slice::split_first_chunk", "core::slice::first_chunk")
def m_sfc(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    n = const_arg(eng, c)
    out = []
    for t, x in fork(eng, st, c_le(K(n), s.hi - s.lo)):
        if t:
            a = sub_array(eng, x, s, ZERO, n)
            if c.name.endswith("split_first_chunk"):
                a = Agg("()", 0, (a, Slice(s.base, s.lo + n, s.hi)))
            out.append((x, some(a)))
        else:
            out.append((x, NONE))
    return out


@model("core::slice::iter", "core::slice::iter_mut")
def m_iter(eng, st, c, args):
    return IterV("slice", (as_slice(eng, st, args[0]), ZERO))


@model("core::slice::chunks_exact")
def m_chunks_exact(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    good, bad = oblige(eng, st, "chunks_exact:zero", c_lt(ZERO, args[1]))
    if good is None:
        return bad
    return bad + [(good, IterV("chunks", (s, args[1], ZERO)))]


@model("core::slice::chunks")
def m_chunks(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    good, bad = oblige(eng, st, "chunks:zero", c_lt(ZERO, args[1]))
    if good is None:
        return bad
    return bad + [(good, IterV("chunksany", (s, args[1], ZERO)))]


@model("std::slice::ChunksExact::remainder", "std::slice::ChunksExact::into_remainder")
def m_chunks_rem(eng, st, c, args):
    it = args[0]
    while isinstance(it, Ptr):
        it = eng.read(st, it)
    if not isinstance(it, IterV) or it.kind != "chunks" or not it.a[1].is_const() or it.a[1].c <= 0:
        raise GiveUp("remainder of chunks")
    s, n, i = it.a
    total = st.norm(s.hi - s.lo + i.scale(n.c))
    r = eng.binop(st, "Rem", total, n, eng.P.usize)
    return Slice(s.base, s.hi - r, s.hi)


@model("core::num::to_le_bytes", "core::num::to_be_bytes", "core::num::to_ne_bytes")
def m_to_bytes(eng, st, c, args):
    P = eng.P
    t = P.insts[c.inst]["body"]["locals"][1]
    w = P.kind(t)[2]
    bs = [eng.binop(st, "BitAnd", eng.binop(st, "Shr", args[0], K(8 * i), t), K(255), t) for i in range(w // 8)]
    if P.kind(t)[1] or any(st.bounds(b)[0] < 0 for b in bs):
        raise GiveUp("bytes of a signed number")
    if c.name.endswith("be_bytes"):
        bs.reverse()
    rt = P.insts[c.inst]["body"]["locals"][0]
    return VecV(("lit", tuple(bs)), K(len(bs)), P.kind(rt)[1])


@model("std::slice::to_vec", "core::slice::to_vec")
def m_to_vec(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    v = eng.read(st, s.base)
    lo = st.norm(s.lo)
    n = st.norm(s.hi - s.lo)
    if v.ety is not None and eng.P.kind(v.ety)[0] == "int" and eng.P.kind(v.ety)[2] == 8:
        k, n = content(eng, st, s)
        if k[0] == "mem":
            k = ("from", k[1], k[2]) if k[2] != ZERO else k[1]
        return VecV(k, n, v.ety)
    if lo == ZERO and n == st.norm(v.len):
        return v
    return VecV(("from", v.k, lo), n, v.ety)


@model("<std::vec::Vec as std::convert::From>::from", "std::slice::into_vec")
def m_vec_from(eng, st, c, args):
    if isinstance(args[0], (VecV,)):
        return args[0]
    if isinstance(args[0], BoxV):
        return args[0].v
    return m_to_vec(eng, st, c, args)


# ------------------------------------------------------------------ Vec
@model("std::vec::Vec::new", "<std::vec::Vec as std::default::Default>::default")
def m_vnew(eng, st, c, args):
    return VecV(("lit", ()), ZERO, c.targs[0] if c.targs else None)


@model("std::vec::Vec::with_capacity")
def m_vcap(eng, st, c, args):
    st.emit("alloc", args[0], eng.where(st), c.targs[0] if c.targs else None)
    return VecV(("lit", ()), ZERO, c.targs[0] if c.targs else None)


@model("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact", "std::string::String::reserve")
def m_vres(eng, st, c, args):
    st.emit("alloc", args[1], eng.where(st), c.targs[0] if c.targs else None)
    return UNIT


@model("std::vec::Vec::shrink_to_fit")
def m_shrink(eng, st, c, args):
    return UNIT


def vpush(st, v, x):
    n = st.norm(v.len)
    if v.k[0] == "lit" and n.is_const() and len(v.k[1]) == n.c:
        return VecV(("lit", v.k[1] + (x,)), n + 1, v.ety)
    return VecV(("push", v.k, n, x), n + 1, v.ety)


@model("std::vec::Vec::push")
def m_push(eng, st, c, args):
    v = vec_at(eng, st, args[0])
    eng.write(st, args[0], vpush(st, v, args[1]))
    return UNIT


@model("std::vec::Vec::pop")
def m_pop(eng, st, c, args):
    out = []
    for t, x in fork(eng, st, c_lt(ZERO, vec_at(eng, st, args[0]).len)):
        v = vec_at(eng, x, args[0])
        if not t:
            out.append((x, NONE))
            continue
        e = eng.elem(x, v, v.len - 1)
        if v.k[0] == "push":
            nv = VecV(v.k[1], v.len - 1, v.ety)
        elif v.k[0] == "lit":
            nv = VecV(("lit", v.k[1][:-1]), v.len - 1, v.ety)
        else:
            nv = VecV(v.k, v.len - 1, v.ety)
        eng.write(x, args[0], nv)
        out.append((x, some(e)))
    return out


@model("std::vec::Vec::clear")
def m_clear(eng, st, c, args):
    v = vec_at(eng, st, args[0])
    eng.write(st, args[0], VecV(("lit", ()), ZERO, v.ety))
    return UNIT


@model("std::vec::Vec::truncate")
def m_trunc(eng, st, c, args):
    out = []
    for t, x in fork(eng, st, c_lt(args[1], vec_at(eng, st, args[0]).len)):
        v = vec_at(eng, x, args[0])
        if t:
            k = ("lit", v.k[1][:args[1].c]) if v.k[0] == "lit" and args[1].is_const() else v.k
            eng.write(x, args[0], VecV(k, args[1], v.ety))
        out.append((x, UNIT))
    return out


@model("<std::vec::Vec as std::ops::Deref>::deref", "<std::vec::Vec as std::ops::DerefMut>::deref_mut", "std::vec::Vec::as_slice",
       "std::vec::Vec::as_mut_slice", "<std::vec::Vec as std::convert::AsRef>::as_ref", "<std::vec::Vec as std::borrow::Borrow>::borrow")
def m_vderef(eng, st, c, args):
    return as_slice(eng, st, args[0])


@model("std::vec::from_elem")
def m_from_elem(eng, st, c, args):
    st.emit("alloc", args[1], eng.where(st), c.targs[0] if c.targs else None)
    return VecV(("rep", args[0]), args[1], c.targs[0] if c.targs else None)


@model("std::vec::Vec::resize_with")
def m_resize_with(eng, st, c, args):
    v = vec_at(eng, st, args[0])
    n = args[1]
    st.emit("alloc", n, eng.where(st), c.targs[0] if c.targs else None)
    if st.ev_cond(c_eq(v.len, ZERO)) is not True:
        raise GiveUp("resize_with of a non-empty vector")
    cell = ("rs", eng.fresh())
    st.cells[cell] = UNDEF
    return ("push", RESIZE, [args[0], args[2], n], "resize_with")


def _resize_py(eng, st, a):
    v = vec_at(eng, st, a[0])
    eng.write(st, a[0], VecV(("rep", a[2]), a[1], v.ety))
    return UNIT


@model("std::vec::Vec::resize")
def m_resize(eng, st, c, args):
    v = vec_at(eng, st, args[0])
    st.emit("alloc", args[1], eng.where(st), c.targs[0] if c.targs else None)
    if st.ev_cond(c_eq(v.len, ZERO)) is not True:
        raise GiveUp("resize of a non-empty vector")
    eng.write(st, args[0], VecV(("rep", args[2]), args[1], v.ety))
    return UNIT


@model("std::vec::Vec::drain")
def m_drain(eng, st, c, args):
    v = vec_at(eng, st, args[0])
    a, b = range_bounds(eng, st, args[1], v.len)
    if st.ev_cond(c_eq(a, ZERO)) is True and st.ev_cond(c_eq(b, v.len)) is True:
        eng.write(st, args[0], VecV(("lit", ()), ZERO, v.ety))
        return IterV("vec", (v, ZERO))
    raise GiveUp("partial drain")


@model("<std::vec::Vec as std::iter::Extend>::extend", "std::vec::Vec::extend_from_slice")
def m_extend(eng, st, c, args):
    it = args[1]
    v = vec_at(eng, st, args[0])
    if isinstance(it, (Slice, Ptr)):
        s = as_slice(eng, st, it)
        src = eng.read(st, s.base)
        n = st.norm(s.hi - s.lo)
        if st.ev_cond(c_eq(v.len, ZERO)) is True:
            eng.write(st, args[0], m_to_vec(eng, st, c, [it]))
            return UNIT
        it = IterV("copied", (IterV("slice", (s, ZERO)),))
    if isinstance(it, VecV):
        it = IterV("vec", (it, ZERO))
    cell = ("it", eng.fresh())
    st.cells[cell] = it
    return ("push", EXTEND, [Ptr(cell, ()), args[0]], "Vec::extend")


@model("std::mem::take")
def m_take(eng, st, c, args):
    v = eng.read(st, args[0])
    if isinstance(v, VecV):
        eng.write(st, args[0], VecV(("lit", ()), ZERO, v.ety))
        return v
    return NotImplemented


@model("std::mem::swap")
def m_swap(eng, st, c, args):
    a, b = eng.read(st, args[0]), eng.read(st, args[1])
    eng.write(st, args[0], b)
    eng.write(st, args[1], a)
    return UNIT


@model("std::mem::replace")
def m_replace(eng, st, c, args):
    a = eng.read(st, args[0])
    eng.write(st, args[0], args[1])
    return a


@model("std::option::Option::take")
def m_otake(eng, st, c, args):
    a = eng.read(st, args[0])
    eng.write(st, args[0], NONE)
    return a


@model("std::mem::size_of")
def m_size_of(eng, st, c, args):
    return K(eng.P.size(c.targs[0]))


# ------------------------------------------------------------------ boxes
@model("std::boxed::Box::new", "std::boxed::convert::from")
def m_box(eng, st, c, args):
    return BoxV(args[0])


# ------------------------------------------------------------------ strings
def strval(eng, st, v):
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if isinstance(v, StrV):
        return v
    if isinstance(v, Agg) and len(v.fields) == 1:
        return strval(eng, st, v.fields[0])
    raise GiveUp("string is %s" % type(v).__name__)


def strlen(v):
    return str_len(v)


def str_len(v):
    if v.k[0] == "c":
        return K(len(v.k[1]))
    if v.k[0] == "utf8":
        n = v.k[1]
        return n[3] if n[0] in ("mem", "bits") else K(len(n[1]))
    return atom(("strlen", v.k), 0, (1 << 63) - 1)


@model("core::str::len", "std::string::String::len")
def m_strlen(eng, st, c, args):
    return str_len(strval(eng, st, args[0]))


@model("core::str::is_empty", "std::string::String::is_empty")
def m_strempty(eng, st, c, args):
    return bv(c_eq(str_len(strval(eng, st, args[0])), ZERO))


@model("std::string::String::as_str", "<std::string::String as std::ops::Deref>::deref", "<std::string::String as std::borrow::Borrow>::borrow",
       "<std::string::String as std::convert::AsRef>::as_ref", "<std::string::String as std::clone::Clone>::clone",
       "<std::string::String as std::convert::From>::from", "core::str::to_string", "<T as std::string::ToString>::to_string",
       "std::str::to_owned", "<std::string::String as std::borrow::ToOwned>::to_owned", "<str as std::borrow::ToOwned>::to_owned", "<str as std::string::ToString>::to_string",
       "<T as std::convert::Into>::into::str", "std::borrow::Cow::into_owned", "<std::borrow::Cow as std::ops::Deref>::deref",
       "std::str::into_string", "std::string::convert::from", "std::string::from", "std::str::to_string", "std::string::String::into_boxed_str", "std::str::borrow::to_owned")
def m_strid(eng, st, c, args):
    return strval(eng, st, args[0])


@model("<T as std::borrow::ToOwned>::to_owned", "<T as std::borrow::ToOwned>::clone_into")
def m_toowned(eng, st, c, args):
    if c.name.endswith("clone_into"):
        raise GiveUp("clone_into")
    v = args[0]
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    return v


@model("std::string::String::new", "<std::string::String as std::default::Default>::default")
def m_strnew(eng, st, c, args):
    return StrV(("c", b""))


@model("std::string::String::with_capacity")
def m_strcap(eng, st, c, args):
    st.emit("alloc", args[0], eng.where(st), None)
    return StrV(("c", b""))


@model("core::str::as_bytes", "std::string::String::as_bytes")
def m_asbytes(eng, st, c, args):
    s = strval(eng, st, args[0])
    v = VecV(("strbytes", s.k), str_len(s), eng.u8())
    if s.k[0] == "c":
        v = VecV(("lit", tuple(K(b) for b in s.k[1])), K(len(s.k[1])), eng.u8())
    return Slice(Ptr(("const", v), ()), ZERO, v.len)


@model("core::str::traits::eq", "<std::string::String as std::cmp::PartialEq>::eq", "std::string::impls::eq", "core::str::eq")
def m_streq(eng, st, c, args):
    a, b = strval(eng, st, args[0]), strval(eng, st, args[1])
    return bv(seq_cond(a.k, b.k))


@model("core::str::traits::ne", "<std::string::String as std::cmp::PartialEq>::ne", "std::string::impls::ne")
def m_strne(eng, st, c, args):
    a, b = strval(eng, st, args[0]), strval(eng, st, args[1])
    return bv(c_not(seq_cond(a.k, b.k)))


def list_eq(eng, st, a, b):
    """[(condition, state)] under which two sequences are equal"""
    def seq(v):
        while isinstance(v, Ptr):
            x = eng.read(st, v)
            if isinstance(x, Agg) and x.name in ("[]", "array"):
                return VecV(("lit", tuple(x.fields)), K(len(x.fields)), None), ZERO, K(len(x.fields))
            if isinstance(x, VecV):
                return x, ZERO, x.len
            v = x
        if isinstance(v, Agg) and v.name in ("[]", "array"):
            return VecV(("lit", tuple(v.fields)), K(len(v.fields)), None), ZERO, K(len(v.fields))
        if isinstance(v, Slice):
            return eng.read(st, v.base), v.lo, v.hi
        if isinstance(v, VecV):
            return v, ZERO, v.len
        raise GiveUp("comparison of %s" % type(v).__name__)
    (va, la, ha), (vb, lb, hb) = seq(a), seq(b)
    n, m = st.norm(ha - la), st.norm(hb - lb)
    if n == m and va == vb and st.norm(la - lb) == ZERO:
        return True
    c = c_eq(n, m)
    size = n if n.is_const() else m if m.is_const() else None
    if size is not None and size.c == 0:
        return c
    if size is not None and size.c <= 16:
        for i in range(size.c):
            c = c_and(c, val_eq(st, eng.elem(st, va, la + K(i)), eng.elem(st, vb, lb + K(i))))
        return c
    return c_and(c, ("op", ("listeq", va.k if isinstance(va, VecV) else va, la, vb.k if isinstance(vb, VecV) else vb, lb, n)))


@model("std::vec::partial_eq::eq", "core::slice::cmp::eq", "core::array::equality::eq", "std::array::equality::eq", "std::slice::cmp::eq")
def m_listeq(eng, st, c, args):
    return bv(list_eq(eng, st, args[0], args[1]))


@model("std::vec::partial_eq::ne", "core::slice::cmp::ne", "core::array::equality::ne", "std::array::equality::ne", "std::slice::cmp::ne")
def m_listne(eng, st, c, args):
    return bv(c_not(list_eq(eng, st, args[0], args[1])))


def str_cmp(eng, a, b):
    if a.k[0] == "c" and b.k[0] == "c":
        return Agg("std::cmp::Ordering", 0 if a.k[1] < b.k[1] else 1 if a.k[1] == b.k[1] else 2, ())
    return Sym(("scmp", a.k, b.k), eng.ordering_ty())


@model("core::str::traits::partial_cmp")
def m_strpcmp(eng, st, c, args):
    return some(str_cmp(eng, strval(eng, st, args[0]), strval(eng, st, args[1])))


@model("core::str::traits::cmp")
def m_strcmp(eng, st, c, args):
    return str_cmp(eng, strval(eng, st, args[0]), strval(eng, st, args[1]))


def pat_const(eng, st, p):
    if isinstance(p, Lin) and st.norm(p).is_const():
        return chr(st.norm(p).c).encode()
    s = strval(eng, st, p)
    if s.k[0] == "c":
        return s.k[1]
    raise GiveUp("non-constant pattern")


def k_bytes(st, k):
    return st.strconst(k)


def pat_any(eng, st, p):
    """a constant pattern, or the identity of a text that is not known"""
    try:
        return pat_const(eng, st, p)
    except GiveUp:
        s = strval(eng, st, p)
        return k_bytes(st, s.k) or s.k


def starts(st, k, pre):
    b = k_bytes(st, k)
    if pre == k:
        return True
    if b is not None and isinstance(pre, bytes):
        return b.startswith(pre)
    return ("op", ("starts", k, pre))


@model("core::str::starts_with")
def m_starts(eng, st, c, args):
    return bv(starts(st, strval(eng, st, args[0]).k, pat_any(eng, st, args[1])))


@model("core::str::ends_with")
def m_ends(eng, st, c, args):
    k = strval(eng, st, args[0]).k
    p = pat_any(eng, st, args[1])
    b = k_bytes(st, k)
    if p == k:
        return bv(True)
    return bv(b.endswith(p) if b is not None and isinstance(p, bytes) else ("op", ("ends", k, p)))


@model("core::str::eq_ignore_ascii_case")
def m_ieq(eng, st, c, args):
    a, b = strval(eng, st, args[0]).k, strval(eng, st, args[1]).k
    x, y = k_bytes(st, a), k_bytes(st, b)
    if x is not None and y is not None:
        return bv(x.lower() == y.lower())
    return bv(("op", ("sieq", a, b)))


@model("core::str::trim", "core::str::trim_start", "core::str::trim_end")
def m_trim(eng, st, c, args):
    k = strval(eng, st, args[0]).k
    how = c.name.rsplit("::", 1)[-1]
    b = k_bytes(st, k)
    if b is not None and b.isascii():
        return StrV(("c", b.strip() if how == "trim" else b.lstrip() if how == "trim_start" else b.rstrip()))
    return StrV((how, k))


@model("std::str::to_ascii_lowercase", "std::str::to_ascii_uppercase", "core::str::to_ascii_lowercase", "core::str::to_ascii_uppercase", "core::str::to_lowercase", "core::str::to_uppercase",
       "std::str::to_lowercase", "std::str::to_uppercase")
def m_tocase(eng, st, c, args):
    k = strval(eng, st, args[0]).k
    how = c.name.rsplit("::", 1)[-1]
    b = k_bytes(st, k)
    if b is not None and b.isascii():
        return StrV(("c", b.lower() if "lower" in how else b.upper()))
    return StrV((how, k))


@model("core::str::chars")
def m_chars(eng, st, c, args):
    return IterV("chars", (strval(eng, st, args[0]),))


@model("core::str::contains")
def m_contains(eng, st, c, args):
    k = strval(eng, st, args[0]).k
    p = pat_const(eng, st, args[1])
    b = k_bytes(st, k)
    return bv(p in b if b is not None else ("op", ("contains", k, p)))


@model("core::str::strip_prefix")
def m_strip_prefix(eng, st, c, args):
    s = strval(eng, st, args[0])
    p = pat_const(eng, st, args[1])
    out = []
    for t, x in fork(eng, st, starts(st, s.k, p)):
        b = k_bytes(x, s.k)
        out.append((x, some(StrV(("c", b[len(p):]) if b is not None else ("strip", s.k, p))) if t else NONE))
    return out


@model("core::str::split_once", "core::str::rsplit_once")
def m_split_once(eng, st, c, args):
    s = strval(eng, st, args[0])
    p = pat_const(eng, st, args[1])
    r = c.name.endswith("rsplit_once")
    b = k_bytes(st, s.k)
    if b is not None:
        if p not in b:
            return NONE
        x, y = (b.rsplit(p, 1) if r else b.split(p, 1))
        return some(Agg("()", 0, (StrV(("c", x)), StrV(("c", y)))))
    nm = "rsplit" if r else "split"
    return [(x, some(Agg("()", 0, (StrV((nm + "0", s.k, p)), StrV((nm + "1", s.k, p))))) if t else NONE)
            for t, x in fork(eng, st, ("op", ("contains", s.k, p)))]


@model("std::str::from_utf8", "core::str::converts::from_utf8")
def m_utf8(eng, st, c, args):
    k, n = content(eng, st, args[0])
    if k[0] == "c":
        try:
            k[1].decode("utf8")
            return ok(StrV(("c", k[1])))
        except UnicodeDecodeError:
            pass
    if st.norm(n) == ZERO:
        return ok(StrV(("c", b"")))
    return [(x, ok(StrV(("utf8", k))) if t else err(Sym(("utf8err", k), eng.utf8err_ty(c))))
            for t, x in fork(eng, st, ("op", ("utf8ok", k)))]


@model("std::char::methods::from_u32", "std::char::from_u32", "core::char::from_u32", "std::char::convert::from_u32", "core::char::methods::from_u32")
def m_from_u32(eng, st, c, args):
    out = []
    for t, x in fork(eng, st, c_lt(args[0], K(0xd800))):
        if t:
            out.append((x, some(args[0])))
            continue
        for t2, y in fork(eng, x, c_lt(K(0xdfff), args[0])):
            for t3, z in (fork(eng, y, c_le(args[0], K(0x10ffff))) if t2 else [(False, y)]):
                out.append((z, some(args[0]) if t3 else NONE))
    return out


@model("std::str::Utf8Error::valid_up_to", "std::str::Utf8Error::error_len")
def m_utf8error(eng, st, c, args):
    e = args[0]
    while isinstance(e, Ptr):
        e = eng.read(st, e)
    if not (isinstance(e, Sym) and e.k[0] == "utf8err"):
        raise GiveUp(c.name)
    if c.name.endswith("valid_up_to"):
        k = e.k[1]
        n = k[3] if k[0] in ("bits", "mem") and isinstance(k[3], Lin) else None
        v = atom(("validupto", k), 0, (1 << 62))
        if n is not None:
            st.assume(c_lt(v, n))
        return v
    has = ("op", ("utf8errlen", e.k[1]))
    return [(x, some(atom(("utf8errlen", e.k[1]), 1, 3)) if t else NONE) for t, x in fork(eng, st, has)]


@model("core::slice::ascii::is_ascii", "core::slice::is_ascii", "core::str::is_ascii", "std::str::is_ascii")
def m_is_ascii(eng, st, c, args):
    if "slice" in c.name:
        k, n = content(eng, st, args[0])
    else:
        k = strval(eng, st, args[0]).k
        n = None
    if k[0] == "c":
        return bv(all(b < 128 for b in k[1]))
    if n is not None and st.norm(n) == ZERO:
        return bv(True)
    return bv(("op", ("isascii", k)))


@model("std::string::String::from_utf8")
def m_sutf8(eng, st, c, args):
    r = m_utf8(eng, st, c, args)
    return r


@model("<bool as std::default::Default>::default")
def m_defbool(eng, st, c, args):
    return bv(False)


@model(*["<%s as std::default::Default>::default" % t for t in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "char")])
def m_defint(eng, st, c, args):
    return ZERO


@model("<std::option::Option as std::default::Default>::default")
def m_defopt(eng, st, c, args):
    return NONE


@model("<&str as std::default::Default>::default", "<str as std::default::Default>::default")
def m_defstr(eng, st, c, args):
    return StrV(("c", b""))


@model("std::string::String::push")
def m_spush(eng, st, c, args):
    s = strval(eng, st, args[0])
    ch = st.norm(args[1])
    if s.k[0] == "c" and ch.is_const():
        eng.write(st, args[0], StrV(("c", s.k[1] + chr(ch.c).encode())))
    else:
        eng.write(st, args[0], StrV(("spush", s.k, ch)))
    return UNIT


@model("std::string::String::push_str")
def m_spushstr(eng, st, c, args):
    s = strval(eng, st, args[0])
    t = strval(eng, st, args[1])
    if s.k[0] == "c" and t.k[0] == "c":
        eng.write(st, args[0], StrV(("c", s.k[1] + t.k[1])))
    elif s.k == ("c", b""):
        eng.write(st, args[0], t)
    else:
        eng.write(st, args[0], StrV(("scat", s.k, t.k)))
    return UNIT


@model("std::string::String::truncate", "std::string::String::pop")
def m_strunc(eng, st, c, args):
    raise GiveUp(c.name)


@model("encoding_rs::Encoding::decode_without_bom_handling", "encoding_rs::Encoding::decode", "encoding_rs::Encoding::decode_with_bom_removal")
def m_enc(eng, st, c, args):
    k, n = content(eng, st, args[1])
    e = args[0]
    nm = eng.enc_name(st, e)
    how = c.name.rsplit("::", 1)[-1]
    v = StrV(("dec", nm, how, k))
    bad = Bv(("op", ("decbad", nm, k)))
    if how == "decode_without_bom_handling":
        return Agg("()", 0, (v, bad))
    return Agg("()", 0, (v, Sym(("encoding", nm), None), bad))


# ------------------------------------------------------------------ phf
@model("phf::Map::get")
def m_phf(eng, st, c, args):
    m = args[0]
    s = strval(eng, st, args[1])
    if not (isinstance(m, Ptr) and m.cell[0] == "static"):
        raise GiveUp("phf map")
    tab = eng.phf_table(m.cell[1])
    b = k_bytes(st, s.k)
    if b is not None:
        v = tab.get(b)
        return NONE if v is None else some(Ptr(("const", v), ()))
    vty = c.targs[1]
    has = ("op", ("phfhas", m.cell[1], s.k))
    out = []
    for t, x in fork(eng, st, has):
        out.append((x, some(Ptr(("const", eng.mksym(vty, ("phf", m.cell[1], s.k))), ())) if t else NONE))
    return out


@model("phf::Map::contains_key")
def m_phfc(eng, st, c, args):
    s = strval(eng, st, args[1])
    b = k_bytes(st, s.k)
    if b is not None:
        return bv(b in eng.phf_table(args[0].cell[1]))
    return bv(("op", ("phfhas", args[0].cell[1], s.k)))


# ------------------------------------------------------------------ maps
H = "std::collections::HashMap::"


def map_at(eng, st, p):
    v = eng.read(st, p)
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if not isinstance(v, MapV):
        raise GiveUp("map is %s" % type(v).__name__)
    return v


def keyval(eng, st, k):
    """normalise a key (possibly a reference) to a hashable value"""
    while isinstance(k, Ptr):
        k = eng.read(st, k)
    return knorm(st, k)


def knorm(st, k):
    if isinstance(k, Lin):
        return st.norm(k)
    if isinstance(k, Agg):
        return Agg(k.name, k.variant, tuple(knorm(st, f) for f in k.fields))
    if isinstance(k, StrV):
        b = st.strconst(k.k)
        return StrV(("c", b)) if b is not None else k
    return k


def val_eq(st, a, b):
    """condition a == b for key values"""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return c_eq(a, b)
    if isinstance(a, StrV) and isinstance(b, StrV):
        return seq_cond(a.k, b.k)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name:
        if a.variant != b.variant:
            return False
        c = True
        for x, y in zip(a.fields, b.fields):
            c = c_and(c, val_eq(st, x, y))
        return c
    if isinstance(a, Bv) and isinstance(b, Bv):
        if a.c is True or a.c is False:
            a, b = b, a
        if b.c is True:
            return a.c
        if b.c is False:
            return c_not(a.c)
    if a == b:
        return True
    return ("op", ("keq", a, b))


def has_cond(st, m, key):
    """condition: key is present (searching the insertion chain symbolically)"""
    k = m.k
    c = False
    mask = True        # condition under which the search continues
    while True:
        if k[0] == "empty":
            return c
        if k[0] == "ins":
            e = val_eq(st, k[2], key)
            c = c_or(c, c_and(mask, e))
            if st.ev_cond(e) is True:
                return c
            mask = c_and(mask, c_not(e))
            k = k[1]
            continue
        if k[0] == "rm":
            e = val_eq(st, k[2], key)
            if st.ev_cond(e) is True:
                return c
            mask = c_and(mask, c_not(e))
            k = k[1]
            continue
        if k[0] == "upd":
            k = k[1]
            continue
        return c_or(c, c_and(mask, ("op", ("has", k, key))))


def map_val(eng, st, m, key, vty):
    k = m.k
    while True:
        if k[0] in ("ins", "upd"):
            e = st.ev_cond(val_eq(st, k[2], key))
            if e is True:
                return k[3]
            if e is False:
                k = k[1]
                continue
            raise GiveUp("map lookup with undecided key equality")
        if k[0] == "rm":
            e = st.ev_cond(val_eq(st, k[2], key))
            if e is True:
                raise Infeasible()
            if e is False:
                k = k[1]
                continue
            raise GiveUp("map lookup with undecided key equality")
        if k[0] == "empty":
            raise Infeasible()
        return eng.mksym(vty, ("mapval", k, key))


def map_read(eng, st, v, key, vty):
    return map_val(eng, st, v, key, vty)


def map_write(eng, st, v, key, vty, path, x):
    if path:
        x = eng.upd(st, map_val(eng, st, v, key, vty), path, x)
    k = v.k
    # drop a directly preceding write to the same key
    if k[0] in ("ins", "upd") and st.ev_cond(val_eq(st, k[2], key)) is True:
        return MapV((k[0], k[1], key, x))
    return MapV(("upd", k, key, x))


def undecided_keys(eng, st, m, key):
    """fork on the equalities along the chain so that lookups are decided"""
    k = m.k
    states = [st]
    while k[0] in ("ins", "upd", "rm"):
        nst = []
        for s in states:
            for t, x in fork(eng, s, val_eq(s, k[2], key)):
                nst.append(x)
        states = nst
        k = k[1]
    return states


def real_map_ptr(eng, st, p):
    """follow references to the cell holding the map"""
    while True:
        v = eng.read(st, p)
        if isinstance(v, Ptr):
            p = v
            continue
        return p


@model(H + "new", H + "with_capacity", H + "with_hasher", H + "with_capacity_and_hasher", "<std::collections::HashMap as std::default::Default>::default")
def m_mapnew(eng, st, c, args):
    if "capacity" in c.name:
        st.emit("alloc", args[0], eng.where(st), None)
    return MapV(("empty",))


@model("<std::hash::BuildHasherDefault as std::default::Default>::default")
def m_bh(eng, st, c, args):
    return UNIT


@model(H + "get", H + "get_mut")
def m_mapget(eng, st, c, args):
    p = real_map_ptr(eng, st, args[0])
    key = keyval(eng, st, args[1])
    vty = c.targs[1]
    out = []
    m = map_at(eng, st, p)
    for s in undecided_keys(eng, st, m, key):
        for t, x in fork(eng, s, has_cond(s, m, key)):
            kk = knorm(x, key)
            out.append((x, some(Ptr(p.cell, p.path + (("me", kk, vty),))) if t else NONE))
    return out


@model(H + "contains_key")
def m_mapcontains(eng, st, c, args):
    key = keyval(eng, st, args[1])
    return bv(has_cond(st, map_at(eng, st, args[0]), key))


@model("<std::collections::HashMap as std::ops::Index>::index")
def m_mapindex(eng, st, c, args):
    p = real_map_ptr(eng, st, args[0])
    key = keyval(eng, st, args[1])
    out = []
    m = map_at(eng, st, p)
    for s in undecided_keys(eng, st, m, key):
        cond = has_cond(s, m, key)
        for t, x in fork(eng, s, cond):
            kk = knorm(x, key)
            out.append((x, Ptr(p.cell, p.path + (("me", kk, c.targs[1]),))) if t else (eng.panic(x, "map index", cond), None))
    return out


@model(H + "insert")
def m_mapins(eng, st, c, args):
    p = real_map_ptr(eng, st, args[0])
    key = keyval(eng, st, args[1])
    m = map_at(eng, st, p)
    old = Sym(("mapold", m.k, key, eng.fresh()), eng.opt_ty(c))
    eng.write(st, p, MapV(("ins", m.k, key, args[2])))
    return old


@model(H + "remove")
def m_maprm(eng, st, c, args):
    p = real_map_ptr(eng, st, args[0])
    key = keyval(eng, st, args[1])
    m = map_at(eng, st, p)
    vty = c.targs[1]
    out = []
    for s in undecided_keys(eng, st, m, key):
        for t, x in fork(eng, s, has_cond(s, m, key)):
            v = map_val(eng, x, m, key, vty) if t else None
            eng.write(x, p, MapV(("rm", m.k, key)))
            out.append((x, some(v) if t else NONE))
    return out


@model(H + "clear")
def m_mapclear(eng, st, c, args):
    eng.write(st, real_map_ptr(eng, st, args[0]), MapV(("empty",)))
    return UNIT


@model(H + "len")
def m_maplen(eng, st, c, args):
    m = map_at(eng, st, args[0])
    return ZERO if m.k == ("empty",) else atom(("maplen", m.k), 0, 1 << 60)


@model(H + "is_empty")
def m_mapisempty(eng, st, c, args):
    return bv(c_eq(m_maplen(eng, st, c, args), ZERO))


@model(H + "entry")
def m_entry(eng, st, c, args):
    return IterV("entry", (real_map_ptr(eng, st, args[0]), keyval(eng, st, args[1]), c.targs[1]))


def entry_or(eng, st, e, default):
    p, key, vty = e.a
    out = []
    m = map_at(eng, st, p)
    for s in undecided_keys(eng, st, m, key):
        for t, x in fork(eng, s, has_cond(s, m, key)):
            kk = knorm(x, key)
            if not t:
                eng.write(x, p, MapV(("ins", m.k, kk, default)))
            out.append((x, Ptr(p.cell, p.path + (("me", kk, vty),))))
    return out


@model("std::collections::hash_map::Entry::or_insert")
def m_or_insert(eng, st, c, args):
    return entry_or(eng, st, args[0], args[1])


@model("std::collections::hash_map::Entry::and_modify")
def m_and_modify(eng, st, c, args):
    p, key, vty = args[0].a
    out = []
    m = map_at(eng, st, p)
    for s in undecided_keys(eng, st, m, key):
        for t, x in fork(eng, s, has_cond(s, m, key)):
            kk = knorm(x, key)
            if t:
                out.append((x, ("push", AND_MODIFY, [args[0], args[1], Ptr(p.cell, p.path + (("me", kk, vty),))], "and_modify")))
            else:
                out.append((x, args[0]))
    return out


@model("std::collections::hash_map::Entry::or_default")
def m_or_default(eng, st, c, args):
    e = args[0]
    k = eng.P.kind(e.a[2])
    if k[0] == "adt" and k[1] == "std::vec::Vec":
        d = VecV(("lit", ()), ZERO, k[2][0])
    elif k[0] == "adt" and k[1] == "std::collections::HashMap":
        d = MapV(("empty",))
    elif k[0] == "int":
        d = ZERO
    else:
        raise GiveUp("or_default of %s" % eng.P.tname(e.a[2]))
    return entry_or(eng, st, e, d)


@model("std::collections::hash_map::Entry::or_insert_with")
def m_or_insert_with(eng, st, c, args):
    p, key, vty = args[0].a
    out = []
    m = map_at(eng, st, p)
    for s in undecided_keys(eng, st, m, key):
        for t, x in fork(eng, s, has_cond(s, m, key)):
            kk = knorm(x, key)
            if t:
                out.append((x, Ptr(p.cell, p.path + (("me", kk, vty),))))
            else:
                out.append((x, ("push", OR_INSERT_WITH, [args[0], args[1]], "or_insert_with")))
    return out


def _or_insert_py(eng, st, a):
    p, key, vty = a[0].a
    m = map_at(eng, st, p)
    eng.write(st, p, MapV(("ins", m.k, key, a[1])))
    return Ptr(p.cell, p.path + (("me", key, vty),))


@model(H + "iter", H + "iter_mut")
def m_mapiter(eng, st, c, args):
    p = real_map_ptr(eng, st, args[0])
    return IterV("mapref", (p, ZERO, c.targs[0], c.targs[1], "kv"))


@model(H + "keys")
def m_mapkeys(eng, st, c, args):
    p = real_map_ptr(eng, st, args[0])
    return IterV("mapref", (p, ZERO, c.targs[0], c.targs[1], "k"))


@model(H + "values", H + "values_mut")
def m_mapvalues(eng, st, c, args):
    p = real_map_ptr(eng, st, args[0])
    return IterV("mapref", (p, ZERO, c.targs[0], c.targs[1], "v"))


@model("<std::collections::HashMap as std::iter::Extend>::extend")
def m_mapextend(eng, st, c, args):
    cell = ("it", eng.fresh())
    it = args[1]
    if isinstance(it, VecV):
        it = IterV("vec", (it, ZERO))
    st.cells[cell] = it
    return ("push", MAPEXTEND, [Ptr(cell, ()), real_map_ptr(eng, st, args[0])], "HashMap::extend")


# ------------------------------------------------------------------ scalar functions
@model("std::intrinsics::rotate_left", "std::intrinsics::rotate_right")
def m_rotate(eng, st, c, args):
    t = c.targs[0]
    w = eng.P.kind(t)[2]
    n = st.norm(args[1])
    if eng.P.kind(t)[1] or not n.is_const():
        raise GiveUp("rotate")
    n = n.c % w
    if c.name.endswith("right"):
        n = (w - n) % w
    if n == 0:
        return args[0]
    return eng.binop(st, "BitOr", eng.binop(st, "Shl", args[0], K(n), t), eng.binop(st, "Shr", args[0], K(w - n), t), t)


@model("std::intrinsics::bswap")
def m_bswap(eng, st, c, args):
    a = st.norm(args[0])
    w = eng.P.kind(c.targs[0])[2]
    if a.is_const():
        return K(int.from_bytes(a.c.to_bytes(w // 8, "little"), "big"))
    return atom(("bswap", w, a), 0, (1 << w) - 1)


@model("std::intrinsics::ctlz", "std::intrinsics::ctlz_nonzero")
def m_ctlz(eng, st, c, args):
    a = st.norm(args[0])
    w = eng.P.kind(c.targs[0])[2]
    if a.is_const():
        return K(w - a.c.bit_length())
    lo, hi = st.bounds(a)
    l = w - int(hi).bit_length() if hi < INF else 0
    h = w - int(lo).bit_length() if lo >= 0 else w
    return atom(("ctlz", w, a), l, h)


@model("std::intrinsics::cttz", "std::intrinsics::cttz_nonzero")
def m_cttz(eng, st, c, args):
    w = eng.P.kind(c.targs[0])[2]
    return atom(("cttz", w, args[0]), 0, w)


@model("std::intrinsics::ctpop")
def m_ctpop(eng, st, c, args):
    w = eng.P.kind(c.targs[0])[2]
    return atom(("ctpop", w, args[0]), 0, w)


@model("std::intrinsics::saturating_add", "std::intrinsics::saturating_sub")
def m_sat(eng, st, c, args):
    lo, hi = eng.P.int_range(c.targs[0])
    m = args[0] + args[1] if c.name.endswith("add") else args[0] - args[1]
    out = []
    for t, x in fork(eng, st, c_lt(K(hi), m)):
        if t:
            out.append((x, K(hi)))
            continue
        for u, y in fork(eng, x, c_lt(m, K(lo))):
            out.append((y, K(lo) if u else m))
    return out


@model("std::intrinsics::wrapping_add", "std::intrinsics::wrapping_sub", "std::intrinsics::wrapping_mul")
def m_wrapping(eng, st, c, args):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.name[-3:]]
    return eng.fit(st, eng.arith(st, op, args[0], args[1]), c.targs[0])


@model("std::intrinsics::add_with_overflow", "std::intrinsics::sub_with_overflow", "std::intrinsics::mul_with_overflow")
def m_with_ovf(eng, st, c, args):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[c.name.rsplit("::", 1)[-1][:3]]
    m = eng.arith(st, op, args[0], args[1])
    lo, hi = eng.P.int_range(c.targs[0])
    ovf = c_or(c_lt(m, K(lo)), c_lt(K(hi), m))
    out = []
    for t, x in fork(eng, st, ovf):
        out.append((x, Agg("()", 0, (eng.fit(x, m, c.targs[0]), bv(t)))))
    return out


@model("std::intrinsics::integer_max", "std::intrinsics::integer_min")
def m_imax(eng, st, c, args):
    a, b = args
    mx = c.name.endswith("max")
    out = []
    for t, x in fork(eng, st, c_lt(a, b)):
        out.append((x, (b if t else a) if mx else (a if t else b)))
    return out


@model("std::cmp::max", "std::cmp::Ord::max", "std::cmp::impls::max", "core::cmp::Ord::max")
def m_max(eng, st, c, args):
    if not all(isinstance(a, Lin) for a in args):
        return NotImplemented
    c2 = Call()
    c2.name = "max"
    return m_imax(eng, st, c2, args)


@model("std::cmp::min", "std::cmp::Ord::min", "std::cmp::impls::min", "core::cmp::Ord::min")
def m_min(eng, st, c, args):
    if not all(isinstance(a, Lin) for a in args):
        return NotImplemented
    c2 = Call()
    c2.name = "min"
    return m_imax(eng, st, c2, args)


@model("std::intrinsics::cold_path", "std::intrinsics::assert_unsafe_precondition")
def m_cold(eng, st, c, args):
    return UNIT


@model("std::intrinsics::likely", "std::intrinsics::unlikely", "std::hint::black_box", "std::intrinsics::black_box")
def m_likely(eng, st, c, args):
    return args[0]


@model("std::intrinsics::discriminant_value")
def m_discr(eng, st, c, args):
    v = eng.read(st, args[0])
    if isinstance(v, (Agg, Sym)):
        return [(x, eng.discr_of(vv, i)) for i, x, vv in eng.variants_of(st, v)]
    raise GiveUp("discriminant_value")


@model("std::f32::mul_add", "core::f32::mul_add")
def m_fma(eng, st, c, args):
    x, y, z = args[0].t, args[1].t, args[2].t
    neg = False
    while x[0] == "fneg":
        x, neg = x[1], not neg
    while y[0] == "fneg":
        y, neg = y[1], not neg
    if repr(x) > repr(y):
        x, y = y, x
    return Fv(("fma", x, ("fneg", y) if neg else y, z))


@model("std::f32::sqrt", "core::f32::sqrt")
def m_sqrt(eng, st, c, args):
    return Fv(("fsqrt", args[0].t))


@model("core::f32::from_bits")
def m_from_bits(eng, st, c, args):
    return Fv(("fbits", 32, args[0]))


def le_bytes(eng, st, arr, big=False):
    v = arr
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    lo, n = ZERO, None
    if isinstance(v, Slice):
        lo, n, v = v.lo, st.norm(v.hi - v.lo), eng.read(st, v.base)
    elif isinstance(v, VecV):
        n = st.norm(v.len)
    elif isinstance(v, Agg):
        n = K(len(v.fields))
    if n is None or not n.is_const():
        raise GiveUp("bytes of a number")
    n = n.c
    bs = [eng.elem(st, v, lo + K(i)) for i in range(n)]
    if big:
        bs.reverse()
    acc = ZERO
    for i, b in enumerate(bs):
        acc = acc + b.scale(1 << (8 * i))
    return canon(acc), n


@model("core::num::from_le_bytes", "core::num::from_ne_bytes", "core::num::from_be_bytes")
def m_from_le(eng, st, c, args):
    l, n = le_bytes(eng, st, args[0], c.name.endswith("be_bytes"))
    rt = eng.P.insts[c.inst]["body"]["locals"][0]
    return eng.fit(st, l, rt)


@model("core::f32::from_le_bytes")
def m_ffrom_le(eng, st, c, args):
    l, n = le_bytes(eng, st, args[0])
    return Fv(("fbits", 32, l))


_CANON = {}


def canon(l):
    """merge adjacent reads: le(k,i,1) + 256*le(k,i+1,1) -> le(k,i,2); the same for bit reads"""
    r = _CANON.get(l)
    if r is not None:
        return r
    t = dict(l.t)
    done = False
    while not done:
        done = True
        for a, ka in list(t.items()):
            if a not in t:
                continue
            key = ATOMS[a]
            if key[0] == "le":
                n, w = key[3], 8
                want = ("le", key[1], key[2] + n)
            elif key[0] == "rd" and isinstance(key[3], int):
                n, w = key[3], 1
                want = ("rd", key[1], key[2] + n)
            else:
                continue
            for b, kb in list(t.items()):
                kb_key = ATOMS[b]
                if b != a and kb == ka << (n * w) and kb_key[0] == want[0] and kb_key[1] == want[1] and kb_key[2] == want[2] \
                        and isinstance(kb_key[3], int) and (n + kb_key[3]) * w <= 64:
                    tot = n + kb_key[3]
                    m = atom((want[0], key[1], key[2], tot), 0, (1 << (tot * w)) - 1)
                    del t[a], t[b]
                    t[m.t[0][0]] = ka
                    done = False
                    break
            if not done:
                break
    r = Lin(l.c, tuple(sorted(t.items())))
    _CANON[l] = r
    return r


# ------------------------------------------------------------------ iterators
def L(i):
    return [i, []]


def mv(i):
    return ["mv", [i, []]]


def cell_of(eng, st, v):
    if isinstance(v, Ptr):
        x = eng.read(st, v)
        if isinstance(x, (IterV,)) or (isinstance(x, Agg) and isinstance(x.name, str) and x.name.startswith("std::ops::Range")):
            return v
        if isinstance(x, Ptr):
            return cell_of(eng, st, x)
    cell = ("it", eng.fresh())
    st.cells[cell] = ranged(v)
    return Ptr(cell, ())


def sub(p, i):
    return Ptr(p.cell, p.path + (("it", i),))


def crate_next(P, name):
    """the implementation of Iterator::next for a type of the crate"""
    r = [i for i, x in enumerate(P.insts) if x.get("body") and x["name"].startswith("<" + name)
         and x["name"].endswith(" as std::iter::Iterator>::next") and x["name"][1 + len(name)] in "< "]
    return r[0] if len(r) == 1 else None


def is_opt(eng, v):
    return isinstance(v, Sym) and eng.P.kind(v.ty)[0] == "adt" and eng.P.kind(v.ty)[1] == OPT


def it_next(eng, st, p):
    p = cell_of(eng, st, p) if not isinstance(p, Ptr) else p
    it = eng.read(st, p)
    while isinstance(it, Ptr):
        p = it
        it = eng.read(st, p)
    if isinstance(it, Agg) and it.name == "std::ops::RangeInclusive":
        it = ranged(it)
        if it.name == "std::ops::Range":
            eng.write(st, p, it)
    if isinstance(it, Agg) and isinstance(it.name, str) and it.name == "std::ops::Range":
        out = []
        a, b = it.fields[0], it.fields[1]
        for t, x in fork(eng, st, c_lt(a, b)):
            if t:
                eng.write(x, p, Agg(it.name, 0, (a + 1, b)))
            out.append((x, some(a) if t else NONE))
        return out
    if isinstance(it, Agg) and it.name == "std::option::IntoIter":
        while isinstance(it, Agg) and it.name != OPT:
            p = Ptr(p.cell, p.path + (("f", 0),))
            it = eng.read(st, p)
    if isinstance(it, Agg) and it.name == OPT or is_opt(eng, it):       # option::IntoIter
        out = []
        for i, x, v in eng.variants_of(st, it):
            if i:
                eng.write(x, p, NONE)
                out.append((x, some(eng.proj(x, v, ("f", 0)))))
            else:
                out.append((x, NONE))
        return out
    if isinstance(it, Agg) and isinstance(it.name, str) and it.name.startswith("boxcars::"):
        i = crate_next(eng.P, it.name)
        if i is not None:
            if i in eng.cuts:
                return eng.cuts[i](eng, st, i, [p])
            return ("inst", i, [p])
    if not isinstance(it, IterV):
        raise GiveUp("next of %s" % (it.name if isinstance(it, Agg) else type(it).__name__))
    k, a = it.kind, it.a
    if k in ("slice", "vec"):
        out = []
        n = a[0].hi - a[0].lo if k == "slice" else a[0].len
        for t, x in fork(eng, st, c_lt(a[1], n)):
            if t:
                v = elem_ptr(a[0], a[1]) if k == "slice" else eng.elem(x, a[0], a[1])
                eng.write(x, sub(p, 1), a[1] + 1)
                out.append((x, some(v)))
            else:
                out.append((x, NONE))
        return out
    if k == "chunks":
        s, n, i = a
        out = []
        for t, x in fork(eng, st, c_le(s.lo + n, s.hi)):
            if t:
                eng.write(x, p, IterV(k, (Slice(s.base, s.lo + n, s.hi), n, i + 1)))
                out.append((x, some(Slice(s.base, s.lo, s.lo + n))))
            else:
                out.append((x, NONE))
        return out
    if k == "chunksany":
        s, n, i = a
        out = []
        for t, x in fork(eng, st, c_le(s.lo + n, s.hi)):
            if t:
                eng.write(x, p, IterV(k, (Slice(s.base, s.lo + n, s.hi), n, i + 1)))
                out.append((x, some(Slice(s.base, s.lo, s.lo + n))))
                continue
            for t2, y in fork(eng, x, c_lt(s.lo, s.hi)):
                if t2:
                    eng.write(y, p, IterV(k, (Slice(s.base, s.hi, s.hi), n, i + 1)))
                    out.append((y, some(Slice(s.base, s.lo, s.hi))))
                else:
                    out.append((y, NONE))
        return out
    if k in ("mapref", "mapval"):
        mp, i, kty, vty, what = a
        m = map_at(eng, st, mp) if k == "mapref" else mp
        out = []
        if m.k == ("empty",):
            return NONE
        n = atom(("maplen", m.k), 0, 1 << 60)
        for t, x in fork(eng, st, c_lt(i, n)):
            if t:
                key = eng.mksym(kty, ("mapkey", m.k, i))
                eng.write(x, sub(p, 1), i + 1)
                if k == "mapref":
                    kp = Ptr(("const", key), ())
                    vp = Ptr(("const", eng.mksym(vty, ("mapval", m.k, knorm(x, key)))), ())
                else:
                    kp = key
                    vp = eng.mksym(vty, ("mapval", m.k, knorm(x, key)))
                v = kp if what == "k" else vp if what == "v" else Agg("()", 0, (kp, vp))
                out.append((x, some(v)))
            else:
                out.append((x, NONE))
        return out
    if k == "enum":
        return ("push", ENUM_NEXT, [sub(p, 0), sub(p, 1)], "Enumerate::next")
    if k == "map":
        return ("push", MAP_NEXT, [sub(p, 0), sub(p, 1)], "Map::next")
    if k in ("copied", "cloned"):
        return ("push", COPIED_NEXT, [sub(p, 0)], "Copied::next")
    if k == "filter_map":
        return ("push", FILTER_MAP_NEXT, [sub(p, 0), sub(p, 1)], "FilterMap::next")
    if k == "filter":
        return ("push", FILTER_NEXT, [sub(p, 0), sub(p, 1)], "Filter::next")
    if k == "take_while":
        if a[2] == ONE:
            return NONE
        return ("push", TAKE_WHILE_NEXT, [sub(p, 0), sub(p, 1), sub(p, 2)], "TakeWhile::next")
    if k == "rev":
        inner = a[0]
        if isinstance(inner, IterV) and inner.kind == "enum" and isinstance(inner.a[0], IterV) and inner.a[0].kind in ("slice", "vec"):
            # from the back: the same elements, numbered by their distance from the front
            src, n = inner.a
            s, i = src.a
            hi = s.hi if src.kind == "slice" else s.len
            lo = s.lo + i if src.kind == "slice" else i
            out = []
            for t, x in fork(eng, st, c_lt(lo, hi)):
                if t:
                    if src.kind == "slice":
                        v = Ptr(s.base.cell, s.base.path + (("i", hi - 1),))
                        ns = Slice(s.base, s.lo, hi - 1)
                    else:
                        v = eng.elem(x, s, hi - 1)
                        ns = VecV(s.k, hi - 1, s.ety)
                    eng.write(x, p, IterV("rev", (IterV("enum", (IterV(src.kind, (ns, i)), n)),)))
                    out.append((x, some(Agg("()", 0, (n + (hi - 1 - lo), v)))))
                else:
                    out.append((x, NONE))
            return out
        if isinstance(inner, IterV) and inner.kind in ("slice", "vec"):
            out = []
            s, i = inner.a
            hi = s.hi if inner.kind == "slice" else s.len
            lo = s.lo + i if inner.kind == "slice" else i
            for t, x in fork(eng, st, c_lt(lo, hi)):
                if t:
                    if inner.kind == "slice":
                        v = Ptr(s.base.cell, s.base.path + (("i", hi - 1),))
                        ns = Slice(s.base, s.lo, hi - 1)
                    else:
                        v = eng.elem(x, s, hi - 1)
                        ns = VecV(s.k, hi - 1, s.ety)
                    eng.write(x, p, IterV("rev", (IterV(inner.kind, (ns, i)),)))
                    out.append((x, some(v)))
                else:
                    out.append((x, NONE))
            return out
        if isinstance(inner, Agg) and inner.name == "std::ops::Range":
            out = []
            s, e = inner.fields
            for t, x in fork(eng, st, c_lt(s, e)):
                if t:
                    eng.write(x, p, IterV("rev", (Agg(inner.name, 0, (s, e - 1)),)))
                    out.append((x, some(e - 1)))
                else:
                    out.append((x, NONE))
            return out
        raise GiveUp("rev")
    if k == "take":
        out = []
        for t, x in fork(eng, st, c_lt(ZERO, a[1])):
            if t:
                eng.write(x, sub(p, 1), a[1] - 1)
                out.append((x, ("push", FWD_NEXT, [sub(p, 0)], "Take::next")))
            else:
                out.append((x, NONE))
        return out
    if k == "chain":
        return ("push", CHAIN_NEXT, [sub(p, 0), sub(p, 1), sub(p, 2)], "Chain::next")
    if k == "zip":
        return ("push", ZIP_NEXT, [sub(p, 0), sub(p, 1)], "Zip::next")
    if k == "flatten":
        return ("push", FLATTEN_NEXT, [sub(p, 0), sub(p, 1)], "Flatten::next")
    return more_next(eng, st, p, k, a)


def body(nargs, nloc, blocks):
    return dict(locals=[None] * nloc, argc=nargs, bb=[[s, t, None] for s, t in blocks], spread=None, names={}, span=None)


def _some_py(eng, st, a):
    return some(a[0])


def _none_py(eng, st, a):
    return NONE


def _pay(eng, st, a):
    """payload of Some"""
    return eng.proj(st, a[0], ("f", 0))


def _read_py(eng, st, a):
    v = a[0]
    if isinstance(v, Ptr):
        return eng.read(st, v)
    return v


def _ref_py(eng, st, a):
    return Ptr(("const", a[0]), ())


RET = ["return"]
NEXT = "std::iter::range::next"

MAP_NEXT = body(2, 7, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 4, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(4), 3]),
    ([], ["callv", mv(2), [mv(4)], L(5), 5]),
    ([], ["py", _none_py, [], L(0), 6]),
    ([], ["py", _some_py, [mv(5)], L(0), 6]),
    ([], RET)])


def _enum_py(eng, st, a):
    i = eng.read(st, a[1])
    eng.write(st, a[1], i + 1)
    return some(Agg("()", 0, (i, eng.proj(st, a[0], ("f", 0)))))


ENUM_NEXT = body(2, 5, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 3, 1: 2}]),
    ([], ["py", _enum_py, [mv(3), mv(2)], L(0), 4]),
    ([], ["py", _none_py, [], L(0), 4]),
    ([], RET)])


def _copied_py(eng, st, a):
    v = eng.proj(st, a[0], ("f", 0))
    return some(eng.read(st, v) if isinstance(v, Ptr) else v)


COPIED_NEXT = body(1, 5, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 3, 1: 2}]),
    ([], ["py", _copied_py, [mv(3)], L(0), 4]),
    ([], ["py", _none_py, [], L(0), 4]),
    ([], RET)])

FWD_NEXT = body(1, 3, [
    ([], ["icall", NEXT, [mv(1)], L(0), 1]),
    ([], RET)])

# loop { match next { None -> None, Some(x) -> match f(x) { Some(y) -> return Some(y), None -> continue } } }
FILTER_MAP_NEXT = body(2, 7, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 5, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(4), 3]),
    ([], ["callv", mv(2), [mv(4)], L(5), 4]),
    ([], ["match", L(5), {0: 0, 1: 7}]),
    ([], ["py", _none_py, [], L(0), 6]),
    ([], RET),
    ([["=", L(0), ["use", mv(5)], None]], ["goto", 6])])

FILTER_NEXT = body(2, 8, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 6, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(4), 3]),
    ([], ["py", _ref_py, [mv(4)], L(6), 4]),
    ([], ["callv", mv(2), [mv(6)], L(5), 5]),
    ([], ["switch", mv(5), [["0", 0]], 8]),
    ([], ["py", _none_py, [], L(0), 7]),
    ([], RET),
    ([], ["py", _some_py, [mv(4)], L(0), 7])])


def _setflag(eng, st, a):
    eng.write(st, a[0], ONE)
    return NONE


TAKE_WHILE_NEXT = body(3, 8, [
    ([], ["icall", NEXT, [mv(1)], L(4), 1]),
    ([], ["match", L(4), {0: 6, 1: 2}]),
    ([], ["py", _pay, [mv(4)], L(5), 3]),
    ([], ["py", _ref_py, [mv(5)], L(6), 4]),
    ([], ["callv", mv(2), [mv(6)], L(7), 5]),
    ([], ["switch", mv(7), [["0", 8]], 9]),
    ([], ["py", _none_py, [], L(0), 7]),
    ([], RET),
    ([], ["py", _setflag, [mv(3)], L(0), 7]),
    ([], ["py", _some_py, [mv(5)], L(0), 7])])


def _chain_sel(eng, st, a):
    return eng.read(st, a[0])


CHAIN_NEXT = body(3, 6, [
    ([], ["py", _chain_sel, [mv(3)], L(4), 1]),
    ([], ["switch", mv(4), [["0", 2]], 6]),
    ([], ["icall", NEXT, [mv(1)], L(5), 3]),
    ([], ["match", L(5), {0: 5, 1: 4}]),
    ([["=", L(0), ["use", mv(5)], None]], ["goto", 7]),
    ([], ["py", _setflag, [mv(3)], L(5), 6]),
    ([], ["icall", NEXT, [mv(2)], L(0), 7]),
    ([], RET)])


def _zip_py(eng, st, a):
    return some(Agg("()", 0, (eng.proj(st, a[0], ("f", 0)), eng.proj(st, a[1], ("f", 0)))))


ZIP_NEXT = body(2, 6, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 5, 1: 2}]),
    ([], ["icall", NEXT, [mv(2)], L(4), 3]),
    ([], ["match", L(4), {0: 5, 1: 4}]),
    ([], ["py", _zip_py, [mv(3), mv(4)], L(0), 6]),
    ([], ["py", _none_py, [], L(0), 6]),
    ([], RET)])


def _mk_inner(eng, st, a):
    """turn the payload into an iterator stored in the inner slot"""
    v = eng.proj(st, a[0], ("f", 0))
    eng.write(st, a[1], to_iter(eng, st, v))
    return UNIT


# inner slot holds NONE-like marker (UNIT) when absent
FLATTEN_NEXT = body(2, 8, [
    ([], ["py", lambda e, s, a: bv(isinstance(e.read(s, a[0]), Agg) and e.read(s, a[0]) == UNIT), [mv(2)], L(3), 1]),
    ([], ["switch", mv(3), [["0", 2]], 4]),
    ([], ["icall", NEXT, [mv(2)], L(0), 3]),
    ([], ["match", L(0), {0: 4, 1: 7}]),
    ([], ["icall", NEXT, [mv(1)], L(4), 5]),
    ([], ["match", L(4), {0: 8, 1: 6}]),
    ([], ["py", _mk_inner, [mv(4), mv(2)], L(5), 2]),
    ([], RET),
    ([], ["py", _none_py, [], L(0), 7])])


def _push_py(eng, st, a):
    v = vec_at(eng, st, a[1])
    eng.write(st, a[1], vpush(st, v, eng.proj(st, a[0], ("f", 0))))
    return UNIT


EXTEND = body(2, 6, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 4, 1: 3}]),
    ([], ["py", _push_py, [mv(3), mv(2)], L(4), 1]),
    ([], ["py", lambda e, s, a: UNIT, [], L(0), 5]),
    ([], RET)])


def _mapins_py(eng, st, a):
    m = map_at(eng, st, a[1])
    kv = eng.proj(st, a[0], ("f", 0))
    eng.write(st, a[1], MapV(("ins", m.k, keyval(eng, st, kv.fields[0]), kv.fields[1])))
    return UNIT


MAPEXTEND = body(2, 6, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 4, 1: 3}]),
    ([], ["py", _mapins_py, [mv(3), mv(2)], L(4), 1]),
    ([], ["py", lambda e, s, a: UNIT, [], L(0), 5]),
    ([], RET)])

# collect into Vec: args iterator ptr, vec ptr; returns the vector
COLLECT_VEC = body(2, 6, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 4, 1: 3}]),
    ([], ["py", _push_py, [mv(3), mv(2)], L(4), 1]),
    ([], ["py", _read_py, [mv(2)], L(0), 5]),
    ([], RET)])

COLLECT_MAP = body(2, 6, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 4, 1: 3}]),
    ([], ["py", _mapins_py, [mv(3), mv(2)], L(4), 1]),
    ([], ["py", _read_py, [mv(2)], L(0), 5]),
    ([], RET)])


def _pushv_py(eng, st, a):
    v = vec_at(eng, st, a[1])
    eng.write(st, a[1], vpush(st, v, eng.proj(st, a[0], ("f", 0))))
    return UNIT


def _collect_try(okv, badv, fin, mkbad):
    # 4 holds the inner Option/Result
    return body(2, 7, [
        ([], ["goto", 1]),
        ([], ["icall", NEXT, [mv(1)], L(3), 2]),
        ([], ["match", L(3), {0: 5, 1: 3}]),
        ([], ["py", _pay, [mv(3)], L(4), 4]),
        ([], ["match", L(4), {okv: 7, badv: 8}]),
        ([], ["py", lambda e, s, a: fin(_read_py(e, s, a)), [mv(2)], L(0), 6]),
        ([], RET),
        ([], ["py", _pushv_py, [mv(4), mv(2)], L(5), 1]),
        ([], ["py", mkbad, [mv(4)], L(0), 6])])


COLLECT_OPT = _collect_try(1, 0, some, _none_py)
COLLECT_RES = _collect_try(0, 1, ok, lambda e, s, a: err(e.proj(s, a[0], ("f", 0))))

# fold(iter ptr, init, f)
FOLD = body(3, 8, [
    ([["=", L(4), ["use", mv(2)], None]], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(5), 2]),
    ([], ["match", L(5), {0: 5, 1: 3}]),
    ([], ["py", _pay, [mv(5)], L(6), 4]),
    ([], ["callv", mv(3), [mv(4), mv(6)], L(4), 1]),
    ([["=", L(0), ["use", mv(4)], None]], RET)])

FOR_EACH = body(2, 8, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 5, 1: 3}]),
    ([], ["py", _pay, [mv(3)], L(4), 4]),
    ([], ["callv", mv(2), [mv(4)], L(5), 1]),
    ([], ["py", lambda e, s, a: UNIT, [], L(0), 6]),
    ([], RET)])

FIND = body(2, 8, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 7, 1: 3}]),
    ([], ["py", _pay, [mv(3)], L(4), 4]),
    ([], ["py", _ref_py, [mv(4)], L(5), 5]),
    ([], ["callv", mv(2), [mv(5)], L(6), 6]),
    ([], ["switch", mv(6), [["0", 1]], 8]),
    ([], ["py", _none_py, [], L(0), 9]),
    ([], ["py", _some_py, [mv(4)], L(0), 9]),
    ([], RET)])

FIND_MAP = FILTER_MAP_NEXT


def _anyall(stop):
    return body(2, 8, [
        ([], ["goto", 1]),
        ([], ["icall", NEXT, [mv(1)], L(3), 2]),
        ([], ["match", L(3), {0: 6, 1: 3}]),
        ([], ["py", _pay, [mv(3)], L(4), 4]),
        ([], ["callv", mv(2), [mv(4)], L(6), 5]),
        ([], ["switch", mv(6), [["0", 1 if stop else 7]], 7 if stop else 1]),
        ([], ["py", lambda e, s, a: bv(not stop), [], L(0), 8]),
        ([], ["py", lambda e, s, a: bv(stop), [], L(0), 8]),
        ([], RET)])


ANY = _anyall(True)
ALL = _anyall(False)

POSITION = body(3, 8, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(4), 2]),
    ([], ["match", L(4), {0: 6, 1: 3}]),
    ([], ["py", _pay, [mv(4)], L(5), 4]),
    ([], ["callv", mv(2), [mv(5)], L(6), 5]),
    ([], ["switch", mv(6), [["0", 7]], 8]),
    ([], ["py", _none_py, [], L(0), 9]),
    ([], ["py", lambda e, s, a: a[0] + 1, [mv(3)], L(3), 1]),
    ([], ["py", _some_py, [mv(3)], L(0), 9]),
    ([], RET)])


# rposition(iterator of (index, element) from the back, predicate)
RPOSITION = body(2, 9, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 7, 1: 3}]),
    ([], ["py", _pay, [mv(3)], L(4), 4]),
    ([], ["py", lambda e, s, a: e.proj(s, a[0], ("f", 1)), [mv(4)], L(5), 5]),
    ([], ["callv", mv(2), [mv(5)], L(6), 6]),
    ([], ["switch", mv(6), [["0", 1]], 8]),
    ([], ["py", _none_py, [], L(0), 9]),
    ([], ["py", lambda e, s, a: some(e.proj(s, a[0], ("f", 0))), [mv(4)], L(0), 9]),
    ([], RET)])


def _try_each(okv, badv, fin):
    return body(2, 8, [
        ([], ["goto", 1]),
        ([], ["icall", NEXT, [mv(1)], L(3), 2]),
        ([], ["match", L(3), {0: 6, 1: 3}]),
        ([], ["py", _pay, [mv(3)], L(4), 4]),
        ([], ["callv", mv(2), [mv(4)], L(5), 5]),
        ([], ["match", L(5), {okv: 1, badv: 7}]),
        ([], ["py", lambda e, s, a: fin(UNIT), [], L(0), 8]),
        ([["=", L(0), ["use", mv(5)], None]], ["goto", 8]),
        ([], RET)])


TRY_EACH_RES = _try_each(0, 1, ok)
TRY_EACH_OPT = _try_each(1, 0, some)


def _try_fold(okv, badv, fin):
    return body(3, 9, [
        ([["=", L(4), ["use", mv(2)], None]], ["goto", 1]),
        ([], ["icall", NEXT, [mv(1)], L(5), 2]),
        ([], ["match", L(5), {0: 6, 1: 3}]),
        ([], ["py", _pay, [mv(5)], L(6), 4]),
        ([], ["callv", mv(3), [mv(4), mv(6)], L(7), 5]),
        ([], ["match", L(7), {okv: 8, badv: 7}]),
        ([], ["py", lambda e, s, a: fin(a[0]), [mv(4)], L(0), 9]),
        ([["=", L(0), ["use", mv(7)], None]], ["goto", 9]),
        ([], ["py", _pay, [mv(7)], L(4), 1]),
        ([], RET)])


TRY_FOLD_RES = _try_fold(0, 1, ok)
TRY_FOLD_OPT = _try_fold(1, 0, some)


def _max_py(eng, st, a):
    cur, nxt = a[0], eng.proj(st, a[1], ("f", 0))
    if cur is UNDEF or cur == UNDEF:
        return nxt
    out = []
    if not isinstance(cur, Lin) or not isinstance(nxt, Lin):
        raise GiveUp("max of non-integers")
    for t, x in fork(eng, st, c_lt(nxt, cur)):
        out.append((x, cur if t else nxt))
    return out


MAX = body(1, 6, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 7, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(2), 3]),
    ([], ["icall", NEXT, [mv(1)], L(3), 4]),
    ([], ["match", L(3), {0: 6, 1: 5}]),
    ([], ["py", _max_py, [mv(2), mv(3)], L(2), 3]),
    ([], ["py", _some_py, [mv(2)], L(0), 8]),
    ([], ["py", _none_py, [], L(0), 8]),
    ([], RET)])

COUNT = body(1, 6, [
    ([["=", L(2), ["use", ["v", ZERO]], None]], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 4, 1: 3}]),
    ([], ["py", lambda e, s, a: a[0] + 1, [mv(2)], L(2), 1]),
    ([["=", L(0), ["use", mv(2)], None]], RET)])

LAST = body(1, 6, [
    ([["=", L(2), ["use", ["v", NONE]], None]], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 4, 1: 3}]),
    ([["=", L(2), ["use", mv(3)], None]], ["goto", 1]),
    ([["=", L(0), ["use", mv(2)], None]], RET)])

RESIZE = body(3, 7, [
    ([], ["callv", mv(2), [], L(4), 1]),
    ([], ["py", _resize_py, [mv(1), mv(3), mv(4)], L(0), 2]),
    ([], RET)])

AND_MODIFY = body(3, 6, [
    ([], ["callv", mv(2), [mv(3)], L(4), 1]),
    ([["=", L(0), ["use", mv(1)], None]], RET)])

OR_INSERT_WITH = body(2, 5, [
    ([], ["callv", mv(2), [], L(3), 1]),
    ([], ["py", _or_insert_py, [mv(1), mv(3)], L(0), 2]),
    ([], RET)])


def to_iter(eng, st, v):
    if isinstance(v, IterV):
        return v
    if isinstance(v, VecV):
        return IterV("vec", (v, ZERO))
    if isinstance(v, Slice):
        return IterV("slice", (v, ZERO))
    if isinstance(v, Ptr):
        x = eng.read(st, v)
        if isinstance(x, VecV):
            return IterV("slice", (Slice(v, ZERO, x.len), ZERO))
        if isinstance(x, (Ptr, Slice)):
            return to_iter(eng, st, x)
        if isinstance(x, Agg) and x.name == OPT:
            raise GiveUp("iterate &Option")
        return v
    if isinstance(v, Agg) and isinstance(v.name, str) and (v.name.startswith("std::ops::Range") or v.name == OPT):
        if v.name == "std::ops::RangeInclusive":
            return Agg("std::ops::Range", 0, (v.fields[0], v.fields[1] + 1))
        return v
    if isinstance(v, Sym) and eng.P.kind(v.ty)[0] == "adt" and eng.P.kind(v.ty)[1] == OPT:
        return v
    raise GiveUp("into_iter of %s" % type(v).__name__)


def into_iter(eng, st, c, args):
    v = args[0]
    if isinstance(v, MapV):
        targs = c.targs
        return IterV("mapval", (v, ZERO, targs[0], targs[1], "kv"))
    if isinstance(v, Ptr) and isinstance(eng.read(st, v), MapV):
        raise GiveUp("&map into_iter")
    return to_iter(eng, st, v)


@model("<&'a std::collections::HashMap as std::iter::IntoIterator>::into_iter")
def m_refmap_iter(eng, st, c, args):
    return m_mapiter(eng, st, c, args)


ADAPT = {}


def adapt(*names):
    def d(f):
        for n in names:
            ADAPT[n] = f
        return f
    return d


@adapt("map")
def a_map(eng, st, c, args):
    return IterV("map", (args[0], args[1]))


@adapt("enumerate")
def a_enum(eng, st, c, args):
    return IterV("enum", (args[0], ZERO))


@adapt("copied", "cloned")
def a_copied(eng, st, c, args):
    return IterV("copied", (args[0],))


@adapt("filter_map")
def a_filter_map(eng, st, c, args):
    return IterV("filter_map", (args[0], args[1]))


@adapt("filter")
def a_filter(eng, st, c, args):
    return IterV("filter", (args[0], args[1]))


@adapt("take_while")
def a_take_while(eng, st, c, args):
    return IterV("take_while", (args[0], args[1], ZERO))


@adapt("take")
def a_take(eng, st, c, args):
    return IterV("take", (args[0], args[1]))


def reversed_(v):
    v = ranged(v)
    if isinstance(v, IterV):
        if v.kind in ("map", "filter", "filter_map"):
            return IterV(v.kind, (reversed_(v.a[0]), v.a[1]))
        if v.kind in ("copied", "cloned"):
            return IterV(v.kind, (reversed_(v.a[0]),))
        if v.kind == "rev":
            return v.a[0]
    return IterV("rev", (v,))


@adapt("rev")
def a_rev(eng, st, c, args):
    return reversed_(args[0])


@adapt("rposition")
def a_rposition(eng, st, c, args):
    it = eng.read(st, cell_of(eng, st, args[0]))
    return ("push", RPOSITION, [cell_of(eng, st, IterV("rev", (IterV("enum", (it, ZERO)),))), args[1]], "Iterator::rposition")


@adapt("rfind")
def a_rfind(eng, st, c, args):
    it = eng.read(st, cell_of(eng, st, args[0]))
    return ("push", FIND, [cell_of(eng, st, reversed_(it)), args[1]], "Iterator::rfind")


@adapt("try_for_each")
def a_try_for_each(eng, st, c, args):
    k = eng.P.kind(c.targs[-1])
    if k[0] != "adt" or k[1] not in (OPT, RES):
        raise GiveUp("try_for_each of %s" % (k,))
    return ("push", TRY_EACH_RES if k[1] == RES else TRY_EACH_OPT, [cell_of(eng, st, args[0]), args[1]], "Iterator::try_for_each")


@adapt("try_fold")
def a_try_fold(eng, st, c, args):
    k = eng.P.kind(c.targs[-1])
    if k[0] != "adt" or k[1] not in (OPT, RES):
        raise GiveUp("try_fold of %s" % (k,))
    return ("push", TRY_FOLD_RES if k[1] == RES else TRY_FOLD_OPT, [cell_of(eng, st, args[0])] + list(args[1:]), "Iterator::try_fold")


def skipped(eng, st, v, n):
    """[(state, iterator without its first n)]"""
    v = ranged(v)
    if isinstance(v, IterV) and v.kind in ("slice", "vec"):
        s, i = v.a
        ln = s.hi - s.lo if v.kind == "slice" else s.len
        return [(x, IterV(v.kind, (s, i + n if t else ln))) for t, x in fork(eng, st, c_le(i + n, ln))]
    if isinstance(v, Agg) and v.name == "std::ops::Range":
        a, b = v.fields
        return [(x, Agg(v.name, 0, (a + n if t else b, b))) for t, x in fork(eng, st, c_le(a + n, b))]
    if isinstance(v, IterV) and v.kind in ("map", "copied", "cloned"):
        return [(x, IterV(v.kind, (w,) + tuple(v.a[1:]))) for x, w in skipped(eng, st, v.a[0], n)]
    if isinstance(v, IterV) and v.kind == "enum":
        return [(x, IterV(v.kind, (w, v.a[1] + n))) for x, w in skipped(eng, st, v.a[0], n)]
    raise GiveUp("skip of %s" % (v.kind if isinstance(v, IterV) else type(v).__name__))


@adapt("skip")
def a_skip(eng, st, c, args):
    return skipped(eng, st, args[0], args[1])


@adapt("nth")
def a_nth(eng, st, c, args):
    p = cell_of(eng, st, args[0])
    out = []
    for x, w in skipped(eng, st, eng.read(st, p), args[1]):
        eng.write(x, p, w)
        r = it_next(eng, x, p)
        out += r if isinstance(r, list) else [(x, r)]
    return out


@adapt("next_back")
def a_next_back(eng, st, c, args):
    p = cell_of(eng, st, args[0])
    it = eng.read(st, p)
    if not (isinstance(it, IterV) and it.kind in ("slice", "vec") or isinstance(it, Agg) and it.name == "std::ops::Range"):
        raise GiveUp("next_back")
    q = cell_of(eng, st, IterV("rev", (it,)))
    out = []
    for x, v in it_next(eng, st, q):
        eng.write(x, p, eng.read(x, q).a[0])
        out.append((x, v))
    return out


@adapt("chain")
def a_chain(eng, st, c, args):
    return IterV("chain", (args[0], to_iter(eng, st, args[1]), ZERO))


@adapt("zip")
def a_zip(eng, st, c, args):
    return IterV("zip", (args[0], to_iter(eng, st, args[1])))


@adapt("flatten")
def a_flatten(eng, st, c, args):
    v = args[0]
    while isinstance(v, Agg) and v.name in ("std::option::IntoIter", "std::option::Item"):
        v = v.fields[0]
    if isinstance(v, (Agg, Sym)) and (v.name == OPT if isinstance(v, Agg) else eng.P.kind(v.ty)[:2] == ["adt", OPT]
                                      or tuple(eng.P.kind(v.ty)[:2]) == ("adt", OPT)):
        out = []
        for i, x, w in eng.variants_of(st, v):
            if not i:
                out.append((x, IterV("vec", (VecV(("lit", ()), ZERO, None), ZERO))))
            else:
                out.append((x, to_iter(eng, x, eng.proj(x, w, ("f", 0)))))
        return out
    return IterV("flatten", (args[0], UNIT))


@adapt("by_ref")
def a_by_ref(eng, st, c, args):
    return args[0]


@adapt("next")
def a_next(eng, st, c, args):
    return it_next(eng, st, args[0])


def _consumer(b, nm, nargs):
    def f(eng, st, c, args):
        return ("push", b, [cell_of(eng, st, args[0])] + list(args[1:]) + ([ZERO] if nm == "position" else []), "Iterator::" + nm)
    return f


for _b, _n in ((FOLD, "fold"), (FOR_EACH, "for_each"), (FIND, "find"), (FIND_MAP, "find_map"), (ANY, "any"), (ALL, "all"),
               (POSITION, "position"), (MAX, "max"), (COUNT, "count"), (LAST, "last")):
    ADAPT[_n] = _consumer(_b, _n, 0)


_count = ADAPT["count"]


@adapt("count")
def a_count(eng, st, c, args):
    it = eng.read(st, cell_of(eng, st, args[0]))
    if isinstance(it, IterV) and it.kind == "chars":
        s = it.a[0]
        if s.k[0] == "c":
            return K(len(s.k[1].decode("utf-8", "replace")))
        n = atom(("nchars", s.k), 0, (1 << 63) - 1)
        ln = str_len(s)
        st.assume(c_le(n, ln))
        st.assume(c_le(ln, n.scale(4)))
        return n
    return _count(eng, st, c, args)


@adapt("collect")
def a_collect(eng, st, c, args):
    P = eng.P
    t = c.targs[1]
    k = P.kind(t)
    p = cell_of(eng, st, args[0])
    if k[0] == "adt" and k[1] == "std::vec::Vec":
        it = eng.read(st, p)
        # collecting a plain vector iterator is the vector itself
        if isinstance(it, IterV) and it.kind == "vec" and it.a[1] == ZERO:
            return it.a[0]
        cell = ("col", eng.fresh())
        st.cells[cell] = VecV(("lit", ()), ZERO, k[2][0])
        return ("push", COLLECT_VEC, [p, Ptr(cell, ())], "collect")
    if k[0] == "adt" and k[1] == "std::collections::HashMap":
        cell = ("col", eng.fresh())
        st.cells[cell] = MapV(("empty",))
        return ("push", COLLECT_MAP, [p, Ptr(cell, ())], "collect")
    if k[0] == "adt" and k[1] in (OPT, RES):
        i = P.kind(k[2][0])
        if i[0] == "adt" and i[1] == "std::vec::Vec":
            cell = ("col", eng.fresh())
            st.cells[cell] = VecV(("lit", ()), ZERO, i[2][0])
            return ("push", COLLECT_OPT if k[1] == OPT else COLLECT_RES, [p, Ptr(cell, ())], "collect")
    if k[0] == "adt" and k[1] == "std::string::String":
        r = bytemap(eng, st, p)
        if r is not None:
            return r
    raise GiveUp("collect into %s" % P.tname(t))


def _const_py(v):
    return lambda eng, st, a: v


def _bytemap_py(eng, st, a):
    k, tab = a[0], []
    for v in a[1:]:
        v = st.norm(v) if isinstance(v, Lin) else v
        if not (isinstance(v, Lin) and v.is_const()):
            raise GiveUp("characters that bytes are mapped to")
        tab.append(v.c)
    if tab == WINDOWS_1252:
        return StrV(("dec", "encoding_rs::WINDOWS_1252_INIT", "decode_without_bom_handling", k.fields[0]))
    return StrV(("bytemap", tuple(tab), k.fields[0]))


WINDOWS_1252 = list(range(256))
for _b in range(128, 160):
    try:
        WINDOWS_1252[_b] = ord(bytes([_b]).decode("cp1252"))
    except UnicodeDecodeError:
        pass


def bytemap(eng, st, p):
    """the text of one character per byte: the function from byte to character is computed for all 256 of them"""
    it = eng.read(st, p)
    if not (isinstance(it, IterV) and it.kind == "map"):
        return None
    inner, byref = it.a[0], True
    while isinstance(inner, IterV) and inner.kind in ("copied", "cloned"):
        inner, byref = inner.a[0], False
    if not (isinstance(inner, IterV) and inner.kind == "slice"):
        return None
    s, pos = inner.a
    base = eng.read(st, s.base)
    if not isinstance(base, VecV) or base.ety is None or eng.P.tname(base.ety) != "u8":
        return None
    k, n = content(eng, st, Slice(s.base, s.lo + pos, s.hi))
    blocks = []
    for i in range(256):
        v = K(i)
        blocks.append(([], ["py", _const_py(Ptr(("const", v), ()) if byref else v), [], L(3), 2 * i + 1]))
        blocks.append(([], ["callv", mv(1), [mv(3)], L(4 + i), 2 * i + 2]))
    blocks.append(([], ["py", _bytemap_py, [mv(2)] + [mv(4 + i) for i in range(256)], L(0), 513]))
    blocks.append(([], RET))
    return ("push", body(2, 260, blocks), [sub(p, 1), Agg("bytes", 0, (k,))], "collect")


# ------------------------------------------------------------------ less common functions
@model("std::vec::Vec::append")
def m_append(eng, st, c, args):
    src = vec_at(eng, st, args[1])
    dst = vec_at(eng, st, args[0])
    eng.write(st, args[1], VecV(("lit", ()), ZERO, src.ety))
    if st.ev_cond(c_eq(dst.len, ZERO)) is True:
        eng.write(st, args[0], src)
        return UNIT
    cell = ("it", eng.fresh())
    st.cells[cell] = IterV("vec", (src, ZERO))
    return ("push", EXTEND, [Ptr(cell, ()), args[0]], "Vec::append")


@model("std::vec::Vec::capacity", "std::string::String::capacity")
def m_capacity(eng, st, c, args):
    n = m_strlen(eng, st, c, args) if "String" in c.name else vec_at(eng, st, args[0]).len
    a = atom(("cap", eng.fresh()), 0, (1 << 63) - 1)
    st.assume(c_le(n, a))
    return a


@model("std::vec::Vec::insert")
def m_vinsert(eng, st, c, args):
    v = vec_at(eng, st, args[0])
    good, bad = oblige(eng, st, "Vec::insert", c_le(args[1], v.len))
    if good is None:
        return bad
    i, n = good.norm(args[1]), good.norm(v.len)
    if i == n:
        eng.write(good, args[0], vpush(good, v, args[2]))
    elif v.k[0] == "lit" and i.is_const() and n.is_const() and len(v.k[1]) == n.c:
        eng.write(good, args[0], VecV(("lit", v.k[1][:i.c] + (args[2],) + v.k[1][i.c:]), n + 1, v.ety))
    else:
        eng.write(good, args[0], VecV(("inserted", v.k, i, args[2]), v.len + 1, v.ety))
    return bad + [(good, UNIT)]


@model("std::vec::Vec::split_off")
def m_split_off(eng, st, c, args):
    good, bad = oblige(eng, st, "Vec::split_off", c_le(args[1], vec_at(eng, st, args[0]).len))
    if good is None:
        return bad
    v = vec_at(eng, good, args[0])
    at, n = good.norm(args[1]), good.norm(v.len)
    if v.k[0] == "lit" and at.is_const():
        a, b = VecV(("lit", v.k[1][:at.c]), at, v.ety), VecV(("lit", v.k[1][at.c:]), n - at, v.ety)
    elif at == ZERO:
        a, b = VecV(("lit", ()), ZERO, v.ety), v
    else:
        a, b = VecV(v.k, at, v.ety), VecV(("from", v.k, at), good.norm(n - at), v.ety)
    eng.write(good, args[0], a)
    return bad + [(good, b)]


@model("std::vec::Vec::retain")
def m_retain(eng, st, c, args):
    v = vec_at(eng, st, args[0])
    f = args[1]
    if v.k[0] not in ("lit", "push"):
        # the kept elements of a list of any length, as a function of the list
        k = ("kept", v.k, v.len, f.name if isinstance(f, Agg) else repr(f))
        n = atom(("len", k), 0, (1 << 62))

        def last(e, s, a):
            s.assume(c_le(n, v.len))
            e.write(s, a[0], VecV(k, n, v.ety))
            return UNIT
        B = body(2, 8, [
            ([], ["py", _two_py, [mv(1)], L(3), 1]),
            ([], ["match", L(3), {0: 4, 1: 2}]),
            ([], ["py", lambda e, s, a: e.proj(s, a[0], ("f", 0)).fields[0], [mv(3)], L(4), 3]),
            ([], ["callv", mv(2), [mv(4)], L(6), 4]),
            ([], ["py", last, [mv(1)], L(0), 5]),
            ([], RET)])
        return ("push", B, [args[0], f], "Vec::retain")
    eng.write(st, args[0], VecV(("lit", ()), ZERO, v.ety))
    cell = ("it", eng.fresh())
    st.cells[cell] = IterV("filter", (IterV("vec", (v, ZERO)), args[1]))
    return ("push", EXTEND, [Ptr(cell, ()), args[0]], "Vec::retain")


def _eqel_py(eng, st, a):
    def rd(v):
        while isinstance(v, Ptr):
            v = eng.read(st, v)
        return v
    x, y = rd(a[0]), rd(a[1])
    if isinstance(x, (Lin, StrV)) and isinstance(y, (Lin, StrV)):
        return bv(val_eq(st, x, y))
    if isinstance(x, Bv) and isinstance(y, Bv) or isinstance(x, Agg) and isinstance(y, Agg):
        c = val_eq(st, x, y)
        if not isinstance(c, tuple) or c[:1] != ("op",):
            return bv(c)
    raise GiveUp("contains of %s" % type(x).__name__)


CONTAINS = body(2, 8, [
    ([], ["goto", 1]),
    ([], ["icall", NEXT, [mv(1)], L(3), 2]),
    ([], ["match", L(3), {0: 6, 1: 3}]),
    ([], ["py", _pay, [mv(3)], L(4), 4]),
    ([], ["py", _eqel_py, [mv(4), mv(2)], L(6), 5]),
    ([], ["switch", mv(6), [["0", 1]], 7]),
    ([], ["py", lambda e, s, a: bv(False), [], L(0), 8]),
    ([], ["py", lambda e, s, a: bv(True), [], L(0), 8]),
    ([], RET)])


@model("core::slice::contains")
def m_scontains(eng, st, c, args):
    return ("push", CONTAINS, [cell_of(eng, st, IterV("slice", (as_slice(eng, st, args[0]), ZERO))), args[1]], "slice::contains")


@model("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def m_copy_from(eng, st, c, args):
    d, s = as_slice(eng, st, args[0]), as_slice(eng, st, args[1])
    n = st.norm(d.hi - d.lo)
    good, bad = oblige(eng, st, "copy_from_slice", c_eq(n, s.hi - s.lo))
    if good is None:
        return bad
    dv = eng.read(good, d.base)
    sv = eng.read(good, s.base)
    if good.norm(d.lo) == ZERO and isinstance(dv, VecV) and good.ev_cond(c_eq(n, dv.len)) is True:
        eng.write(good, d.base, m_to_vec(eng, good, c, [args[1]]))
    elif good.norm(n).is_const() and good.norm(n).c <= 64:
        for i in range(good.norm(n).c):
            eng.write(good, elem_ptr(d, K(i)), eng.elem(good, sv, s.lo + K(i)))
    else:
        raise GiveUp("copy into part of a buffer")
    return bad + [(good, UNIT)]


@model("std::slice::to_owned")
def m_slice_owned(eng, st, c, args):
    return m_to_vec(eng, st, c, args)


@model("core::slice::strip_prefix", "core::slice::strip_suffix")
def m_sl_strip(eng, st, c, args):
    a, b = as_slice(eng, st, args[0]), as_slice(eng, st, args[1])
    n = b.hi - b.lo
    pre = c.name.endswith("prefix")
    out = []
    for t, x in fork(eng, st, c_le(n, a.hi - a.lo)):
        if not t:
            out.append((x, NONE))
            continue
        e = list_eq(eng, x, Slice(a.base, a.lo, a.lo + n) if pre else Slice(a.base, a.hi - n, a.hi), b)
        for u, y in fork(eng, x, e):
            out.append((y, some(Slice(a.base, a.lo + n, a.hi) if pre else Slice(a.base, a.lo, a.hi - n)) if u else NONE))
    return out


@model("core::slice::starts_with", "core::slice::ends_with")
def m_sl_starts(eng, st, c, args):
    a, b = as_slice(eng, st, args[0]), as_slice(eng, st, args[1])
    n = b.hi - b.lo
    out = []
    for t, x in fork(eng, st, c_le(n, a.hi - a.lo)):
        if not t:
            out.append((x, bv(False)))
        elif c.name.endswith("starts_with"):
            out.append((x, bv(list_eq(eng, x, Slice(a.base, a.lo, a.lo + n), b))))
        else:
            out.append((x, bv(list_eq(eng, x, Slice(a.base, a.hi - n, a.hi), b))))
    return out


@model("core::slice::split_last_chunk", "core::slice::last_chunk")
def m_slc(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    n = const_arg(eng, c)
    out = []
    for t, x in fork(eng, st, c_le(K(n), s.hi - s.lo)):
        if t:
            a = sub_array(eng, x, s, s.hi - s.lo - n, n)
            if c.name.endswith("split_last_chunk"):
                a = Agg("()", 0, (Slice(s.base, s.lo, s.hi - n), a))
            out.append((x, some(a)))
        else:
            out.append((x, NONE))
    return out


@model("core::slice::windows")
def m_windows(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    good, bad = oblige(eng, st, "windows:zero", c_lt(ZERO, args[1]))
    if good is None:
        return bad
    return bad + [(good, IterV("windows", (s, args[1])))]


@model("core::slice::swap")
def m_slswap(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    n = s.hi - s.lo
    good, bad = oblige(eng, st, "slice::swap", c_and(c_lt(args[1], n), c_lt(args[2], n)))
    if good is None:
        return bad
    p, q = elem_ptr(s, args[1]), elem_ptr(s, args[2])
    a, b = eng.read(good, p), eng.read(good, q)
    eng.write(good, p, b)
    eng.write(good, q, a)
    return bad + [(good, UNIT)]


@model("core::slice::fill")
def m_slfill(eng, st, c, args):
    s = as_slice(eng, st, args[0])
    v = eng.read(st, s.base)
    if isinstance(v, VecV) and st.norm(s.lo) == ZERO and st.ev_cond(c_eq(s.hi, v.len)) is True:
        eng.write(st, s.base, VecV(("rep", args[1]), v.len, v.ety))
        return UNIT
    n = st.norm(s.hi - s.lo)
    if n.is_const() and n.c <= 64:
        for i in range(n.c):
            eng.write(st, elem_ptr(s, K(i)), args[1])
        return UNIT
    raise GiveUp("fill of part of a buffer")


# arrays
def array_parts(eng, st, v):
    if isinstance(v, Agg):
        return list(v.fields)
    if isinstance(v, VecV):
        n = st.norm(v.len)
        if n.is_const() and n.c <= 64:
            return [eng.elem(st, v, K(i)) for i in range(n.c)]
    raise GiveUp("array is %s" % type(v).__name__)


def calls_in_order(n, argn, fin):
    """a body calling local 1 with locals 2.. in turn, then fin(results)"""
    bl = []
    for i in range(n):
        bl.append(([], ["callv", mv(1), [mv(2 + i)], L(2 + n + i), i + 1]))
    bl.append(([], ["py", fin, [mv(2 + n + i) for i in range(n)], L(0), n + 1]))
    bl.append(([], RET))
    return body(1 + n, 2 + 2 * n, bl)


def array_of(eng, c):
    """(element type, length) of the array the function returns"""
    P = eng.P
    i = P.insts[c.inst]
    t = i["body"]["locals"][0] if i.get("body") else None
    k = P.kind(t) if t is not None else None
    if not k or k[0] != "array":
        raise GiveUp("array result")
    return k


@model("core::array::map", "std::array::map")
def m_array_map(eng, st, c, args):
    xs = array_parts(eng, st, args[0])
    ety = array_of(eng, c)[1]
    return ("push", calls_in_order(len(xs), 1, lambda e, s, a: VecV(("lit", tuple(a)), K(len(a)), ety)), [args[1]] + xs, "array::map")


@model("core::array::from_fn", "std::array::from_fn")
def m_array_fromfn(eng, st, c, args):
    k = array_of(eng, c)
    n = k[2]
    if not isinstance(n, int) or n > 64:
        raise GiveUp("array::from_fn")
    ety = k[1]
    return ("push", calls_in_order(n, 1, lambda e, s, a: VecV(("lit", tuple(a)), K(len(a)), ety)), [args[0]] + [K(i) for i in range(n)], "array::from_fn")


@model("core::array::iter::into_iter", "std::array::iter::into_iter")
def m_array_iter(eng, st, c, args):
    v = args[0]
    if isinstance(v, Agg) and v.name in ("[]", "array"):
        v = VecV(("lit", tuple(v.fields)), K(len(v.fields)), None)
    if not isinstance(v, VecV):
        raise GiveUp("array into_iter of %s" % type(v).__name__)
    return IterV("vec", (v, ZERO))


# sources of iteration
@model("std::iter::repeat_with")
def m_repeat_with(eng, st, c, args):
    return IterV("repeat_with", (args[0],))


@model("std::iter::from_fn")
def m_from_fn(eng, st, c, args):
    return IterV("from_fn", (args[0],))


@model("std::iter::repeat")
def m_repeat(eng, st, c, args):
    return IterV("repeat", (args[0],))


@model("std::iter::repeat_n")
def m_repeat_n(eng, st, c, args):
    return IterV("vec", (VecV(("rep", args[0]), args[1], c.targs[0] if c.targs else None), ZERO))


@model("std::iter::once")
def m_once(eng, st, c, args):
    return IterV("vec", (VecV(("lit", (args[0],)), ONE, c.targs[0] if c.targs else None), ZERO))


@model("std::iter::empty")
def m_empty(eng, st, c, args):
    return IterV("vec", (VecV(("lit", ()), ZERO, c.targs[0] if c.targs else None), ZERO))


@model("std::iter::successors")
def m_successors(eng, st, c, args):
    return IterV("succ", (args[0], args[1]))


REPEAT_WITH_NEXT = body(1, 3, [
    ([], ["callv", mv(1), [], L(2), 1]),
    ([], ["py", _some_py, [mv(2)], L(0), 2]),
    ([], RET)])


def _store_py(eng, st, a):
    eng.write(st, a[0], a[1])
    return UNIT


# successors: the stored value is returned, what follows it is stored
SUCC_NEXT = body(2, 9, [
    ([], ["py", _read_py, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 6, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(4), 3]),
    ([], ["py", _ref_py, [mv(4)], L(5), 4]),
    ([], ["callv", mv(2), [mv(5)], L(6), 5]),
    ([], ["py", _store_py, [mv(1), mv(6)], L(7), 7]),
    ([], ["py", _none_py, [], L(0), 8]),
    ([], ["py", _some_py, [mv(4)], L(0), 8]),
    ([], RET)])

MAP_WHILE_NEXT = body(2, 6, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 3, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(4), 4]),
    ([], ["py", _none_py, [], L(0), 5]),
    ([], ["callv", mv(2), [mv(4)], L(0), 5]),
    ([], RET)])

SCAN_NEXT = body(3, 7, [
    ([], ["icall", NEXT, [mv(1)], L(4), 1]),
    ([], ["match", L(4), {0: 3, 1: 2}]),
    ([], ["py", _pay, [mv(4)], L(5), 4]),
    ([], ["py", _none_py, [], L(0), 5]),
    ([], ["callv", mv(3), [mv(2), mv(5)], L(0), 5]),
    ([], RET)])

INSPECT_NEXT = body(2, 8, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 5, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(4), 3]),
    ([], ["py", _ref_py, [mv(4)], L(5), 4]),
    ([], ["callv", mv(2), [mv(5)], L(6), 6]),
    ([], ["py", _none_py, [], L(0), 7]),
    ([], ["py", _some_py, [mv(4)], L(0), 7]),
    ([], RET)])


def more_next(eng, st, p, k, a):
    if k == "repeat_with":
        return ("push", REPEAT_WITH_NEXT, [sub(p, 0)], "RepeatWith::next")
    if k == "from_fn":
        return ("callv", sub(p, 0), [])
    if k == "repeat":
        return some(a[0])
    if k == "succ":
        return ("push", SUCC_NEXT, [sub(p, 0), sub(p, 1)], "Successors::next")
    if k == "map_while":
        return ("push", MAP_WHILE_NEXT, [sub(p, 0), sub(p, 1)], "MapWhile::next")
    if k == "scan":
        return ("push", SCAN_NEXT, [sub(p, 0), sub(p, 1), sub(p, 2)], "Scan::next")
    if k == "inspect":
        return ("push", INSPECT_NEXT, [sub(p, 0), sub(p, 1)], "Inspect::next")
    if k == "windows":
        s, n = a
        out = []
        for t, x in fork(eng, st, c_le(s.lo + n, s.hi)):
            if t:
                eng.write(x, p, IterV(k, (Slice(s.base, s.lo + 1, s.hi), n)))
                out.append((x, some(Slice(s.base, s.lo, s.lo + n))))
            else:
                out.append((x, NONE))
        return out
    if k == "stepby":
        it, n = a
        out = []
        if isinstance(it, Agg):
            for t, x in fork(eng, st, c_lt(it.fields[0], it.fields[1])):
                if t:
                    eng.write(x, p, IterV(k, (Agg(it.name, 0, (it.fields[0] + n, it.fields[1])), n)))
                out.append((x, some(it.fields[0]) if t else NONE))
            return out
        s, i = it.a
        for t, x in fork(eng, st, c_lt(i, s.hi - s.lo if it.kind == "slice" else s.len)):
            if t:
                v = elem_ptr(s, i) if it.kind == "slice" else eng.elem(x, s, i)
                eng.write(x, p, IterV(k, (IterV(it.kind, (s, i + n)), n)))
                out.append((x, some(v)))
            else:
                out.append((x, NONE))
        return out
    raise GiveUp("iterator %s" % k)


@adapt("map_while")
def a_map_while(eng, st, c, args):
    return IterV("map_while", (args[0], args[1]))


@adapt("inspect")
def a_inspect(eng, st, c, args):
    return IterV("inspect", (args[0], args[1]))


@adapt("scan")
def a_scan(eng, st, c, args):
    return IterV("scan", (args[0], args[1], args[2]))


@adapt("flat_map")
def a_flat_map(eng, st, c, args):
    return IterV("flatten", (IterV("map", (args[0], args[1])), UNIT))


def plain(v):
    """an iterator whose elements are there already: looking at one has no effect"""
    if isinstance(v, Agg) and v.name == "std::ops::Range":
        return True
    if not isinstance(v, IterV):
        return False
    if v.kind in ("slice", "vec"):
        return True
    return v.kind in ("copied", "cloned", "enum") and plain(v.a[0])


@adapt("fuse", "peekable")
def a_fuse(eng, st, c, args):
    v = ranged(args[0])
    if not plain(v):
        raise GiveUp("fuse/peekable of an iterator with effects")
    return v


@model("std::iter::Peekable::peek", "core::iter::Peekable::peek", "std::iter::adapters::peekable::Peekable::peek")
def m_peek(eng, st, c, args):
    v = eng.read(st, args[0])
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if not (isinstance(v, IterV) and v.kind in ("slice", "vec")):
        raise GiveUp("peek")
    s, i = v.a
    n = s.hi - s.lo if v.kind == "slice" else s.len
    out = []
    for t, x in fork(eng, st, c_lt(i, n)):
        out.append((x, some(Ptr(("const", elem_ptr(s, i) if v.kind == "slice" else eng.elem(x, s, i)), ())) if t else NONE))
    return out


@adapt("step_by")
def a_step_by(eng, st, c, args):
    v = ranged(args[0])
    if not (isinstance(v, Agg) and v.name == "std::ops::Range" or isinstance(v, IterV) and v.kind in ("slice", "vec")):
        raise GiveUp("step_by")
    good, bad = oblige(eng, st, "step_by:zero", c_lt(ZERO, args[1]))
    if good is None:
        return bad
    return bad + [(good, IterV("stepby", (v, args[1])))]


def ranged(v):
    if isinstance(v, Agg) and v.name == "std::ops::RangeInclusive" and (len(v.fields) < 3 or v.fields[2] in (ZERO, FALSE_)):
        return Agg("std::ops::Range", 0, (v.fields[0], v.fields[1] + 1))
    return v


FALSE_ = bv(False)


@adapt("len")
def a_len(eng, st, c, args):
    v = ranged(eng.read(st, cell_of(eng, st, args[0])))
    while isinstance(v, IterV) and v.kind in ("copied", "cloned", "enum", "map", "rev"):
        v = ranged(v.a[0])
    if isinstance(v, IterV) and v.kind == "slice":
        return v.a[0].hi - v.a[0].lo - v.a[1]
    if isinstance(v, IterV) and v.kind == "vec":
        return v.a[0].len - v.a[1]
    if isinstance(v, Agg) and v.name == "std::ops::Range":
        return [(x, v.fields[1] - v.fields[0] if t else ZERO) for t, x in fork(eng, st, c_le(v.fields[0], v.fields[1]))]
    raise GiveUp("length of an iterator")


_last = ADAPT["last"]


@adapt("last")
def a_last(eng, st, c, args):
    v = ranged(eng.read(st, cell_of(eng, st, args[0])))
    deref = False
    while isinstance(v, IterV) and v.kind in ("copied", "cloned"):
        deref = True
        v = ranged(v.a[0])
    if isinstance(v, Agg) and v.name == "std::ops::Range":
        return [(x, some(v.fields[1] - 1) if t else NONE) for t, x in fork(eng, st, c_lt(v.fields[0], v.fields[1]))]
    if isinstance(v, IterV) and v.kind in ("slice", "vec"):
        s, i = v.a
        n = s.hi - s.lo if v.kind == "slice" else s.len
        out = []
        for t, x in fork(eng, st, c_lt(i, n)):
            e = NONE
            if t:
                e = elem_ptr(s, n - 1) if v.kind == "slice" else eng.elem(x, s, n - 1)
                e = some(eng.read(x, e) if deref and isinstance(e, Ptr) else e)
            out.append((x, e))
        return out
    return _last(eng, st, c, args)


def _min_py(eng, st, a):
    cur, nxt = a[0], eng.proj(st, a[1], ("f", 0))
    if not isinstance(cur, Lin) or not isinstance(nxt, Lin):
        raise GiveUp("min of non-integers")
    return [(x, nxt if t else cur) for t, x in fork(eng, st, c_lt(nxt, cur))]


MIN = body(1, 6, [
    ([], ["icall", NEXT, [mv(1)], L(3), 1]),
    ([], ["match", L(3), {0: 7, 1: 2}]),
    ([], ["py", _pay, [mv(3)], L(2), 3]),
    ([], ["icall", NEXT, [mv(1)], L(3), 4]),
    ([], ["match", L(3), {0: 6, 1: 5}]),
    ([], ["py", _min_py, [mv(2), mv(3)], L(2), 3]),
    ([], ["py", _some_py, [mv(2)], L(0), 8]),
    ([], ["py", _none_py, [], L(0), 8]),
    ([], RET)])
ADAPT["min"] = _consumer(MIN, "min", 0)


def _sum(eng, t):
    lo, hi = eng.P.int_range(t)

    def add(e, s, a):
        x = e.proj(s, a[1], ("f", 0))
        while isinstance(x, Ptr):
            x = e.read(s, x)
        if not isinstance(x, Lin):
            raise GiveUp("sum of non-integers")
        good, bad = oblige(e, s, "sum", c_and(c_le(a[0] + x, K(hi)), c_le(K(lo), a[0] + x)))
        return bad + ([(good, a[0] + x)] if good is not None else [])
    return body(1, 6, [
        ([["=", L(2), ["use", ["v", ZERO]], None]], ["goto", 1]),
        ([], ["icall", NEXT, [mv(1)], L(3), 2]),
        ([], ["match", L(3), {0: 4, 1: 3}]),
        ([], ["py", add, [mv(2), mv(3)], L(2), 1]),
        ([["=", L(0), ["use", mv(2)], None]], RET)])


@adapt("sum")
def a_sum(eng, st, c, args):
    if eng.P.kind(c.targs[-1])[0] != "int":
        raise GiveUp("sum")
    return ("push", _sum(eng, c.targs[-1]), [cell_of(eng, st, args[0])], "Iterator::sum")


# odds and ends
@model("core::num::ilog2", "core::num::checked_ilog2")
def m_ilog2(eng, st, c, args):
    P = eng.P
    w = P.kind(P.insts[c.inst]["body"]["locals"][1])[2]
    out = []
    for t, x in fork(eng, st, c_lt(ZERO, args[0])):
        if t:
            a = x.norm(args[0])
            if a.is_const():
                r = K(a.c.bit_length() - 1)
            else:
                lo, hi = x.bounds(a)
                r = K(w - 1) - atom(("ctlz", w, a), w - int(hi).bit_length() if hi < INF else 0, w - int(max(lo, 1)).bit_length())
            out.append((x, some(r) if "checked" in c.name else r))
        elif "checked" in c.name:
            out.append((x, NONE))
        else:
            out.append((eng.panic(x, "ilog2", None), None))
    return out


@model("std::mem::drop", "std::mem::forget")
def m_drop(eng, st, c, args):
    return UNIT


@model("<bool as std::ops::Not>::not")
def m_not(eng, st, c, args):
    a = args[0]
    while isinstance(a, Ptr):
        a = eng.read(st, a)
    if isinstance(a, Bv):
        return bv(c_not(a.c))
    return bv(c_eq(a, ZERO))


@model("std::char::convert::from")
def m_char_from(eng, st, c, args):
    if not isinstance(args[0], Lin):
        raise GiveUp("char::from")
    return args[0]


@model("std::intrinsics::is_val_statically_known")
def m_static_known(eng, st, c, args):
    return bv(False)


def lex(op, xs, ys):
    """condition of the lexicographic comparison"""
    c = op in ("le", "ge")
    for x, y in reversed(list(zip(xs, ys))):
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            raise GiveUp("comparison of tuples")
        if op in ("gt", "ge"):
            x, y = y, x
        c = c_or(c_lt(x, y), c_and(c_eq(x, y), c))
    return c


@model("core::tuple::lt", "core::tuple::le", "core::tuple::gt", "core::tuple::ge")
def m_tuple_cmp(eng, st, c, args):
    t = []
    for a in args:
        while isinstance(a, Ptr):
            a = eng.read(st, a)
        if not isinstance(a, Agg):
            raise GiveUp("comparison of tuples")
        t.append(a.fields)
    return bv(lex(c.name.rsplit("::", 1)[-1], *t))


@model("std::string::String::clear")
def m_strclear(eng, st, c, args):
    eng.write(st, args[0], StrV(("c", b"")))
    return UNIT


@model("<std::string::String as std::ops::Add>::add")
def m_stradd(eng, st, c, args):
    s, t = strval(eng, st, args[0]), strval(eng, st, args[1])
    if s.k[0] == "c" and t.k[0] == "c":
        return StrV(("c", s.k[1] + t.k[1]))
    if s.k == ("c", b""):
        return t
    return StrV(("scat", s.k, t.k))


@model("core::str::strip_suffix")
def m_strip_suffix(eng, st, c, args):
    s = strval(eng, st, args[0])
    p = pat_const(eng, st, args[1])
    b = k_bytes(st, s.k)
    if b is not None:
        return some(StrV(("c", b[:len(b) - len(p)]))) if b.endswith(p) else NONE
    return [(x, some(StrV(("stripend", s.k, p))) if t else NONE) for t, x in fork(eng, st, ("op", ("ends", s.k, p)))]


@model("core::str::trim_end_matches", "core::str::trim_start_matches", "core::str::trim_matches")
def m_trim_m(eng, st, c, args):
    s = strval(eng, st, args[0])
    p = pat_const(eng, st, args[1])
    b = k_bytes(st, s.k)
    if b is None or not p:
        return StrV((c.name.rsplit("::", 1)[-1], s.k, p))
    if "start" not in c.name:
        while b.endswith(p):
            b = b[:len(b) - len(p)]
    if "end" not in c.name:
        while b.startswith(p):
            b = b[len(p):]
    return StrV(("c", b))


@model("std::string::String::from_utf8_lossy")
def m_lossy(eng, st, c, args):
    k, n = content(eng, st, args[0])
    if k[0] == "c":
        return StrV(("c", k[1].decode("utf8", "replace").encode()))
    if st.norm(n) == ZERO:
        return StrV(("c", b""))
    return StrV(("lossy", k))


# ------------------------------------------------------------------ formatting
def fmt_value(eng, st, v):
    """what an argument refers to now (references are followed)"""
    for _ in range(4):
        if not isinstance(v, Ptr):
            break
        try:
            v = eng.read(st, v)
        except GiveUp:
            break
    return v


def fmt_arg(eng, st, c, args, how):
    return Agg("fmt::Argument", 0, (how, fmt_value(eng, st, args[0])))


def template_bytes(eng, st, p):
    v = eng.read(st, p) if isinstance(p, Ptr) else p
    if isinstance(v, Agg) and all(isinstance(x, Lin) and x.is_const() for x in v.fields):
        return bytes(x.c for x in v.fields)
    if isinstance(v, VecV) and v.k[0] in ("lit", "bytes", "c"):
        return bytes(v.k[1]) if isinstance(v.k[1], bytes) else bytes(x.c for x in v.k[1])
    if isinstance(v, VecV) and v.k[0] == "const":
        return bytes(v.k[1].get(i).c for i in range(v.k[1].n))
    raise GiveUp("format template %s" % repr(v)[:80])


def fmt_pieces(t, args):
    """decode a format template (core::fmt::Arguments) into literals and arguments"""
    out, i, k = [], 0, 0
    while True:
        n = t[i]
        i += 1
        if n == 0:
            return tuple(out)
        if n < 0x80:
            out.append(t[i:i + n])
            i += n
        elif n == 0x80:
            m = int.from_bytes(t[i:i + 2], "little")
            out.append(t[i + 2:i + 2 + m])
            i += 2 + m
        elif n >= 0xC0:
            opts = []
            for bit, w in ((1, 4), (2, 2), (4, 2), (8, 2)):
                if n & bit:
                    x = int.from_bytes(t[i:i + w], "little")
                    i += w
                    if bit == 8:
                        k = x
                    else:
                        opts.append((bit, x))
            if n & 0x30:
                raise GiveUp("format width from an argument")
            a = args[k]
            out.append((a.fields[0], a.fields[1]) + tuple(opts))
            k += 1
        else:
            raise GiveUp("format template")


@model("std::fmt::Arguments::new", "core::fmt::Arguments::new")
def m_fmt_new(eng, st, c, args):
    a = args[1]
    if isinstance(a, Slice):
        a = a.base
    if isinstance(a, Ptr):
        a = eng.read(st, a)
    xs = a.fields if isinstance(a, Agg) else a.k[1] if isinstance(a, VecV) and a.k[0] == "lit" else None
    if xs is None:
        raise GiveUp("format arguments")
    return Agg("fmt::Arguments", 0, fmt_pieces(template_bytes(eng, st, args[0]), xs))


@model("std::fmt::Arguments::from_str", "core::fmt::Arguments::from_str")
def m_fmt_str(eng, st, c, args):
    s = args[0]
    if not (isinstance(s, StrV) and s.k[0] == "c"):
        raise GiveUp("format literal")
    return Agg("fmt::Arguments", 0, (s.k[1],))


def fmt_result(eng, st):
    out = []
    for t, x in fork(eng, st, ("op", ("fmtfails", st.nev))):
        out.append((x, err(Agg("std::fmt::Error", 0, ())) if t else ok(UNIT)))
    return out


@model("std::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt")
def m_fmt_write(eng, st, c, args):
    a = args[1]
    if not (isinstance(a, Agg) and a.name == "fmt::Arguments"):
        raise GiveUp("format arguments")
    st.emit("write", a.fields)
    return fmt_result(eng, st)


@model("std::fmt::Formatter::write_str", "core::fmt::Formatter::write_str", "<std::fmt::Formatter as std::fmt::Write>::write_str")
def m_fmt_write_str(eng, st, c, args):
    s = args[1]
    st.emit("write", (s.k[1],) if isinstance(s, StrV) and s.k[0] == "c" else (("new_display", s),))
    return fmt_result(eng, st)


@model("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def m_fmt_format(eng, st, c, args):
    a = args[0]
    if not (isinstance(a, Agg) and a.name == "fmt::Arguments"):
        raise GiveUp("format arguments")
    return fmt_string(a.fields)


def fmt_string(pieces):
    if all(isinstance(p, bytes) for p in pieces):
        return StrV(("c", b"".join(pieces)))
    return StrV(("fmt", pieces))


@model("std::string::ToString::to_string", "<T as std::string::ToString>::to_string")
def m_to_string(eng, st, c, args):
    v = fmt_value(eng, st, args[0])
    if isinstance(v, StrV):
        return v
    return fmt_string((("new_display", v),))


@model("std::str::<impl str>::repeat", "std::str::repeat", "str::repeat", "core::str::repeat", "alloc::str::repeat")
def m_repeat(eng, st, c, args):
    s = args[0]
    if isinstance(s, StrV) and s.k[0] == "c" and args[1].is_const():
        return StrV(("c", s.k[1] * args[1].c))
    return StrV(("repeat", s.k, args[1]))



REORDERS = ("sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable_by", "sort_unstable_by_key", "dedup_by", "dedup_by_key",
            "reverse")


def _two_py(eng, st, a):
    """references to two elements, at any positions"""
    s = as_slice(eng, st, a[0])
    n = s.hi - s.lo
    out = []
    for t, x in fork(eng, st, c_le(K(2), n)):
        if not t:
            out.append((x, NONE))
            continue
        i, j = (atom(("any", eng.fresh()), 0, (1 << 62)) for _ in "ij")
        x.assume(c_lt(i, n))
        x.assume(c_lt(j, n))
        out.append((x, some(Agg("()", 0, (elem_ptr(s, i), elem_ptr(s, j))))))
    return out


def reorder_by(eng, st, c, args, how):
    kind = "dedup" if how.startswith("dedup") else "reverse" if how == "reverse" else "sort"
    if kind == "reverse":
        return reorder(eng, st, c, args, "reverse")
    f = args[1]
    key = (how, f.name if isinstance(f, Agg) else repr(f))

    def last(e, s, a):
        return reorder(e, s, c, [a[0]], kind, key)
    proj = [lambda e, s, a, i=i: e.proj(s, a[0], ("f", 0)).fields[i] for i in (0, 1)]
    B = body(2, 8, [
        ([], ["py", _two_py, [mv(1)], L(3), 1]),
        ([], ["match", L(3), {0: 5, 1: 2}]),
        ([], ["py", proj[0], [mv(3)], L(4), 3]),
        ([], ["py", proj[1], [mv(3)], L(5), 4]),
        ([], ["callv", mv(2), [mv(4)] + ([] if "key" in how else [mv(5)]), L(6), 5]),
        ([], ["py", last, [mv(1)], L(0), 6]),
        ([], RET)])
    return ("push", B, [args[0], f], how)


def reorder(eng, st, c, args, how, by=()):
    """sort, dedup and join of a list: the result as a function of the list"""
    p = args[0]
    if isinstance(p, Slice):
        p0 = p.base
        whole = p.lo == ZERO
    else:
        p0, whole = p, True
    v = eng.read(st, p0)
    if not isinstance(v, VecV):
        raise GiveUp("%s of %s" % (how, type(v).__name__))
    if isinstance(p, Slice) and not (whole and p.hi == v.len):
        raise GiveUp("%s of a part" % how)
    if how == "join":
        return StrV(("join", v.k, v.len, args[1]))
    how = how.replace("_unstable", "")
    if how == "sort":
        eng.write(st, p0, VecV(("sorted", v.k, v.len) + by, v.len, v.ety))
    elif how == "reverse":
        eng.write(st, p0, VecV(("reversed", v.k, v.len), v.len, v.ety))
    else:
        k = ("dedup", v.k, v.len) + by
        n = atom(("len", k), 0, (1 << 62))
        st.assume(c_le(n, v.len))
        if st.prove_le0(K(1) - v.len):
            st.assume(c_le(K(1), n))
        eng.write(st, p0, VecV(k, n, v.ety))
    return UNIT
