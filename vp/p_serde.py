"""What is written by serde and what is read back: C24, C25, C26."""
import re
import serdes, loops
from serdes import Serde, Bad, Und, docs, form, form_of, deep, short, WIDE
from terms import *
from absint import GiveUp, Infeasible
from netparse import Out
from models import knorm

NUM64 = {"i64", "u64", "i128", "u128", "usize", "isize"}
PROPS = "std::vec::Vec<(std::string::String, models::HeaderProp)>"


def setup(P):
    loops.UNROLL = 200         # the loop over the names of a struct is followed name by name
    S = Serde(P)
    S.adts_ser = set(S.adts(S.ser))
    S.adts_de = set(S.adts(S.de))
    return S


def canon(n):
    n = n.replace("&mut ", "").replace("&", "").replace("std::string::String", "str")
    n = re.sub(r"^std::boxed::Box<(.*)>$", r"\1", n)
    return n


def field_problem(S, eng, st, ft, want, t, v, o):
    """why a field of type ft is not written as it should be, or None"""
    f = form(S, eng, st, t, v, o, want=ft)
    if f[0] == "ways":
        return next((p for p in (form_problem(S, e, s, ft, want, g) for g, e, s in f[1]) if p), None)
    return form_problem(S, eng, st, ft, want, f)


def form_problem(S, eng, st, ft, want, f):
    P = S.P
    n = P.tname(ft)
    w = deep(eng, st, want)
    if f[0] not in ("val", "text"):
        raise Und("a field that is written as a %s" % f[0])
    same = deep(eng, st, f[2]) == w or deep(eng, st, BoxV(f[2])) == w
    if n in NUM64:
        if f[0] != "text":
            return "is a 64-bit integer that is not written as text"
    elif f[0] == "text":
        return "is written as text"
    elif WIDE.search(n):
        return "holds 64-bit integers that are not written as text"
    elif P.kind(ft)[0] == "adt" and P.kind(ft)[1] == serdes.OPT and isinstance(w, Agg) and w.variant == 1 and canon(f[1]) == canon(P.tname(P.kind(ft)[2][0])):
        # the content of an option that has one
        same = same or deep(eng, st, f[2]) == w.fields[0]
    elif canon(f[1]) not in ("?", canon(n)):
        return "is a %s and is written as a %s" % (short(n), short(f[1]))
    if not same:
        return "is written with another value"
    return None


def variant_of(eng, st, v):
    if isinstance(v, Agg):
        return v.variant
    if isinstance(v, Sym):
        return st.variants.get(v.k)
    return None


def field(eng, st, v, i, var=None):
    if isinstance(v, Sym):
        v = eng.expand(v, st.variants.get(v.k, 0))
    return v.fields[i]


def written(S, t, o):
    """problems of one type"""
    P = S.P
    name = P.kind(t)[1]
    A = P.adts[name]
    bad = []
    enum = A["kind"].lower() == "enum"
    seen = set()
    for eng, st, v, d in docs(S, t, o):
        var = variant_of(eng, st, v) if enum else 0
        if var is None:
            raise Und("the variant of a path is not known")
        seen.add(var)
        vname, _, fields = A["variants"][var][:3]
        kinds = P.kind(t)[3][var]
        at = short(P.tname(t)) + ("::" + vname if enum else "")
        numbered = all(f.isdigit() for f in fields)
        if enum:
            if d.kind != "variant":
                bad.append((at, "is not written under the name of its variant"))
                continue
            if d.variant != vname:
                bad.append((at, "is written under the name %s" % d.variant))
                continue
            if not fields:
                if d.shape != "unit":
                    bad.append((at, "has no content and content is written"))
                continue
        if numbered and len(fields) == 1:
            if not enum and d.kind not in ("same", "prim", "text"):
                bad.append((at, "is not written as its content"))
                continue
            if enum and d.shape != "newtype":
                bad.append((at, "is not written as its content"))
                continue
            if d.kind in ("prim", "text"):
                f = form_of(S, eng, st, d, o, 0)
                p = "is written as text" if f[0] == "text" and P.tname(kinds[0]) not in NUM64 else \
                    None if deep(eng, st, f[2]) == deep(eng, st, field(eng, st, v, 0)) else "is written with another value"
            else:
                _, wt, wv = d.parts[0]
                p = field_problem(S, eng, st, kinds[0], field(eng, st, v, 0), wt, wv, o)
            if p:
                bad.append((at, p))
            continue
        if numbered:
            if d.kind != "tuple" and d.shape != "tuple":
                raise Und("a tuple that is written as a %s" % d.kind)
            if len(d.parts) != len(fields):
                bad.append((at, "has %d parts and %d are written" % (len(fields), len(d.parts))))
                continue
            for i, (_, wt, wv) in enumerate(d.parts):
                p = field_problem(S, eng, st, kinds[i], field(eng, st, v, i), wt, wv, o)
                if p:
                    bad.append(("%s.%d" % (at, i), p))
            continue
        if d.kind != "struct" and not (enum and d.shape == "struct"):
            if d.kind in ("map", "seq"):
                raise Und("a struct that is written by a loop")
            bad.append((at, "is not written as a map of its fields"))
            continue
        keys = [k for k, _, _ in d.parts]
        for k in keys:
            if k not in fields:
                bad.append((at, "a field that it does not have is written: %s" % k))
            if keys.count(k) > 1:
                bad.append((at, "%s is written twice" % k))
        for i, f in enumerate(fields):
            if f not in keys:
                bad.append(("%s.%s" % (at, f), "is not written" + (" for some values" if f in d.skipped else "")))
                continue
            if P.tname(kinds[i]) == PROPS:
                continue                    # C26
            _, wt, wv = d.parts[keys.index(f)]
            p = field_problem(S, eng, st, kinds[i], field(eng, st, v, i), wt, wv, o)
            if p:
                bad.append(("%s.%s" % (at, f), p))
    if enum and len(seen) != len(A["variants"]):
        raise Und("not every variant was reached")
    return bad, len(seen)


def site(S, table, t):
    i = S.P.insts[table[t]]
    sp = i.get("span") or [0, 0, 0]
    files = S.P.d.get("files") or []
    return "%s (%s:%s)" % (short(S.P.tname(t)), files[sp[0]] if isinstance(sp[0], int) and sp[0] < len(files) else "src", sp[1])


def each(rep, S, types, table, work):
    P = S.P
    for t in types:
        n = P.tname(t)
        o = Out()
        rep.count("units")
        rep.functions.add("boxcars::" + n)
        try:
            bad, k = work(t, o)
        except Bad as e:
            bad, k = [(short(n), str(e))], 1
        except (Und, GiveUp, Infeasible) as e:
            rep.undecided(n, str(e)[:300])
            continue
        except Exception as e:
            rep.undecided(n, "%s: %s" % (type(e).__name__, str(e)[:200]))
            continue
        rep.count("paths", o.states)
        rep.count("obligations", k)
        if not bad:
            rep.count("discharged", k)
        for w, msg in bad:
            rep.violation("%s:%s" % (w, msg[:60]), site(S, table, t), "%s %s" % (w, msg))


def c24(rep, P, tier):
    rep.rule("each Serialize implementation is run with a serializer that records calls, for an arbitrary value of its type; what it records on every path must be the value's fields "
             "under their names, 64-bit integers as text")
    S = setup(P)
    ts = [t for t in S.adts(S.ser) if P.tname(t) != "models::HeaderProp"]
    each(rep, S, ts, S.ser, lambda t, o: written(S, t, o))
    rep.floor("units", 50)
    rep.assumption("serde's own implementations for standard types, and the format, write what they are given")


def back(S, t, o):
    bad, n = [], 0
    for mode, how in (("map", "by name"), ("seq", "by position")):
        r = serdes.round_trip(S, t, o, mode)
        n += len(r)
        for var, p in r:
            if p:
                bad.append((short(S.P.tname(t)) + ("::" + var if var else ""), "read back %s: %s" % (how, p)))
    return bad, n


def c25(rep, P, tier):
    rep.rule("what each Serialize implementation records for an arbitrary value is played to the type's Deserialize implementation, by name and by position; every path must give the value back")
    S = setup(P)
    ts = [t for t in S.adts(S.de) if t in S.adts_ser]
    each(rep, S, ts, S.de, lambda t, o: back(S, t, o))
    rep.floor("units", 44)
    rep.assumption("the format gives back the names, texts and numbers it was given; FromStr of an integer reads what Display writes")


# ------------------------------------------------------------------ C26
def entries_problem(S, eng, st, f, vec, what):
    """a map form must be every entry of a list, once, in order"""
    if f[0] == "ways":
        return next((p for p in (entries_problem(S, e, s, g, vec, what) for g, e, s in f[1]) if p), None)
    if f[0] != "map":
        if f[0] == "val" or f[0] == "struct" or f[0] == "seq":
            return "%s is not written as a map of its entries" % what
        raise Und("%s is written as a %s" % (what, f[0]))
    _, rec, iters, end = f
    if not iters:
        return None if end.prove_le0(vec.len) else "%s: no entry is written" % what
    for x, ev, inner in iters:
        e = eng.elem(x, vec, rec.n)
        k, v = eng.proj(x, e, ("f", 0)), eng.proj(x, e, ("f", 1))
        wk, wv = ev[0][4], ev[1][4]
        rd = lambda a: eng.read(x, a) if isinstance(a, Ptr) else a
        if deep(eng, x, rd(wk)) != deep(eng, x, k):
            return "%s: the key written is not the key of the entry at its place" % what
        if deep(eng, x, rd(wv)) != deep(eng, x, v):
            if ev[1][3] is not None and S.P.tname(ev[1][3]) not in ("models::HeaderProp", "V", "&models::HeaderProp") and not isinstance(rd(wv), (Sym, Agg)):
                raise Und("%s: the value is written through a %s" % (what, short(S.P.tname(ev[1][3]))))
            return "%s: the value written is not the value of the entry at its place" % what
    if not whole(end, rec, vec):
        return "%s: not every entry is written" % what
    return None


def whole(end, rec, vec):
    return end.norm(rec.n - vec.len) == ZERO or (end.prove_le0(vec.len - rec.n) and end.prove_le0(rec.n - vec.len))


def aslist(eng, st, v):
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if not isinstance(v, VecV):
        raise Und("a list that is a %s" % type(v).__name__)
    return v


def header(S, t, o):
    P = S.P
    A = P.adts[P.kind(t)[1]]
    bad, seen = [], set()
    for eng, st, v, d in docs(S, t, o):
        var = variant_of(eng, st, v)
        if var is None:
            raise Und("the variant of a path is not known")
        seen.add(var)
        vn, _, fields = A["variants"][var][:3]
        at = "HeaderProp::" + vn
        f = lambda i: field(eng, st, v, i)
        p = None
        if d.kind == "variant":
            bad.append((at, "is written under the name of its variant"))
            continue
        if vn == "Array":
            if d.kind != "seq":
                p = "is not written as a list"
            else:
                p = array_problem(S, eng, st, d, aslist(eng, st, f(0)), o)
        elif vn in ("Struct", "Byte"):
            if d.kind != "struct":
                p = "is not written as a map of its fields"
            else:
                keys = [k for k, _, _ in d.parts]
                for k in keys:
                    if k not in fields or keys.count(k) > 1:
                        p = "%s is written%s" % (k, " twice" if k in fields else "")
                for i, k in enumerate(fields):
                    if k not in keys:
                        p = "%s is not written" % k
                    else:
                        _, wt, wv = d.parts[keys.index(k)]
                        if vn == "Struct" and k == "fields":
                            p = p or entries_problem(S, eng, st, form(S, eng, st, wt, wv, o), aslist(eng, st, f(i)), "its list of fields")
                        else:
                            q = field_problem(S, eng, st, P.kind(t)[3][var][i], f(i), wt, wv, o)
                            p = p or (q and "%s %s" % (k, q))
        else:
            want = {"Bool": ("val", "bool"), "Float": ("val", "f32"), "Int": ("val", "i32"), "QWord": ("text", "u64"), "Name": ("val", "str"), "Str": ("val", "str")}.get(vn)
            if want is None:
                raise Und("a variant that is not known: %s" % vn)
            if d.kind in ("struct", "tuple", "seq", "map", "null"):
                p = "is written as a %s" % d.kind
            else:
                g = form_of(S, eng, st, d, o, 0)
                if g[0] != want[0] or canon(g[1]) not in ("?", want[1]):
                    p = "is written as %s %s" % ("the text of a" if g[0] == "text" else "a", short(g[1]))
                elif deep(eng, st, g[2]) != deep(eng, st, f(0)):
                    p = "is written with another value"
        if p:
            bad.append((at, p))
    if len(seen) != len(A["variants"]):
        raise Und("not every variant was reached")
    return bad, len(seen)


def untyped(S, eng, st, v, o):
    """a value that is collected: its type is that of a type of the crate"""
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    if isinstance(v, Agg):
        ts = [t for t in S.ser if S.P.kind(t)[0] == "adt" and S.P.kind(t)[1] == v.name]
        if len(ts) == 1:
            return form(S, eng, st, ts[0], v, o)
    raise Und("an element whose type is not known")


def array_problem(S, eng, st, d, vec, o):
    g = serdes.seq_form(S, eng, st, d, o, 0)
    _, rec, iters, end = g
    if not iters:
        return None if end.prove_le0(vec.len) else "no element is written"
    for x, ev, inner in iters:
        _, _, _, wt, wv = ev[0]
        x = x.copy()
        want = eng.elem(x, vec, rec.n)
        h = form(S, eng, x, wt, wv, o) if wt is not None else untyped(S, eng, x, wv, o)
        p = entries_problem(S, eng, x, h, aslist(eng, x, want), "an element")
        if p:
            return p
    if not whole(end, rec, vec):
        return "not every element is written"
    return None


def replay_props(S, t, o):
    P = S.P
    fields = P.adts[P.kind(t)[1]]["variants"][0][2]
    bad, n = [], 0
    for eng, st, v, d in docs(S, t, o):
        for k, wt, wv in d.parts:
            if k in fields and P.tname(P.kind(t)[3][0][fields.index(k)]) == PROPS:
                n += 1
                p = entries_problem(S, eng, st, form(S, eng, st, wt, wv, o), aslist(eng, st, field(eng, st, v, fields.index(k))), k)
                if p:
                    bad.append(("Replay." + k, p))
    if not n:
        return [("Replay.properties", "is not written")], 1
    return bad, n


def c26(rep, P, tier):
    rep.rule("the Serialize implementations of the header's values are run with a serializer that records calls; every variant must be written in its own form, and every loop over entries "
             "must write, in every iteration, the key and the value of the entry with the number of the iteration, and end after the last")
    S = setup(P)
    for n, w in (("models::HeaderProp", header), ("models::Replay", replay_props)):
        ts = [t for t in S.adts(S.ser) if P.tname(t) == n]
        if not ts:
            rep.undecided(n, "no Serialize implementation is known")
        each(rep, S, ts, S.ser, lambda t, o: w(S, t, o))
    rep.floor("units", 2)
    rep.assumption("the format writes the entries of a map in the order it is given them")


CHECKS = {"C24": c24, "C25": c25, "C26": c26}
