"""network::parse: what the header, the object list and the class net cache mean for decoding.

The functions are analysed one by one, calls to the private helpers replaced by what they are specified to return; loops are judged
on one arbitrary iteration."""
import json, os
from terms import *
from absint import Engine, GiveUp, State, seq_cond, phf_table
from models import RES, OPT, ok, err, some, NONE, strval
from container import one, result_types
from loops import get
import accept
import models

HERE = os.path.dirname(os.path.abspath(__file__))
ATTRS, PARENTS, SPAWNS = "boxcars::data::ATTRIBUTES", "boxcars::data::PARENT_CLASSES", "boxcars::data::SPAWN_STATS"


class LeftOut(Exception):
    pass


class Out:
    def __init__(self):
        self.ok, self.bad, self.und = 0, [], []
        self.calls = set()
        self.states = 0
        self.loops = 0

    def good(self, n=1):
        self.ok += n

    def mismatch(self, where, msg):
        self.bad.append((where, msg))

    def undecided(self, msg):
        self.und.append(str(msg)[:300])

    def took(self, eng, out):
        self.states += len(out)
        self.calls |= eng.stats["calls"]
        self.loops += eng.stats["loops"]


def deref(eng, st, v):
    while isinstance(v, Ptr):
        v = eng.read(st, v)
    return v


def fld(P, v, name):
    ns = P.adts[v.name]["variants"][v.variant or 0][2]
    if name not in ns:
        raise GiveUp("no field %s in %s" % (name, v.name))
    return v.fields[ns.index(name)]


def variant_name(P, v):
    return P.adts[v.name]["variants"][v.variant][0]


def run(P, inst, cuts, limit=100, setup=None):
    eng = Engine(P, limit=limit)
    eng.cuts.update(cuts)
    st = State()
    b = P.insts[inst]["body"]
    args = [eng.mksym(b["locals"][j + 1], ("a", j)) for j in range(b["argc"])]
    if setup:
        setup(eng, st, args)
    return eng, args, eng.analyse(inst, args, st)


def givenups(o, out, what):
    for s in out:
        if s.kind == "giveup":
            o.undecided("%s: %s" % (what, (s.info,)))


def loop_id(rec):
    return rec.id


def loops_in(st):
    """all loop records of a path, outermost first, with the state of the enclosing iteration"""
    seen, out = set(), []

    def walk(evs, outer):
        for e in evs:
            if e[0] == "loop" and id(e[1]) not in seen:
                seen.add(id(e[1]))
                out.append((e[1], outer))
                for x, ev in e[1].iters:
                    walk(ev, outer + [(e[1], x)])
    walk(st.events(), [])
    return out


def to_end(o, s, rec, n, what):
    """the loop, left in state s, has gone through all n elements"""
    if s.ev_cond(c_le(n, rec.n)) is True:
        return o.good()
    y = s.copy()
    if y.assume(c_lt(rec.n, n), True) and accept.feasible(y):
        return o.mismatch(WHERE, "%s: not gone through to the end" % what)
    o.undecided("%s: the end of the loop" % what)


# ------------------------------------------------------------------ tables
def text(b):
    return b.decode("utf-8", "replace") if isinstance(b, (bytes, bytearray)) else str(b)


def tables(P):
    at = {}
    for k, v in phf_table(P, ATTRS).items():
        at[text(k)] = variant_name(P, v)
    pa = {}
    for k, v in phf_table(P, PARENTS).items():
        if not (isinstance(v, StrV) and v.k[0] == "c"):
            raise GiveUp("values of PARENT_CLASSES")
        pa[text(k)] = text(v.k[1])
    sp = {}
    a = P.statics[SPAWNS]
    v = P.decode(a["ty"], a["a"], 0)
    mem = v.base.cell[1].k[1]
    for i in range(mem.n):
        k, x = mem.get(i).fields
        sp[text(k.k[1])] = variant_name(P, x)
    return dict(attributes=at, parents=pa, spawns=sp)


def oracle():
    with open(os.path.join(HERE, "tables.json")) as f:
        return json.load(f)


def check_tables(P, which):
    o = Out()
    try:
        cur = tables(P)
    except (GiveUp, KeyError, AttributeError, ValueError, TypeError) as e:
        o.undecided("tables: %s" % (e,))
        return o
    ref = oracle()
    say = dict(attributes="attribute %s decodes as %s instead of %s", parents="class %s descends from %s instead of %s",
               spawns="objects of class %s start with %s instead of %s")
    for t in which:
        for k, v in ref[t].items():
            w = cur[t].get(k)
            if w == v:
                o.good()
            else:
                o.mismatch("src/data.rs", say[t] % (k, w if w is not None else "nothing", v))
        if t == "spawns":
            # a class that is not in the reference table must not change what is inherited by the classes that are
            for k in cur[t]:
                if k not in ref[t] and any(k in chain(ref["parents"], c) for c in ref["spawns"]) and k in ref["parents"].values():
                    for c in sorted(ref["parents"]):
                        a, b = inherit(ref["parents"], ref[t], c), inherit(cur["parents"], cur[t], c)
                        if a != b:
                            o.mismatch("src/data.rs", say[t] % (c, b, a))
                            break
        o.states += len(ref[t])
    if "parents" in which:
        # the hierarchy is followed by a loop without a counter
        for c in cur["parents"]:
            seen, x = set(), c
            while x in cur["parents"] and x not in seen:
                seen.add(x)
                x = cur["parents"][x]
            if x in seen:
                o.mismatch("src/data.rs", "class %s is its own ancestor" % x)
                break
            o.good()
    return o


def chain(parents, c):
    out = [c]
    while c in parents and len(out) < 64:
        c = parents[c]
        out.append(c)
    return out


def inherit(parents, table, c):
    for x in chain(parents, c):
        if x in table:
            return table[x]
    return "None"


# ------------------------------------------------------------------ header lookups
def adt_name(P, v):
    return v.name if isinstance(v, Agg) else P.kind(v.ty)[1]


def spec_num(P, eng, st, v):
    """[(state, option of i32)]"""
    out = []
    for i, x, w in eng.variants_of(st, v):
        n = P.adts[adt_name(P, w)]["variants"][i][0]
        out.append((x, some(eng.proj(x, w, ("f", 0))) if n == "Int" else NONE))
    return out


def spec_str(P, eng, st, v):
    out = []
    for i, x, w in eng.variants_of(st, v):
        n = P.adts[adt_name(P, w)]["variants"][i][0]
        out.append((x, some(eng.proj(x, w, ("f", 0))) if n in ("Name", "Str") else NONE))
    return out


def same(eng, st, a, b):
    a, b = deref(eng, st, a), deref(eng, st, b)
    if isinstance(a, Lin) and isinstance(b, Lin):
        return st.norm(a) == st.norm(b)
    try:
        if isinstance(a, StrV) or isinstance(b, StrV):
            return strval(eng, st, a).k == strval(eng, st, b).k
    except GiveUp:
        pass
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and a.variant == b.variant and len(a.fields) == len(b.fields):
        return all(same(eng, st, x, y) for x, y in zip(a.fields, b.fields))
    return repr(a) == repr(b)


def option(eng, st, v):
    """[(state, payload or None)]"""
    v = deref(eng, st, v)
    return [(x, eng.proj(x, w, ("f", 0)) if i else None) for i, x, w in eng.variants_of(st, v)]


def check_lookup(P, fn, name, spec):
    """the value of the first property of that name, if it has the right type"""
    o = Out()
    where = "src/header.rs %s" % fn
    inst = one(P, fn)
    eng, args, out = run(P, inst, {})
    o.took(eng, out)
    givenups(o, out, fn)
    for s in out:
        if s.kind != "ret":
            continue
        props = fld(P, deref(eng, s, args[0]), "properties")
        recs = [r for r, outer in loops_in(s) if not outer]
        if len(recs) != 1:
            o.undecided("%s: %d loops" % (fn, len(recs)))
            continue
        rec = recs[0]
        el = eng.elem(s, props, rec.n)
        key, val = strval(eng, s, el.fields[0]).k, el.fields[1]
        want = ("op", ("seq", key, ("c", name.encode())))
        # what is known of the names on this path
        found, other = None, []
        for c, t in s.conds.items():
            if c[0] == "op" and c[1][0] == "seq":
                if c == want or c == ("op", ("seq", want[1][2], want[1][1])):
                    found = t
                elif t:
                    other.append(c)
            else:
                other.append(c)
        if any(c[0] == "op" and c[1][0] == "seq" for c in other):
            c = [c for c in other if c[0] == "op" and c[1][0] == "seq"][0]
            sides = c[1][1:]
            if key in sides:
                o.mismatch(where, "looks for %s instead of %s" % ([x for x in sides if x != key][0], name))
            elif any(x[0] == "c" and x[1] == name.encode() for x in sides):
                o.mismatch(where, "does not take the first property named %s" % name)
            else:
                o.undecided("%s: condition %s" % (fn, cond_str(c)))
            continue
        if other:
            o.undecided("%s: condition %s" % (fn, cond_str(other[0])))
            continue
        skipped = all(x.conds.get(want) is False or x.conds.get(("op", ("seq", want[1][2], want[1][1]))) is False for x, _ in rec.iters)
        if not skipped:
            o.undecided("%s: loop" % fn)
            continue
        for y, got in option(eng, s, s.value):
            if found:
                for x, w in spec(P, eng, y.copy(), val):
                    w = w.fields[0] if w.variant else None
                    if (got is None) != (w is None):
                        o.mismatch(where, "%s although the property is %s" % (
                            "no value" if got is None else "a value", "of the right type" if w is not None else "of another type"))
                    elif got is not None and not same(eng, x, got, w):
                        o.mismatch(where, "the value %s is not that of the property" % str(got)[:120])
                    else:
                        o.good()
            elif found is None or found is False:
                if got is not None:
                    o.undecided("%s: value without a matching property" % fn)
                elif s.ev_cond(c_le(props.len, rec.n)) is True:
                    o.good()
                else:
                    o.mismatch(where, "gives up before all properties were considered")
    return o


LOOKUPS = [("Header::num_frames", "NumFrames", spec_num), ("Header::max_channels", "MaxChannels", spec_num),
           ("Header::match_type", "MatchType", spec_str), ("Header::build_version", "BuildVersion", spec_str)]


# ------------------------------------------------------------------ the object index
def index_cuts(P, eng_len):
    """what the object index and the class hierarchy are specified to return"""
    def by_name(eng, st, inst, args):
        n = strval(eng, st, args[1])
        T = P.kind(P.insts[inst]["body"]["locals"][0])[2][0]
        out = []
        for t, x in models.fork(eng, st, ("op", ("named", n.k))):
            if not t:
                out.append((x, NONE))
                continue
            i = atom(("first", n.k), 0, (1 << 31) - 1)
            if eng_len[0] is None or x.assume(c_lt(i, eng_len[0])):
                out.append((x, some(Agg(P.kind(T)[1], 0, (i,)))))
        return out

    def nxt(eng, st, inst, args):
        p = args[0]
        v = eng.read(st, p)
        while isinstance(v, Ptr):
            p = v
            v = eng.read(st, v)
        ns = P.adts[v.name]["variants"][0][2]
        j = [i for i, f in enumerate(v.fields) if isinstance(f, StrV)]
        if len(j) != 1:
            raise GiveUp("shape of the hierarchy iterator")
        j = j[0]
        nm = v.fields[j]
        T = P.kind(P.insts[inst]["body"]["locals"][0])[2][0]
        out = []
        for t, x in models.fork(eng, st, ("op", ("anc?", nm.k))):
            nf = list(v.fields)
            nf[j] = StrV(("anc", nm.k))
            eng.write(x, p, Agg(v.name, v.variant, tuple(nf)))
            if not t:
                out.append((x, NONE))
                continue
            i = atom(("anc-id", nm.k), 0, (1 << 31) - 1)
            if eng_len[0] is None or x.assume(c_lt(i, eng_len[0])):
                out.append((x, some(Agg(P.kind(T)[1], 0, (i,)))))
        return out
    return {one(P, "ObjectIndex::by_name"): by_name, one(P, "AncestorIterator as std::iter::Iterator>::next"): nxt}


def check_index(P):
    """ObjectIndex::new, by_name and hierarchy"""
    o = Out()
    where = "src/network/object_index.rs "
    # new: the first occurrence of every name
    eng, args, out = run(P, one(P, "ObjectIndex::new"), {})
    o.took(eng, out)
    givenups(o, out, "ObjectIndex::new")
    for s in out:
        if s.kind != "ret":
            continue
        objs = deref(eng, s, args[0])
        maps = [f for f in s.value.fields if isinstance(f, MapV)]
        recs = [r for r, outer in loops_in(s) if not outer]
        if len(maps) != 1 or len(recs) != 1 or maps[0].k[:2] != ("h", loop_id(recs[0])):
            o.undecided("ObjectIndex::new: shape")
            continue
        rec = recs[0]
        loc = maps[0].k[2]
        total = objs.len if isinstance(objs, VecV) else objs.hi - objs.lo
        if get(rec.init[loc[0]], loc[1:]) != MapV(("empty",)):
            o.undecided("ObjectIndex::new: not empty at first")
            continue
        if s.ev_cond(c_le(total, rec.n)) is not True:
            o.undecided("ObjectIndex::new: does not run to the end")
            continue
        for x, evs in rec.iters:
            head, new = get(rec.cells0[loc[0]], loc[1:]), get(x.cells[loc[0]], loc[1:])
            name = eng.elem(x, objs, rec.n) if isinstance(objs, VecV) else eng.read(x, models.elem_ptr(objs, rec.n))
            nk = strval(eng, x, name).k
            has = None
            for c, t in x.conds.items():
                if c[0] == "op" and c[1][0] == "has" and c[1][1] == head.k:
                    has = (c, t)
            o_val = None
            if new == head:
                if has and has[1] is True and nk_in(has[0], nk):
                    o.good()
                else:
                    o.mismatch(where + "ObjectIndex::new", "a name is left out of the index")
            elif new.k[0] in ("ins", "upd") and new.k[1] == head.k:
                key, val = new.k[2], new.k[3]
                val = val.fields[0] if isinstance(val, Agg) else val
                if not nk_in(key, nk):
                    o.mismatch(where + "ObjectIndex::new", "an object is entered under something else than its name")
                elif has and has[1] is True:
                    o.mismatch(where + "ObjectIndex::new", "a later object replaces the first one of the same name")
                elif not is_index(x, val, rec.n):
                    o.mismatch(where + "ObjectIndex::new", "a name is given the index %s instead of its position" % (val,))
                elif has is None:
                    o.mismatch(where + "ObjectIndex::new", "a later object replaces the first one of the same name")
                else:
                    o.good()
            else:
                o.undecided("ObjectIndex::new: update")
    # by_name: a lookup
    eng, args, out = run(P, one(P, "ObjectIndex::by_name"), {})
    o.took(eng, out)
    givenups(o, out, "ObjectIndex::by_name")
    for s in out:
        if s.kind != "ret":
            continue
        nk = strval(eng, s, args[1]).k
        has = [(c, t) for c, t in s.conds.items() if c[0] == "op" and c[1][0] == "has"]
        other = [c for c in s.conds if not (c[0] == "op" and c[1][0] == "has")]
        for y, got in option(eng, s, s.value):
            if other or len(has) != 1:
                o.undecided("ObjectIndex::by_name: conditions")
            elif not nk_in(has[0][0], nk):
                o.mismatch(where + "ObjectIndex::by_name", "looks for another name than the one given")
            elif has[0][1] != (got is not None):
                o.mismatch(where + "ObjectIndex::by_name", "an index for a name that is missing, or none for one that is present")
            elif got is not None and not (isinstance(got, (Agg, Sym)) and "mapval" in repr(got)):
                o.mismatch(where + "ObjectIndex::by_name", "the index is not the one entered: %s" % (got,))
            else:
                o.good()
    # the iterator over a hierarchy
    ln = [None]
    cuts = index_cuts(P, ln)
    nxt = one(P, "AncestorIterator as std::iter::Iterator>::next")
    cuts.pop(nxt)

    def norm(eng, st, inst, args):
        n = strval(eng, st, args[0])
        return [(st, StrV(("norm", n.k)))]
    cuts[one(P, "models::normalize_object")] = norm
    eng, args, out = run(P, nxt, cuts)
    o.took(eng, out)
    givenups(o, out, "AncestorIterator::next")
    w = where + "AncestorIterator::next"

    def name_of(v):
        v = [f for f in v.fields if isinstance(f, StrV)]
        if len(v) != 1:
            raise GiveUp("shape of the hierarchy iterator")
        return v[0].k

    def judge(x, cur, new, result):
        """result: 'loop', None or an index"""
        P1 = ("op", ("phfhas", PARENTS, ("norm", cur)))
        N1 = ("op", ("named", cur))
        p, n = x.conds.get(P1), x.conds.get(N1)
        for c in x.conds:
            if c in (P1, N1):
                continue
            if c[0] == "op" and c[1][0] in ("phfhas", "named") and repr(cur) in repr(c):
                continue
            if c[0] == "op" and c[1][0] in ("phfhas", "named"):
                return o.undecided("AncestorIterator::next: %s" % cond_str(c))
            return o.undecided("AncestorIterator::next: %s" % cond_str(c))
        parent = ("phf", PARENTS, ("norm", cur))
        if result is None:
            if p is False:
                return o.good()
            return o.mismatch(w, "the hierarchy ends at a class that has a parent")
        if p is not True:
            return o.mismatch(w, "the hierarchy goes on at a class without a parent, or does not look up its normalised name")
        if repr(parent) not in repr(new) and repr(new) != repr(("s", parent)):
            return o.mismatch(w, "goes on with %s, not with the parent class" % (new,))
        if result == "loop":
            if n is False:
                return o.good()
            return o.mismatch(w, "a class that the replay has is left out of the hierarchy")
        if n is not True:
            return o.mismatch(w, "gives an index for a class the replay does not have")
        if x.norm(result) == atom(("first", cur), 0, (1 << 31) - 1):
            return o.good()
        return o.mismatch(w, "gives index %s instead of that of the class reached" % (result,))

    try:
        for s in out:
            if s.kind != "ret":
                continue
            it = deref(eng, s, args[0])
            recs = [r for r, outer in loops_in(s) if not outer]
            cells = [(("a0",), None)]
            if len(recs) > 1:
                o.undecided("AncestorIterator::next: loops")
                continue
            p = args[0]
            while isinstance(eng.read(s, p), Ptr):
                p = eng.read(s, p)
            if recs:
                rec = recs[0]
                cur = name_of(get(rec.cells0[p.cell], p.path) if p.path else rec.cells0[p.cell])
                for x, evs in rec.iters:
                    judge(x, cur, name_of(eng.read(x, p)), "loop")
            else:
                cur = name_of(eng.mksym(P.insts[nxt]["body"]["locals"][1], ("a", 0)) and deref(eng, State(), args[0]))
            for y, got in option(eng, s, s.value):
                if got is not None:
                    got = got.fields[0] if isinstance(got, Agg) else got
                judge(y, cur, name_of(eng.read(y, p)), got)
    except GiveUp as e:
        o.undecided("AncestorIterator::next: %s" % e)
    return o


def nk_in(c, nk):
    """does a condition or key speak about this text"""
    if isinstance(c, StrV):
        return c.k == nk
    if isinstance(c, tuple):
        return c == nk or any(nk_in(x, nk) for x in c)
    return False


def is_index(x, v, n):
    """v is n as an i32"""
    if not isinstance(v, Lin):
        return False
    if x.norm(v - n) == ZERO:
        return True
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
        k = ATOMS[v.t[0][0]]
        return k[0] == "wrap" and k[-1] == n
    return False


# ------------------------------------------------------------------ names of objects placed in a map
PREFIX = b"TheWorld:PersistentLevel."
PLACED = [b"CrowdActor_TA", b"CrowdManager_TA", b"VehiclePickup_Boost_TA", b"InMapScoreboard_TA", b"BreakOutActor_Platform_TA",
          b"PlayerStart_Platform_TA"]


def normalised(s):
    """the class of an object that is placed in a map: the name of the map and the number of the object are dropped"""
    rest = None
    if s.startswith(PREFIX):
        rest = s[len(PREFIX):]
    elif b"." in s:
        r = s.split(b".", 1)[1]
        if r.startswith(PREFIX):
            rest = r[len(PREFIX):]
    if rest is not None:
        for p in PLACED:
            if rest.startswith(p):
                return PREFIX + p
    return s


class Unknown(Exception):
    pass


def ev_str(k, env):
    """value of a text expression for given texts"""
    if k in env:
        return env[k]
    if k[0] == "c":
        return k[1] if isinstance(k[1], bytes) else k[1].encode()
    if k[0] == "strip":
        s, p = ev_str(k[1], env), ev_str(as_key(k[2]), env)
        return s[len(p):]
    if k[0] == "split1":
        s, p = ev_str(k[1], env), ev_str(as_key(k[2]), env)
        return s.split(p, 1)[1]
    if k[0] == "split0":
        s, p = ev_str(k[1], env), ev_str(as_key(k[2]), env)
        return s.split(p, 1)[0]
    if k[0] == "trim":
        return ev_str(k[1], env).strip()
    if k[0] == "trim_start":
        return ev_str(k[1], env).lstrip()
    if k[0] == "trim_end":
        return ev_str(k[1], env).rstrip()
    if k[0] in ("to_ascii_lowercase", "to_lowercase"):
        return ev_str(k[1], env).lower()
    if k[0] in ("to_ascii_uppercase", "to_uppercase"):
        return ev_str(k[1], env).upper()
    raise Unknown(repr(k)[:120])


def as_key(k):
    if isinstance(k, (bytes, str)):
        return ("c", k if isinstance(k, bytes) else k.encode())
    return k


def ev_lin(l, env):
    r = l.c
    for a, c in l.t:
        k = ATOMS[a]
        if k[0] in ("len", "slen", "strlen"):
            r += c * len(ev_str(k[1], env))
        else:
            raise Unknown(repr(k)[:120])
    return r


def ev_op(k, env):
    op = k[0]
    if op == "starts":
        return ev_str(k[1], env).startswith(ev_str(as_key(k[2]), env))
    if op == "ends":
        return ev_str(k[1], env).endswith(ev_str(as_key(k[2]), env))
    if op == "contains":
        return ev_str(as_key(k[2]), env) in ev_str(k[1], env)
    if op == "seq":
        return ev_str(k[1], env) == ev_str(as_key(k[2]), env)
    if op == "sieq":
        return ev_str(k[1], env).lower() == ev_str(as_key(k[2]), env).lower()
    raise Unknown(op)


def ev_cond_on(c, env):
    if c is True or c is False:
        return c
    if c[0] == "op":
        return ev_op(c[1], env)
    if c[0] == "not":
        return not ev_cond_on(c[1], env)
    if c[0] == "and":
        return ev_cond_on(c[1], env) and ev_cond_on(c[2], env)
    if c[0] == "or":
        return ev_cond_on(c[1], env) or ev_cond_on(c[2], env)
    if c[0] == "le0":
        return ev_lin(c[1], env) <= 0
    if c[0] == "eq0":
        return ev_lin(c[1], env) == 0
    raise Unknown(c[0])


def literals(k, out):
    if isinstance(k, bytes):
        out.add(k)
    elif isinstance(k, tuple):
        for x in k:
            literals(x, out)


def holds_for(s, env, base):
    """does the path accept this text"""
    for c, t in s.conds.items():
        if ev_cond_on(c, env) != t:
            return False
    for f in s.facts:
        if f in base:
            continue
        if not ev_lin(f, env) <= 0:
            return False
    for a, (lo, hi) in s.iv.items():
        v = ev_lin(lin_of(a), env)
        if not lo <= v <= hi:
            return False
    return True


def lin_of(a):
    return Lin(0, ((a, 1),))


def check_normalise(P):
    o = Out()
    fn = "models::normalize_object"
    where = "src/network/models.rs normalize_object"
    eng, args, out = run(P, one(P, fn), {})
    o.took(eng, out)
    givenups(o, out, fn)
    if o.und:
        return o
    lits = {PREFIX, b"."} | {p for p in PLACED}
    for s in out:
        for c in s.conds:
            literals(c, lits)
        literals(s.value.k if isinstance(s.value, StrV) else (), lits)
    # texts that tell all the combinations of the literals apart
    lits = sorted(lits)
    cand = {b"", b"x", b"x.", b"."}
    heads = [b"", b"stadium_p.", b"a.b.", b"a..", b".", b"stadium_p"]
    tails = set()
    for l in lits:
        for suf in (b"", b"_17", b"2", b".x"):
            tails.add(l + suf)
        tails.add(l[:-1])
        tails.add(l.lower())
    for h in heads:
        for m in (b"", PREFIX, PREFIX[:-1], PREFIX + b"x", b"TheWorld:", b"theworld:persistentlevel.", PREFIX + PREFIX):
            for t in tails:
                cand.add(h + m + t)
    key = strval(eng, out[0], args[0]).k
    for text_ in sorted(cand):
        env = {key: text_}
        try:
            hit = [s for s in out if holds_for(s, env, ())]
            if len(hit) != 1 or hit[0].kind != "ret":
                if hit and hit[0].kind == "panic":
                    o.mismatch(where, "panics for %r" % text_)
                else:
                    o.undecided("%s: %d paths for %r" % (fn, len(hit), text_))
                continue
            got = ev_str(strval(eng, hit[0], hit[0].value).k, env)
        except Unknown as e:
            o.undecided("%s: %s" % (fn, e))
            return o
        if got == normalised(text_):
            o.good()
        else:
            o.mismatch(where, "the class of %r is taken to be %r instead of %r" % (text(text_), text(got), text(normalised(text_))))
    return o


# ------------------------------------------------------------------ network::parse itself
def length(v):
    return v.hi - v.lo if isinstance(v, Slice) else v.len


def unsigned(st, n, w):
    """[(state, n as an unsigned number of w bits)]"""
    out = []
    for neg in (False, True):
        x = st.copy()
        if x.assume(c_lt(n, ZERO), neg):
            out.append((x, n + (1 << w) if neg else n))
    return out


class Parse:
    def __init__(self, P):
        self.P = P
        self.calls = []          # (state, decoder) for every call that decodes the frames
        inst = one(P, "network::parse")
        dfs = one(P, "FrameDecoder::decode_frames")
        T, E = result_types(P, dfs)
        ln = [None]
        cuts = index_cuts(P, ln)

        def frames(eng, st, inst, args):
            d = deref(eng, st, args[0])
            self.calls.append((st.copy(), d))
            st.emit("frames", d)
            a, b = st.copy(), st
            return [(a, ok(eng.mksym(T, ("frames",)))), (b, err(eng.mksym(E, ("frames-error",))))]

        def new(eng, st, inst, args):
            t = P.kind(P.insts[inst]["body"]["locals"][0])
            fs = []
            for i, ft in enumerate(t[3][0]):
                fs.append(MapV(("index",)) if P.kind(ft)[1] == "std::collections::HashMap" else eng.mksym(ft, ("idx", i)))
            return [(st, Agg(t[1], 0, tuple(fs)))]

        def trav(eng, st, inst, args):
            st.emit("traverse", tuple(args))
            for p in args:
                if isinstance(p, Ptr):
                    v = eng.read(st, p)
                    if isinstance(v, MapV) and p in self.muts(inst, args):
                        eng.write(st, p, MapV(("travmap", v.k)))
            return [(st, models.UNIT)]
        cuts[dfs] = frames
        cuts[one(P, "ObjectIndex::new")] = new
        cuts[one(P, "network::net_traversal")] = trav
        cuts[one(P, "ProductValueDecoder::create")] = lambda eng, st, inst, args: (
            st.emit("products", tuple(args)), [(st, eng.mksym(P.insts[inst]["body"]["locals"][0], ("products",)))])[1]
        for h, _, _ in LOOKUPS:
            cuts[one(P, h)] = lambda eng, st, inst, args, h=h: [(st, eng.mksym(P.insts[inst]["body"]["locals"][0], ("hdr", h.split("::")[1])))]

        for i, x in enumerate(P.insts):
            n = x["name"]
            if n.startswith("boxcars::network::frame_decoder::SegmentedArray::<") and "ObjectAttribute>::" in n and x.get("body"):
                if n.endswith("::new"):
                    cuts[i] = lambda eng, st, inst, args: [(st, eng.mksym(P.insts[inst]["body"]["locals"][0], ("table", eng.fresh())))]
                elif n.endswith("::insert"):
                    cuts[i] = lambda eng, st, inst, args: (st.emit("insert", tuple(args)), [(st, models.UNIT)])[1]

        def setup(eng, st, args):
            self.header = deref(eng, st, args[0])
            self.body = deref(eng, st, args[1])
            ln[0] = fld(P, self.body, "objects").len
        self.eng, self.args, self.out = run(P, inst, cuts, setup=setup)

    def muts(self, inst, args):
        """the arguments that can be written to"""
        b = self.P.insts[inst]["body"]
        out = []
        for i, a in enumerate(args):
            k = self.P.kind(b["locals"][i + 1])
            if k[0] == "ref" and k[2]:
                out.append(a)
        return out

    def hdr(self, name):
        h = [x for x, _, _ in LOOKUPS if x.endswith(name)][0]
        return self.eng.mksym(self.P.insts[one(self.P, h)]["body"]["locals"][0], ("hdr", name))

    def recs(self, s):
        return loops_in(s)


WHERE = "src/network/mod.rs parse"
RL223 = b"221120.42953.406184"


def implied(st, want, got):
    """is the condition got true exactly when want is, on this path: True, False or None"""
    res = True
    for v in (True, False):
        x = st.copy()
        if not x.assume(want, v):
            continue
        g = got if isinstance(got, bool) else x.ev_cond(got)
        if g is None:
            res = None
        elif g != v:
            return False
    return res


def bvc(v):
    return v.c


def text_order(P, eng, o, st, what, s, got):
    """got: is the text s at or after RL223 in the order of texts"""
    lt, eq = ("op", ("slt", s, ("c", RL223))), ("op", ("seq", s, ("c", RL223)))
    env_ok = 0
    for v in (RL223, RL223[:-1], RL223 + b"0", b"", b"9", b"221120.42953.406183", b"221120.42953.406185", b"3", b"190326.50493.230640",
              b"221120.42953.40618", b"230105.1.1", b"22112", b"Lan"):
        x = st.copy()
        good = True
        for c, t in x.conds.items():
            if c[0] == "op" and c[1][0] in ("slt", "seq") and s in c[1]:
                good = good and ev_order(c[1], {s: v}) == t
        if not good:
            continue
        g = got
        if not isinstance(g, bool):
            try:
                g = ev_cond_on(got, {s: v})
            except Unknown as e:
                return o.undecided("%s: %s" % (what, e))
        if g != (v >= RL223):
            return o.mismatch(WHERE, "%s is %s for build version %s" % (what, g, text(v)))
        env_ok += 1
    o.good() if env_ok else o.undecided("%s: no build version on this path" % what)


def ev_order(k, env):
    a, b = ev_str(as_key(k[1]), env), ev_str(as_key(k[2]), env)
    return a < b if k[0] == "slt" else a == b


def params(P, p, o):
    eng = p.eng
    nf, mc = p.hdr("num_frames"), p.hdr("max_channels")
    mt, bver = p.hdr("match_type"), p.hdr("build_version")
    data = length(fld(P, p.body, "network_data"))
    maj, mino, netv = (fld(P, p.header, n) for n in ("major_version", "minor_version", "net_version"))
    for s, d in p.calls:
        # number of frames
        for x, n in option(eng, s, nf):
            if n is None:
                o.mismatch(WHERE, "frames are decoded although the header has no NumFrames")
                continue
            for x, u in unsigned(x, n, 64):
                if x.norm(fld(P, d, "frames_len") - u) != ZERO:
                    o.mismatch(WHERE, "the number of frames to decode is %s instead of NumFrames" % (fld(P, d, "frames_len"),))
                elif x.ev_cond(c_le(u, data)) is not True:
                    o.mismatch(WHERE, "frames are decoded although NumFrames exceeds the bytes of network data")
                else:
                    o.good()
        # actor ids
        for x, n in option(eng, s, mc):
            for x, m in unsigned(x, n, 32) if n is not None else [(x, K(1023))]:
                g = fld(P, d, "max_channels")
                if x.norm(g - m) != ZERO:
                    o.mismatch(WHERE, "actor ids are below %s instead of %s" % (g, "MaxChannels" if n is not None else "1023"))
                else:
                    o.good()
                cb = fld(P, d, "channel_bits")
                if m.is_const():
                    same_bits(o, x, cb, K(max(m.c.bit_length() - 1, 0)))
                    continue
                lz = ctlz64(eng, x, m)
                for zero in (True, False):
                    # no leading zeros are missing exactly for zero
                    y = x.copy()
                    if y.assume(c_eq(m, ZERO), zero) and y.assume(c_eq(lz, K(64)), zero):
                        same_bits(o, y, cb, ZERO if zero else K(63) - lz)
        # version
        v = fld(P, d, "version")
        for x, n in option(eng, s, netv):
            want = [maj, mino, n if n is not None else ZERO]
            if all(x.norm(a - b) == ZERO for a, b in zip(v.fields, want)):
                o.good()
            else:
                o.mismatch(WHERE, "the version is %s" % (v.fields,))
        # kind of match
        got = bvc(fld(P, d, "is_lan"))
        for x, m in option(eng, s, mt):
            if m is None:
                r = got if isinstance(got, bool) else x.ev_cond(got)
                if r is False:
                    o.good()
                elif r is True:
                    o.mismatch(WHERE, "a match without MatchType is taken to be a LAN match")
                else:
                    o.undecided("is_lan: %s" % (got,))
                continue
            r = implied(x, seq_cond(strval(eng, x, m).k, ("c", b"Lan")) if False else ("op", ("seq", strval(eng, x, m).k, ("c", b"Lan"))), got)
            if r is True:
                o.good()
            elif r is False:
                o.mismatch(WHERE, "a match is not taken to be a LAN match exactly when MatchType is Lan")
            else:
                k = strval(eng, x, m).k
                try:
                    for t in (b"Lan", b"Online", b"Private", b"lan", b"LAN", b"Lan2", b"XLan", b"", b"La", b"Lan ", b" Lan", b"\tLan\n"):
                        ok_ = all(ev_cond_on(c, {k: t}) == b for c, b in x.conds.items() if nk_in(c, k))
                        if ok_ and ev_cond_on(got, {k: t}) != (t == b"Lan"):
                            o.mismatch(WHERE, "a match of type %s is%s taken to be a LAN match" % (text(t), "" if t != b"Lan" else " not"))
                            break
                    else:
                        o.undecided("is_lan: %s" % (got,))
                except Unknown as e:
                    o.undecided("is_lan: %s" % (e,))
        got = bvc(fld(P, d, "is_rl_223"))
        for x, m in option(eng, s, bver):
            if m is None:
                r = got if isinstance(got, bool) else x.ev_cond(got)
                if r is False:
                    o.good()
                elif r is True:
                    o.mismatch(WHERE, "a replay without BuildVersion is taken to be of version 2.23 or later")
                else:
                    y = x.copy()
                    if y.assume(got, True) and accept.feasible(y):
                        o.mismatch(WHERE, "a replay without BuildVersion may be taken to be of version 2.23 or later")
                    else:
                        o.undecided("is_rl_223: %s" % (got,))
            else:
                text_order(P, eng, o, x, "is_rl_223", strval(eng, x, m).k, got)
        # the decoder of products knows the version and the index of objects
        pv = fld(P, d, "product_decoder")
        if "products" not in repr(pv):
            o.undecided("the decoder of products: %s" % (pv,))
        for e in s.events():
            if e[0] == "products":
                vs = [deref(eng, s, a) for a in e[1]]
                if not any(isinstance(a, Agg) and a == v for a in vs):
                    o.mismatch(WHERE, "the decoder of products is made for another version")
                else:
                    o.good()


def same_bits(o, x, got, want):
    if x.norm(got - want) == ZERO:
        o.good()
    else:
        o.mismatch(WHERE, "actor ids take %s bits instead of %s" % (x.norm(got), x.norm(want)))


def ctlz64(eng, st, m):
    return atom(("ctlz", 64, m), 0, 64)


def results(P, p, o):
    eng = p.eng
    nf = p.hdr("num_frames")
    data = length(fld(P, p.body, "network_data"))
    objs = fld(P, p.body, "objects")
    for s in p.out:
        if s.kind == "giveup":
            o.undecided("parse: %s" % (s.info,))
        if s.kind != "ret":
            continue
        called = [e for e in s.events() if e[0] == "frames"]
        for i, x, v in eng.variants_of(s, s.value):
            pay = eng.proj(x, v, ("f", 0))
            if i == 0:
                fr = fld(P, pay, "frames") if isinstance(pay, Agg) else eng.proj(x, pay, ("f", 0))
                for y, n in option(eng, x, nf):
                    if called:
                        if "frames" in repr(fr) and isinstance(fr, (VecV, Sym)):
                            o.good()
                        else:
                            o.mismatch(WHERE, "the frames returned are not those decoded: %s" % (fr,))
                    elif n is not None:
                        o.mismatch(WHERE, "no frames are decoded although the header has NumFrames")
                    elif isinstance(fr, VecV) and y.norm(fr.len) == ZERO:
                        o.good()
                    else:
                        o.mismatch(WHERE, "frames without NumFrames: %s" % (fr,))
                continue
            if isinstance(pay, Sym) or "frames-error" in repr(pay):
                if called and "frames-error" in repr(pay):
                    o.good()
                else:
                    o.undecided("parse: error %s" % (pay,))
                continue
            kind = variant_name(P, pay)
            if called:
                o.mismatch(WHERE, "%s instead of the result of decoding the frames" % kind)
            elif kind == "TooManyFrames":
                for y, n in option(eng, x, nf):
                    if n is None:
                        o.mismatch(WHERE, "too many frames although the header has no NumFrames")
                    elif any(z.ev_cond(c_lt(data, u)) is not True for z, u in unsigned(y, n, 64)):
                        o.mismatch(WHERE, "too many frames although NumFrames does not exceed the bytes of network data")
                    elif not same(eng, y, pay.fields[0], n):
                        o.mismatch(WHERE, "too many frames is reported for %s" % (pay.fields[0],))
                    else:
                        o.good()
            elif kind == "StreamTooLargeIndex":
                stream, ind = (eng.deref_int(x, f) if hasattr(eng, "deref_int") else deref(eng, x, f) for f in pay.fields)
                ks = [ATOMS[a] for a in stream.atoms()], [ATOMS[a] for a in ind.atoms()]
                try:
                    a, b = field_of(P, ks[0][0]), field_of(P, ks[1][0])
                except (GiveUp, IndexError) as e:
                    o.undecided("parse: %s" % (pay,))
                    continue
                if a[0] != b[0] or (a[1], b[1]) != cache_fields(P):
                    o.mismatch(WHERE, "the stream and object of the error are %s" % (pay,))
                elif any(z.ev_cond(c_le(length(objs), u)) is not True for z, u in unsigned(x, ind, 64)):
                    o.mismatch(WHERE, "a stream is rejected although its object exists")
                else:
                    o.good()
            else:
                o.mismatch(WHERE, "fails with %s" % kind)


def cache_fields(P):
    a = [n for n in P.adts if n.endswith("CacheProp")]
    ns = P.adts[a[0]]["variants"][0][2]
    return ns.index("stream_id"), ns.index("object_ind")


def field_of(P, k):
    """(element key, field) of an atom that is a field of an element"""
    while k[0] == "s":
        k = k[1]
    if k[0] != "f":
        raise GiveUp("not a field: %r" % (k,))
    return k[1], k[2]


def check_products(P):
    o = Out()
    fn = "ProductValueDecoder::create"
    where = "src/network/attributes.rs " + fn
    cuts = index_cuts(P, [None])
    eng, args, out = run(P, one(P, fn), cuts)
    o.took(eng, out)
    givenups(o, out, fn)
    want = dict(color_ind=b"TAGame.ProductAttribute_UserColor_TA", painted_ind=b"TAGame.ProductAttribute_Painted_TA",
                special_edition_ind=b"TAGame.ProductAttribute_SpecialEdition_TA", team_edition_ind=b"TAGame.ProductAttribute_TeamEdition_TA",
                title_ind=b"TAGame.ProductAttribute_TitleID_TA")
    for s in out:
        if s.kind != "ret":
            continue
        for f, name in want.items():
            v = fld(P, s.value, f)
            while isinstance(v, Agg):
                v = v.fields[0]
            t = s.conds.get(("op", ("named", ("c", name))))
            if t is None:
                o.mismatch(where, "%s is not looked up" % text(name))
            elif t and s.norm(v) != atom(("first", ("c", name)), 0, (1 << 31) - 1):
                o.mismatch(where, "%s is taken to be object %s" % (text(name), v))
            elif not t and s.norm(v) != ZERO:
                o.mismatch(where, "%s is object %s in a replay without it" % (text(name), v))
            else:
                o.good()
    return o


# ------------------------------------------------------------------ attributes of the class net cache
def aggs(v, name, out, parent=None):
    """every aggregate of that type inside a value, with what encloses it"""
    if isinstance(v, Agg):
        if v.name == name:
            out.append((v, parent))
            return
        for f in v.fields:
            aggs(f, name, out, v)
    elif isinstance(v, (VecV, MapV)):
        aggs(v.k, name, out, parent)
    elif isinstance(v, tuple):
        for f in v:
            aggs(f, name, out, parent)


def only(v):
    while isinstance(v, Agg) and len(v.fields) == 1:
        v = v.fields[0]
    return v


def lookups(P, p, o):
    """what is entered for every property of the class net cache"""
    eng = p.eng
    cache = fld(P, p.body, "net_cache")
    objs = fld(P, p.body, "objects")
    names = [n for n in P.adts if n.endswith("::ObjectAttribute")]
    if len(names) != 1:
        return o.undecided("ObjectAttribute: %s" % names)
    OA = names[0]
    ons = P.adts[OA]["variants"][0][2]
    seen = set()
    outers = set()
    n_ok = 0
    for s in p.out:
        if s.kind != "ret":
            continue
        for rec, outer in loops_in(s):
            if id(rec) in seen or not outer:
                continue
            seen.add(id(rec))
            pushes = []
            for x, ev in rec.iters:
                found = []
                for loc in rec.heads:
                    v = get(x.cells[loc[0]], loc[1:])
                    h = get(rec.cells0[loc[0]], loc[1:])
                    if isinstance(v, MapV) and v.k[0] in ("upd", "ins") and v.k[1] == h.k:
                        a = []
                        aggs(v.k[3], OA, a)
                        if isinstance(v.k[3], VecV):
                            found += [(v.k[2], v.k[3], y, enc) for y, enc in a]
                pushes.append((x, found))
            if not any(f for _, f in pushes):
                continue
            cr, cx = outer[-1]
            if not any(True for _ in [0]) or rec.n is None:
                continue
            c = eng.elem(s, cache, cr.n)
            props = fld(P, c, "properties")
            pr = eng.elem(s, props, rec.n)
            ind, stream = fld(P, pr, "object_ind"), fld(P, pr, "stream_id")
            for x, found in pushes:
                if not found:
                    o.mismatch(WHERE, "a property of the class net cache is left out")
                    continue
                if len(found) != 1:
                    o.undecided("several attributes entered at once")
                    continue
                key, val, oa, enc = found[0]
                if not (isinstance(enc, Agg) and enc.name == "()" and len(enc.fields) == 2):
                    o.undecided("attributes of a class are not entered as pairs")
                    continue
                k, st_, ob = only(key), only(enc.fields[0]), only(oa.fields[ons.index("object_id")])
                if not all(isinstance(q, Lin) for q in (k, st_, ob)):
                    o.undecided("attributes of a class: %r" % (key,))
                    continue
                if x.norm(k - fld(P, c, "object_ind")) != ZERO:
                    o.mismatch(WHERE, "the properties are entered for object %s instead of that of the cache entry" % k)
                elif x.norm(st_ - stream) != ZERO:
                    o.mismatch(WHERE, "a property is entered for stream %s instead of its own" % st_)
                elif x.norm(ob - ind) != ZERO:
                    o.mismatch(WHERE, "a property is entered for object %s instead of its own" % ob)
                else:
                    judge_tag(P, eng, o, x, oa.fields[ons.index("attribute")], strval(eng, x, eng.elem(x, objs, ind)).k)
                entry_list(eng, o, x, rec, cr, cx, key, val)
            # every entry of the class net cache is gone through, each for all its properties
            if id(cr) not in outers and cr.n is not None:
                outers.add(id(cr))
                for y, ev in cr.iters:
                    inner = [e[1] for e in ev if e[0] == "loop"]
                    if any(id(q) == id(rec) or q.site == rec.site for q in inner):
                        o.good()
                    elif y.ev_cond(c_le(length(fld(P, eng.elem(y, cache, cr.n), "properties")), ZERO)) is True:
                        o.good()
                    elif not inner and not any(e[0] != "loop" for e in ev):
                        o.mismatch(WHERE, "the properties of a class net cache entry are left out")
                    else:
                        o.undecided("an entry of the class net cache is gone through in another way")
            # the loop over the properties is left only at their end
            to_end(o, cx, rec, length(props), "the properties of a class")
            n_ok += 1
    for s in p.out:
        if s.kind != "ret" or accept.is_failure(s.value):
            continue
        for e in s.events():
            if e[0] == "loop" and id(e[1]) in outers:
                to_end(o, s, e[1], length(cache), "the class net cache")
    if not n_ok:
        o.undecided("nothing is entered for the class net cache")


def entry_list(eng, o, x, rec, cr, cx, key, val):
    """the property is appended to the list the class has, or to an empty one when it has none yet"""
    if not (isinstance(val, VecV) and val.k[0] == "push"):
        return o.undecided("the list of properties: %r" % (val,))
    loc = [l for l in rec.heads if isinstance(rec.heads[l][1], MapV)]
    if len(loc) != 1:
        return o.undecided("the list of properties: %d maps" % len(loc))
    loc = loc[0]
    head, init = rec.heads[loc][1], rec.heads[loc][0]
    base = strip_s(val.k[1])
    if not (base[0] == "mapval" and base[1] == head.k and repr(base[2]) == repr(key)):
        if base == ("lit", ()):
            o.mismatch(WHERE, "properties entered before for the class are forgotten")
        else:
            o.undecided("the list of properties: %r" % (val,))
        return
    if loc not in cr.heads:
        return o.undecided("the lists of properties are not kept")
    m0 = cr.heads[loc][1]
    had = cx.conds.get(("op", ("has", m0.k, key)))
    if cr.heads[loc][0] != MapV(("empty",)):
        return o.undecided("the lists of properties start as %r" % (cr.heads[loc][0],))
    if init == m0:
        if had is True:
            o.good()
        else:
            o.undecided("the list of properties of a class")
        return
    if not (init.k[0] in ("ins", "upd") and init.k[1] == m0.k and repr(init.k[2]) == repr(key) and isinstance(init.k[3], VecV)) or had is None:
        return o.undecided("the list of properties of a class: %r" % (init,))
    lst = init.k[3]
    empty = cx.norm(lst.len) == ZERO
    if had is False and empty or had is True and strip_s(lst.k) == ("mapval", m0.k, key):
        o.good()
    elif had is True and empty:
        o.mismatch(WHERE, "properties entered by an earlier class net cache for the class are forgotten")
    else:
        o.undecided("the list of properties of a class starts as %r" % (lst,))


def judge_tag(P, eng, o, x, tag, name):
    c = ("op", ("phfhas", ATTRS, name))
    t = x.conds.get(c)
    other = [q for q in x.conds if q[0] == "op" and q[1][0] == "phfhas" and q != c]
    if t is None:
        if other:
            return o.mismatch(WHERE, "the kind of an attribute is looked up by %s instead of the name of its object" % (other[0][1][2],))
        return o.undecided("kind of attribute: %r" % (tag,))
    if t:
        if isinstance(tag, Sym) and tag.k == ("phf", ATTRS, name):
            return o.good()
        return o.mismatch(WHERE, "the kind of a known attribute is %r instead of the one in the table" % (tag,))
    if isinstance(tag, Agg) and variant_name(P, tag) == "NotImplemented":
        return o.good()
    return o.mismatch(WHERE, "the kind of an unknown attribute is %r" % (tag,))


# ------------------------------------------------------------------ how objects start
def type_is(P, t, *names):
    """is t the type names[0]<names[1]<...>>"""
    for n in names:
        if t is None:
            return False
        k = P.kind(t)
        if k[0] != "adt" or not (k[1] == n or k[1].endswith("::" + n)):
            return False
        t = k[2][0] if len(k) > 2 and k[2] else None
    return True


def slot_locs(P, rec, *names):
    out = []
    for loc in rec.heads:
        if loc[-1] == "vk":
            v = get(rec.cells0[loc[0]], loc[1:-1])
            if isinstance(v, VecV) and type_is(P, v.ety, *names):
                out.append(loc[:-1])
    return out


def vec(cells, loc):
    return get(cells[loc[0]], loc[1:])


SP = ("std::option::Option", "SpawnTrajectory")


def spawns(P, p, o):
    eng = p.eng
    objs = fld(P, p.body, "objects")
    a = P.statics[SPAWNS]
    table = P.decode(a["ty"], a["a"], 0)
    size = table.hi - table.lo if isinstance(table, Slice) else table.len
    done = set()
    for s, d in p.calls[:4]:
        recs = [(r, outer) for r, outer in loops_in(s)]
        top = [r for r, outer in recs if not outer and slot_locs(P, r, *SP)]
        if len(top) != 2:
            o.undecided("spawns: %d loops" % len(top))
            return
        T, H = top
        loc = slot_locs(P, T, *SP)[0]
        if id(T) not in done:
            done.add(id(T))
            spawn_table(P, p, o, s, T, loc, size)
            spawn_hierarchy(P, p, o, s, H, loc, objs)
        # what the decoder gets
        v = deref(eng, s, fld(P, d, "spawns"))
        last = [r for r, outer in recs if isinstance(v, VecV) and v.k[0] == "h" and r.id == v.k[1]]
        if len(last) != 1 or not type_is(P, v.ety, "SpawnTrajectory"):
            o.undecided("spawns given to the decoder: %r" % (v,))
            continue
        L = last[0]
        if s.ev_cond(c_eq(v.len, objs.len)) is not True:
            o.mismatch(WHERE, "the decoder gets %s starting states for %s objects" % (v.len, objs.len))
        src = vec(s.cells, loc) if False else VecV(("h", H.id, loc + ("vk",)), objs.len, vec(H.cells0, loc).ety)
        for x, ev in L.iters:
            w = vec(x.cells, v.k[2][:-1])
            if not (w.k[0] == "push" and w.k[1] == v.k):
                o.undecided("spawns given to the decoder: %r" % (w,))
                continue
            for y, e in option(eng, x, eng.elem(x, src, L.n)):
                got = deref(eng, y, w.k[3])
                if e is None:
                    if isinstance(got, Agg) and variant_name(P, got) == "None":
                        o.good()
                    else:
                        o.mismatch(WHERE, "an object without a known ancestor starts with %r" % (got,))
                elif same(eng, y, got, e):
                    o.good()
                elif isinstance(got, (Agg, Sym)):
                    o.mismatch(WHERE, "an object starts with %r instead of %r" % (got, e))


def writes(P, rec, loc):
    """per iteration: (state, None) or (state, (index, value)); None when something else happens"""
    out = []
    for x, ev in rec.iters:
        h, w = vec(rec.cells0, loc), vec(x.cells, loc)
        if w.k == h.k:
            out.append((x, None))
        elif w.k[0] == "set" and w.k[1] == h.k:
            out.append((x, (w.k[2], w.k[3])))
        else:
            return None
    return out


def payload(eng, st, v):
    """the payload of a value known to be Some"""
    r = option(eng, st, v)
    if len(r) != 1 or r[0][1] is None:
        return None
    return r[0][1]


def spawn_table(P, p, o, s, T, loc, size):
    eng = p.eng
    init = vec(T.init, loc)
    if not (init.k[0] == "rep" and isinstance(init.k[1], Agg) and init.k[1].variant == 0):
        o.undecided("spawns start as %r" % (init,))
    ws = writes(P, T, loc)
    if ws is None:
        return o.undecided("loop over the starting states")
    if s.ev_cond(c_le(size, T.n)) is not True and not all(x.arange(T.n.t[0][0])[1] + 1 >= 0 for x, _ in ws):
        return o.undecided("loop over the starting states")
    for x, w in ws:
        named = [(c, t) for c, t in x.conds.items() if c[0] == "op" and c[1][0] == "named"]
        if len(named) != 1 or any(c[0] == "op" and c[1][0] not in ("named",) for c in x.conds):
            o.undecided("loop over the starting states: %s" % [cond_str(c) for c in x.conds][:3])
            continue
        (c, t), = named
        if not t:
            if w is None:
                o.good()
            else:
                o.mismatch(WHERE, "a starting state is entered for a class the replay does not have")
            continue
        if w is None:
            o.mismatch(WHERE, "the starting state of a class is left out")
            continue
        i, v = w
        # the name and the state come from the same entry of the table
        v = payload(eng, x, v)
        key = c[1][1]
        while isinstance(key, tuple) and key[0] in ("s",):
            key = key[1]
        if x.norm(i) != atom(("first", c[1][1]), 0, (1 << 31) - 1):
            o.mismatch(WHERE, "a starting state is entered at %s" % (i,))
        elif not (isinstance(v, Sym) and v.k[0] == "f" and key[0] == "f" and v.k[1] == key[1] and (key[2], v.k[2]) == (0, 1)):
            o.undecided("starting state: %r" % (v,))
        else:
            o.good()


def spawn_hierarchy(P, p, o, s, H, loc, objs):
    eng = p.eng
    to_end(o, s, H, objs.len, "the starting states of the objects")
    for x, evs in H.iters:
        inner = [e[1] for e in evs if e[0] == "loop"]
        walk = [r for r in inner if not slot_locs(P, r, *SP)]
        put = [r for r in inner if slot_locs(P, r, *SP)]
        if not walk:
            # a walk of at most a few steps: does it end before the hierarchy does
            c, known, k = strval(eng, x, eng.elem(x, objs, H.n)).k, False, 0
            while not known and x.conds.get(("op", ("anc?", c))) is True:
                e = option(eng, x, eng.elem(x, vec(H.cells0, loc), atom(("anc-id", c), 0, (1 << 31) - 1)))
                known = any(pl is not None for _, pl in e)
                c, k = ("anc", c), k + 1
            if not known and k and ("op", ("anc?", c)) not in x.conds:
                o.mismatch(WHERE, "the walk over a hierarchy ends after %d classes" % k)
                continue
        if not evs and not any("anc" in repr(c) for c in x.conds) and \
                any(pl is None for _, pl in option(eng, x, eng.elem(x, vec(H.cells0, loc), H.n))):
            o.mismatch(WHERE, "the hierarchy of an object is not walked, so it and its ancestors may stay without a starting state")
            continue
        if len(walk) != 1 or len(put) != 1:
            o.undecided("starting states of a hierarchy: %d loops" % len(inner))
            continue
        W_, Q = walk[0], put[0]
        names = [l for l in W_.heads if isinstance(W_.heads[l][0], StrV)]
        stacks = slot_locs(P, W_, "ObjectId")
        if len(names) != 1 or len(stacks) != 1:
            o.undecided("walk over a hierarchy")
            continue
        nm, stk = names[0], stacks[0]
        if W_.heads[nm][0].k != strval(eng, x, eng.elem(x, objs, H.n)).k:
            o.mismatch(WHERE, "the hierarchy walked is not that of the object")
            continue
        if vec(W_.init, stk).len != ZERO:
            o.undecided("walk over a hierarchy starts with a stack")
            continue
        cur = W_.heads[nm][1].k
        at = lambda y: atom(("anc-id", cur), 0, (1 << 31) - 1)
        table = vec(W_.cells0, loc)
        good = True
        for y, ev in W_.iters:
            e = option(eng, y, eng.elem(y, table, at(y)))
            w = vec(y.cells, stk)
            if y.conds.get(("op", ("anc?", cur))) is not True:
                o.undecided("walk over a hierarchy: %s" % [cond_str(c) for c in y.conds][-2:])
                good = False
            elif any(pl is not None for _, pl in e):
                o.mismatch(WHERE, "the walk goes on past an ancestor whose starting state is known")
                good = False
            elif not (w.k[0] == "push" and w.k[1] == vec(W_.cells0, stk).k and y.norm(only(w.k[3]) - at(y)) == ZERO):
                o.mismatch(WHERE, "an object on the way to the ancestor is left out")
                good = False
            else:
                o.good()
        if not good:
            continue
        t = x.conds.get(("op", ("anc?", cur)))
        if t is None:
            o.undecided("end of the walk over a hierarchy")
            continue
        ws = writes(P, Q, loc)
        if ws is None:
            o.undecided("starting states of a hierarchy")
            continue
        stack = vec(x.cells, stk)
        full = VecV(("h", W_.id, stk + ("vk",)), W_.n, None)
        if x.ev_cond(c_le(W_.n, Q.n)) is not True:
            o.undecided("starting states are not entered for the whole stack")
            continue
        for y, w in ws:
            if w is None:
                o.mismatch(WHERE, "the starting state of an object on the way is left out")
                continue
            i, v = w
            v = payload(eng, y, v)
            k = ATOMS[i.t[0][0]] if isinstance(i, Lin) and len(i.t) == 1 and i.c == 0 else None
            if k is None or repr(full.k) not in repr(k):
                o.undecided("index of a starting state: %s" % (i,))
            elif v is None:
                o.mismatch(WHERE, "the starting state entered may be none at all")
            elif t is False:
                if isinstance(v, Agg) and variant_name(P, v) == "None":
                    o.good()
                else:
                    o.mismatch(WHERE, "without a known ancestor an object starts with %r" % (v,))
            else:
                e = payload(eng, x, eng.elem(x, table, at(x)))
                if e is None:
                    o.mismatch(WHERE, "the walk stops at an ancestor whose starting state is not known")
                elif same(eng, y, v, e):
                    o.good()
                else:
                    o.mismatch(WHERE, "an object starts with %r instead of the state of its ancestor" % (v,))


# ------------------------------------------------------------------ inheritance of attributes
def seq_of(eng, st, v, closed, out=None):
    """a list as a concatenation of parts: ('head', L, loc), ('sym', key), ('all', list), ('item', value)"""
    k = v.k
    if k == ("lit", ()):
        return []
    if k[0] == "push":
        return seq_of(eng, st, VecV(k[1], ZERO, v.ety), closed) + [("item", k[3])]
    if k[0] == "h":
        rec = closed.get(k[1])
        if rec is None:
            return [("head", k)]
        loc = k[2][:-1]
        init = seq_of(eng, st, vec(rec.init, loc), closed)
        srcs = set()
        ws = [vec(x.cells, loc) for x, ev in rec.iters]
        if any(w.k == k for w in ws) and any(w.k[0] == "push" and w.k[1] == k for w in ws):
            raise LeftOut("some of the attributes are left out")
        for x, ev in rec.iters:
            w = vec(x.cells, loc)
            if not (w.k[0] == "push" and w.k[1] == k):
                raise GiveUp("list built in %s" % rec.site)
            it = source_of(eng.P, w.k[3], rec)
            srcs.add(it)
        if len(srcs) != 1:
            raise GiveUp("list built in %s" % rec.site)
        return init + [("all", srcs.pop())]
    return [("sym", k)]


def source_of(P, v, rec):
    """the collection of which a pair is the element number n of the loop"""
    ks = set()

    def walk(v, depth):
        if isinstance(v, Agg):
            for f in v.fields:
                walk(f, depth + 1)
        elif isinstance(v, Sym):
            ks.add(root(v.k))
        elif isinstance(v, Lin) and len(v.t) == 1 and v.c == 0:
            ks.add(root(ATOMS[v.t[0][0]]))
        else:
            raise GiveUp("element %r" % (v,))

    def root(k):
        while isinstance(k, tuple) and k and k[0] in ("s", "f"):
            k = k[1]
        if not isinstance(k, tuple):
            raise GiveUp("element %r" % (k,))
        if k[0] == "elem" and k[2] == rec.n:
            return ("elems", strip_s(k[1]))
        if k[0] == "elem" and isinstance(k[2], Lin) and not any(a == rec.n.t[0][0] for a in (k[2] + rec.n).atoms()):
            return ("elems-rev", strip_s(k[1]))
        if k[0] == "mapkey" and k[2] == rec.n:
            return ("entries", strip_s(k[1]))
        if k[0] in ("elem", "mapkey") and isinstance(k[2], Lin) and k[2].c == 0 and sorted(ATOMS[a][0] for a, q in k[2].t if q == 1) == ["h", "n"] \
                and any(ATOMS[a][:2] == ("h", rec.id) for a, _ in k[2].t):
            # the position of the loop plus the number of entries an inner loop has gone past without using them
            raise LeftOut("some of the attributes are left out")
        if k[0] == "mapval" and isinstance(k[2], (Agg, Lin)) and ("mapkey" in repr(k[2])):
            return ("entries", strip_s(k[1]))
        raise GiveUp("element %r" % (k,))
    walk(v, 0)
    if len(ks) != 1:
        raise GiveUp("element made of %d collections" % len(ks))
    return ks.pop()


def strip_s(k):
    while isinstance(k, tuple) and len(k) == 2 and k[0] == "s":
        k = k[1]
    return k


def check_traversal(P):
    o = Out()
    fn = "network::net_traversal"
    where = "src/network/mod.rs net_traversal"
    inst = one(P, fn)
    ln = [atom(("objects",), 0, (1 << 31) - 1)]
    cuts = index_cuts(P, ln)
    slots = {}

    def kind_of(t):
        k = P.kind(t)
        if k[0] != "ref":
            return "str" if k[0] == "str" else None
        i = P.kind(k[1])
        if i[0] == "str":
            return "name"
        if i[0] == "adt" and i[1] == "std::collections::HashMap":
            v = P.kind(i[2][1])
            return "props" if v[0] == "adt" and v[1] == "std::vec::Vec" else "attrs"
        if i[0] == "adt" and i[1] == "std::vec::Vec":
            return "stack" if type_is(P, i[2][0], "ObjectId") else "acc"
        return "other"

    def setup(eng, st, args):
        b = P.insts[inst]["body"]
        for j, a in enumerate(args):
            slots.setdefault(kind_of(b["locals"][j + 1]), []).append(a)
    eng, args, out = run(P, inst, cuts, setup=setup)
    o.took(eng, out)
    givenups(o, out, fn)
    if any(len(slots.get(n, ())) != 1 for n in ("name", "props", "attrs", "stack", "acc")):
        o.undecided("parameters of %s" % fn)
        return o
    A, S, N, C, PR = (slots[n][0] for n in ("attrs", "stack", "name", "acc", "props"))
    for s in out:
        if s.kind != "ret":
            continue
        try:
            traversal_path(P, eng, o, s, where, A, S, N, C, PR)
        except LeftOut as e:
            o.mismatch(where, e)
        except GiveUp as e:
            o.undecided("%s: %s" % (fn, e))
    return o


def traversal_path(P, eng, o, s, where, A, S, N, C, PR):
    top = [(e[1]) for e in s.events() if e[0] == "loop"]
    al, sl, cl = (A.cell,) + A.path, (S.cell,) + S.path, (C.cell,) + C.path
    fill = [r for r in top if al in r.heads]
    walk = [r for r in top if sl + ("vk",) in r.heads and r not in fill]
    if len(fill) != 1 or len(walk) != 1:
        raise GiveUp("%d loops" % len(top))
    Wk, F = walk[0], fill[0]
    closed = {r.id: r for r in top}
    names = [l for l in Wk.heads if isinstance(Wk.heads[l][0], StrV)]
    if len(names) != 1:
        raise GiveUp("walk over a hierarchy")
    if Wk.heads[names[0]][0].k != strval(eng, s, N).k:
        o.mismatch(where, "the hierarchy walked is not that of the object")
        return
    cur = Wk.heads[names[0]][1].k
    at = atom(("anc-id", cur), 0, (1 << 31) - 1)
    attrs0 = get(Wk.init[al[0]], al[1:])
    has = lambda y: [t for c, t in y.conds.items() if c[0] == "op" and c[1][0] == "has" and c[1][1] == attrs0.k and repr(at) in repr(c[1][2])]
    # the walk: every ancestor until one whose attributes are known
    stack0 = vec(Wk.init, sl)
    for y, ev in Wk.iters:
        w = vec(y.cells, sl)
        if y.conds.get(("op", ("anc?", cur))) is not True:
            raise GiveUp("walk over a hierarchy")
        if has(y) != [False]:
            if has(y) == [True]:
                raise GiveUp("the walk goes on past an ancestor whose attributes are known")
            raise GiveUp("walk over a hierarchy: known ancestors")
        if not (w.k[0] == "push" and w.k[1] == vec(Wk.cells0, sl).k and y.norm(only(w.k[3]) - at) == ZERO):
            o.mismatch(where, "a class on the way to the ancestor is left out")
            return
        o.good()
    more = s.conds.get(("op", ("anc?", cur)))
    if more is None or (more and has(s) != [True]):
        raise GiveUp("end of the walk")
    # the walk back, from the ancestor down to the object itself
    ws = list(F.iters)
    full = stack0.len + Wk.n
    if s.ev_cond(c_le(full, F.n)) is not True:
        raise GiveUp("the walk back is not known to be complete")
    sk = ("h", Wk.id, sl + ("vk",))
    for y, ev in ws:
        inner = {e[1].id: e[1] for e in ev if e[0] == "loop"}
        h, w = get(F.cells0[al[0]], al[1:]), get(y.cells[al[0]], al[1:])
        if w.k == h.k:
            o.mismatch(where, "the attributes of a class on the way are left out")
            continue
        if w.k[0] not in ("ins", "upd") or w.k[1] != h.k or not isinstance(w.k[3], MapV):
            raise GiveUp("update of the attributes: %r" % (w.k[0],))
        ind = only(w.k[2])
        k = strip_s(ATOMS[ind.t[0][0]]) if isinstance(ind, Lin) and len(ind.t) == 1 and ind.c == 0 else ()
        while isinstance(k, tuple) and k and k[0] in ("f", "s"):
            k = k[1]
        if not (isinstance(k, tuple) and k and k[0] == "elem" and strip_s(k[1]) == sk):
            raise GiveUp("class whose attributes are entered: %s" % (ind,))
        if y.norm(k[2] - (full - F.n - 1)) != ZERO:
            if y.norm(k[2] - F.n) == ZERO:
                o.mismatch(where, "classes are given their attributes before their ancestors are")
                continue
            raise GiveUp("order of classes: %s" % (k[2],))
        # the attributes entered, as a sequence of parts, the later ones winning
        recs = {k: v for k, v in inner.items()}
        parts = last_of(map_seq(eng, y, w.k[3], recs))
        heads = [p for p in parts if p[0] == "head"]
        if any(k[1] != F.id for _, k in heads):
            raise GiveUp("attributes of a class: %r" % (heads,))
        own_parts = [p for p in parts if p[0] != "head"]
        carried = []
        for _, hk in heads:
            loc = hk[2]
            if loc[-1] == "vk":
                loc = loc[:-1]
            v0 = get(F.init[loc[0]], loc[1:])
            v1 = get(y.cells[loc[0]], loc[1:])
            outer = {k: v for k, v in closed.items() if v is not F}
            if isinstance(v0, MapV):
                carried.append((hk, map_seq(eng, s, v0, outer), last_of(map_seq(eng, y, v1, recs)), True))
            else:
                carried.append((hk, seq_of(eng, s, vec(F.init, loc), outer), seq_of(eng, y, vec(y.cells, loc), recs), False))
        if len(carried) == 2:
            # a map that is not emptied holds nothing but what is entered again from the list
            for c, d in (carried, carried[::-1]):
                if c[3] and not d[3] and c[1] == [] and [p for p in c[2] if p != ("head", c[0])] == d[2] == [p for p in parts if p != ("head", c[0])]:
                    carried = [d]
                    parts = [p for p in parts if p != ("head", c[0])]
                    break
        if len(carried) > 1:
            raise GiveUp("attributes of a class: %r" % (heads,))
        if not carried:
            if any(is_iter_of(p, y, F) for p in own_parts) or not own_parts:
                o.mismatch(where, "a class does not inherit the attributes of its ancestors")
                continue
            raise GiveUp("attributes of a class: %r" % (parts,))
        hk, acc0, newacc, _ = carried[0]
        # what is inherited at first
        if any(p[0] == "sym" for p in acc0):
            o.mismatch(where, "a class gets attributes of a class that is not an ancestor")
            continue
        if more:
            if not (len(acc0) == 1 and acc0[0][0] == "all" and acc0[0][1][0] == "entries" and repr(at) in repr(acc0[0][1])
                    and repr(attrs0.k) in repr(acc0[0][1])):
                o.mismatch(where, "the attributes inherited at first are %r instead of those of the ancestor" % (acc0,))
                continue
        elif acc0:
            o.mismatch(where, "attributes are inherited without an ancestor: %r" % (acc0,))
            continue
        o.good()
        props = get(F.init[PR.cell], PR.path)
        own = [t for c, t in y.conds.items() if c[0] == "op" and c[1][0] == "has" and c[1][1] == props.k and repr(ind) in repr(c[1][2])]
        wantparts = [("head", hk)]
        if own == [True]:
            tail = parts[1:] if parts[:1] == wantparts else None
            if tail is None and parts and parts[-1] == wantparts[0]:
                o.mismatch(where, "attributes of an ancestor replace those of the class itself")
                continue
            if tail is None or len(tail) != 1 or tail[0][0] != "all" or tail[0][1][0] != "elems":
                if parts == wantparts:
                    o.mismatch(where, "a class does not get its own attributes")
                    continue
                raise GiveUp("the attributes of a class are %r" % (parts,))
            if not (repr(props.k) in repr(tail[0][1]) and repr(ind) in repr(tail[0][1])):
                o.mismatch(where, "the attributes added to a class are those of %r" % (tail[0][1],))
                continue
        elif own == [False]:
            if parts != wantparts:
                o.mismatch(where, "a class without an entry in the class net cache has %r instead of what it inherits" % (parts,))
                continue
        else:
            if parts == wantparts:
                o.mismatch(where, "a class does not get its own attributes")
                continue
            raise GiveUp("own attributes of a class")
        if newacc != parts:
            o.mismatch(where, "the next class inherits %r instead of %r" % (newacc, parts))
            continue
        o.good()


def is_iter_of(p, y, F):
    return p[0] == "all" and repr(F.n) in repr(p)


def last_of(parts):
    """a part that occurs again later adds nothing"""
    return [p for i, p in enumerate(parts) if p not in parts[i + 1:]]


def map_seq(eng, st, m, closed):
    """a map as the sequence of the entries put into it"""
    k = m.k
    if k == ("empty",):
        return []
    if k[0] == "h":
        rec = closed.get(k[1])
        if rec is None:
            return [("head", k)]
        loc = k[2]
        srcs, first = set(), False
        for z, _ in rec.iters:
            mh, mw = get(rec.cells0[loc[0]], loc[1:]), get(z.cells[loc[0]], loc[1:])
            if mw.k == mh.k and any(c[0] == "op" and c[1][0] == "has" and c[1][1] == mh.k and t for c, t in z.conds.items()):
                first = True
                continue
            if mw.k[0] not in ("ins", "upd") or mw.k[1] != mh.k:
                raise GiveUp("map built in %s" % rec.site)
            srcs.add(source_of(eng.P, Agg("()", 0, (mw.k[2], mw.k[3])), rec))
        if len(srcs) != 1:
            raise GiveUp("map built in %s" % rec.site)
        src = srcs.pop()
        add = [("all", src)]
        if first:
            # the first entry for a stream id stays
            if src[0] == "elems":
                parts = seq_of(eng, st, VecV(src[1], ZERO, None), closed)
                if len(parts) > 1 and parts[0][0] == "head":
                    raise LeftOut("attributes of an ancestor are kept instead of those of the class itself")
            raise GiveUp("map built in %s" % rec.site)
        if src[0] in ("elems", "elems-rev"):
            parts = seq_of(eng, st, VecV(src[1], ZERO, None), closed)
            if parts != [("sym", src[1])]:
                add = parts[::-1] if src[0] == "elems-rev" else parts
            elif src[0] == "elems-rev":
                raise GiveUp("map built backwards in %s" % rec.site)
        return map_seq(eng, st, get(rec.init[loc[0]], loc[1:]), closed) + add
    if k[0] in ("ins", "upd"):
        raise GiveUp("map with an entry of its own")
    return [("sym", k)]


def mapkey_of(st, m, k):
    return k


# ------------------------------------------------------------------ the width of attribute ids
def unwrap(st, l):
    """drop truncations that change nothing on this path"""
    if not isinstance(l, Lin):
        return l
    l = st.norm(l)
    r = K(l.c)
    for a, c in l.t:
        k = ATOMS[a]
        v = Lin(0, ((a, 1),))
        if k[0] == "wrap":
            inner = unwrap(st, k[3])
            w = k[2] if isinstance(k[2], int) else None
            if w and k[1] == 0:
                lo, hi = st.bounds(inner)
                if lo >= 0 and hi < (1 << w):
                    v = inner
        elif k[0] == "ctlz":
            v = atom((k[0], k[1], unwrap(st, k[2])), 0, k[1])
        r = r + v.scale(c)
    return st.norm(r)


def is_max_loop(P, rec, loc):
    """the loop-carried number becomes the largest of itself and the key of the iteration"""
    h = rec.heads[loc][1]
    if not isinstance(h, Lin):
        return False
    for x, ev in rec.iters:
        w = get(x.cells[loc[0]], loc[1:])
        ks = [ATOMS[a] for f in x.facts for a in f.atoms()] + [ATOMS[a] for a in (w.atoms() if isinstance(w, Lin) else ())]
        keys = {k for k in ks if k[0] == "s" and "mapkey" in repr(k) and has_n(k, rec)}
        if len(keys) != 1 or not isinstance(w, Lin):
            return False
        key = atom(keys.pop())
        if w != h and w != key:
            return False
        if x.ev_cond(c_le(h, w)) is not True or x.ev_cond(c_le(key, w)) is not True:
            return False
    return bool(rec.iters)


def has_n(k, rec):
    na = rec.n.t[0][0]
    if isinstance(k, Lin):
        return na in k.atoms()
    if isinstance(k, tuple):
        return any(has_n(x, rec) for x in k)
    if isinstance(k, (Agg,)):
        return any(has_n(x, rec) for x in k.fields)
    return False


def caches(P, p, o):
    eng = p.eng
    done = set()
    for s, d in p.calls:
        for rec, outer in loops_in(s):
            for l in slot_locs(P, rec, "std::option::Option", "CacheInfo"):
                if id(rec) not in done:
                    done.add(id(rec))
                    try:
                        cache_loop(P, eng, o, s, rec, l)
                    except (GiveUp, KeyError, IndexError, AttributeError) as e:
                        o.undecided("attribute tables: %s %s" % (type(e).__name__, e))
    if not done:
        o.undecided("attribute tables: no loop found")
    traversed(P, p, o)


def traversed(P, p, o):
    """the attributes of every object are gathered"""
    eng = p.eng
    objs = fld(P, p.body, "objects")
    done, n = set(), 0
    for s in p.out:
        if s.kind != "ret" or accept.is_failure(s.value):
            continue
        for e in s.events():
            if e[0] == "traverse":
                return o.undecided("attributes are gathered outside of a loop")
            if e[0] != "loop" or not any(q[0] == "traverse" for _, ev in e[1].iters for q in ev):
                continue
            n += 1
            rec = e[1]
            if rec.n is None:
                return o.undecided("loop that gathers the attributes")
            if id(rec) not in done:
                done.add(id(rec))
                for x, ev in rec.iters:
                    t = [q for q in ev if q[0] == "traverse"]
                    if len(t) != 1:
                        if not t and len(ev) == 0:
                            o.mismatch(WHERE, "the attributes of an object are not gathered")
                        else:
                            o.undecided("loop that gathers the attributes")
                        continue
                    try:
                        nm = strval(eng, x, t[0][1][0]).k
                    except (AttributeError, TypeError, GiveUp):
                        nm = None
                    want = strval(eng, x, eng.elem(x, objs, rec.n)).k
                    if nm == want:
                        o.good()
                    elif nm is not None and nm[0] == want[0]:
                        o.mismatch(WHERE, "in step n the attributes are gathered for %s, not for object n" % key_str(nm)[:100])
                    else:
                        o.undecided("object of which the attributes are gathered: %r" % (nm,))
            to_end(o, s, rec, objs.len, "the attributes of the objects")
    if not n:
        o.undecided("no loop gathers the attributes")


def cache_loop(P, eng, o, s, rec, l):
    ws = writes(P, rec, l)
    if ws is None:
        raise GiveUp("writes")
    init = vec(rec.init, l)
    if not (init.k[0] == "rep" and isinstance(init.k[1], Agg) and init.k[1].variant == 0):
        raise GiveUp("tables start as %r" % (init.k[:1],))
    for x, w in ws:
        if w is None:
            o.mismatch(WHERE, "a class does not get its attributes")
            continue
        i, v = w
        v = payload(eng, x, v)
        if v is None or not isinstance(v, Agg):
            raise GiveUp("table %r" % (w[1],))
        k = strip_s(ATOMS[i.t[0][0]]) if isinstance(i, Lin) and len(i.t) == 1 else ()
        while isinstance(k, tuple) and k and k[0] in ("f", "s"):
            k = k[1]
        if not (k and k[0] == "mapkey" and x.norm(k[2] - rec.n) == ZERO):
            raise GiveUp("index %s" % (i,))
        m = k[1]
        evs = [ev for y, ev in rec.iters if y is x][0]
        inner = [e[1] for e in evs if e[0] == "loop"]
        # the table of attributes is filled from the map of this class
        ins = [(r, [[e for e in ev if e[0] == "insert"] for _, ev in r.iters]) for r in inner]
        ins = [(r, es) for r, es in ins if any(es)]
        if any(e[0] == "insert" for e in evs) or len(ins) > 1:
            raise GiveUp("%d loops insert attributes" % len(ins))
        lim, bits = fld(P, v, "max_prop_id"), fld(P, v, "prop_id_bits")
        if not ins:
            n = [Lin(0, ((a, 1),)) for a in set(x.iv) | {a for f in x.facts for a in f.atoms()}
                 if ATOMS[a][0] == "maplen" and "mapval" in repr(ATOMS[a])]
            if len(n) == 1 and x.ev_cond(c_le(n[0], ZERO)) is True and not inner:
                no_attributes(o, x, lim, bits)
                continue
            raise GiveUp("no loop inserts attributes")
        r, es = ins[0]
        mk = None
        for (z, _), e in zip(r.iters, es):
            if len(e) != 1:
                o.mismatch(WHERE, "%d attributes are entered in one step" % len(e))
                continue
            src = source_of(P, Agg("()", 0, tuple(e[0][1][1:3])), r)
            if src[0] == "entries" and src[1][0] == "mapval" and src[1][1] == m and nk_like(src[1][2], k):
                mk = src[1]
                o.good()
            else:
                o.mismatch(WHERE, "the attributes entered for a class are those of %r" % (src,))
        if mk is None:
            continue
        total = atom(("maplen", ("s", mk)), 0, 1 << 60)
        tot = [a for f in x.facts for a in f.atoms() if ATOMS[a][0] == "maplen" and strip_s(ATOMS[a][1]) == mk]
        if not tot:
            raise GiveUp("number of attributes")
        total = Lin(0, ((tot[0], 1),))
        # limit and width of attribute ids
        mx = [q for q in inner for loc in q.heads if q is not r and is_max_loop(P, q, loc) and starts_at_first(q, loc, mk)]
        if x.ev_cond(c_le(total, ZERO)) is True:
            no_attributes(o, x, lim, bits)
            continue
        if len(mx) != 1:
            if any(skips_keys(q, loc, mk) for q in inner if q is not r for loc in q.heads):
                o.mismatch(WHERE, "the largest stream id is not taken over all of the attributes")
                continue
            y = x.copy()
            if not mx and x.norm(lim).is_const() and y.assume(c_le(ONE, total)) and accept.feasible(y):
                o.mismatch(WHERE, "with attributes, their ids are below %s whatever they are" % x.norm(lim))
                continue
            raise GiveUp("largest id: %d loops" % len(mx))
        q = mx[0]
        loc = [c for c in q.heads if is_max_loop(P, q, c)][0]
        if x.ev_cond(c_le(total - 1, q.n)) is not True:
            raise GiveUp("largest id: not all considered")
        big = q.heads[loc][1]
        for sat in (False, True):
            y = x.copy()
            ba = big.t[0][0]
            lo, hi = y.arange(ba)
            y.iv[ba] = (max(lo, -(1 << 31)), min(hi, (1 << 31) - 1))        # it is one of the ids
            if not consistent(y):
                continue
            if not y.assume(c_le(K((1 << 31) - 1), big), sat):
                continue
            M = K((1 << 31) - 1) if sat else big + 1
            if not y.assume(c_le(ZERO, M)) or not consistent(y):
                continue
            if unwrap(y, lim - M) != ZERO:
                o.mismatch(WHERE, "attribute ids are below %s instead of one more than the largest" % (unwrap(y, lim),))
                continue
            lz = unwrap(y, ctlz64(eng, y, atom(("wrap", 0, 64, M)) if False else M))
            for zero in (True, False):
                z = y.copy()
                if not z.assume(c_eq(M, ZERO), zero):
                    continue
                b = unwrap(z, bits)
                want = ZERO if zero else (K(63) - lz if not M.is_const() else K(M.c.bit_length() - 1))
                if zero and b != ZERO and contains_ctlz(b):
                    continue            # no leading zeros are missing for zero: not this path
                if not zero and b == ZERO:
                    # only one bit: the number is one, or this path belongs to zero
                    u = z.copy()
                    if u.assume(c_le(K(2), M)) and not any(ATOMS[a][0] == "ctlz" for f in u.facts for a in f.atoms()) \
                            and not any(ATOMS[a][0] == "ctlz" for a in u.iv):
                        o.mismatch(WHERE, "attribute ids take no bits")
                    else:
                        o.good()
                    continue
                if unwrap(z, b - want) == ZERO:
                    o.good()
                else:
                    o.mismatch(WHERE, "attribute ids take %s bits instead of %s" % (b, want))


def skips_keys(rec, loc, mk):
    """the loop-carried number becomes the key of an entry, after an inner loop has gone past entries without using them"""
    h = rec.heads[loc][1]
    if not isinstance(h, Lin):
        return False
    for x, ev in rec.iters:
        w = get(x.cells[loc[0]], loc[1:])
        if not isinstance(w, Lin) or w == h or len(w.t) != 1 or w.c:
            continue
        k = ATOMS[w.t[0][0]]
        while isinstance(k, tuple) and k and k[0] in ("s", "f"):
            k = k[1]
        if isinstance(k, tuple) and k and k[0] == "mapkey" and strip_s(k[1]) == mk and isinstance(k[2], Lin) \
                and sorted(ATOMS[a][0] for a, q in k[2].t if q == 1) == ["h", "n"]:
            return True
    return False


def consistent(st):
    return all(st.bounds(f)[0] <= 0 for f in st.facts)


def no_attributes(o, x, lim, bits):
    if x.norm(lim) == K(3) and x.norm(bits) == ONE:
        o.good()
    else:
        o.mismatch(WHERE, "without attributes ids are below %s and take %s bits" % (lim, bits))


def contains_ctlz(l):
    return any(ATOMS[a][0] == "ctlz" for a in l.atoms())


def nk_like(k, mapkey):
    return repr(mapkey[2]) in repr(k)


def starts_at_first(q, loc, mk):
    i = q.heads[loc][0]
    return isinstance(i, Lin) and i.c == 0 and len(i.t) == 1 and holds_key(ATOMS[i.t[0][0]], mk)


def holds_key(k, mk):
    """key 0 of the map"""
    if isinstance(k, tuple):
        if k and k[0] == "mapkey":
            return strip_s(k[1]) == mk and k[2] == ZERO
        return any(holds_key(x, mk) for x in k)
    return False
