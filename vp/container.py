"""The replay container: section sizes, checksums and the two policies, against Parser::parse and ParserBuilder."""
from terms import *
from absint import Engine, GiveUp, State, seq_cond
import accept, cores, core_spec, models
from accept import Ctx, SpecFail, Mismatch, Undecided, check_state, mk_adt, is_failure
from core_spec import CW, Fail
from models import ok, err, some, NONE, RES, content, as_slice
from cores import setup, move, find_parser


def result_types(P, inst):
    rt = P.insts[inst]["body"]["locals"][0]
    k = P.kind(rt)
    return k[2][0], k[2][1]


def section_cut(P, tag, inst):
    """a section parser: success, value, error and end position are functions of the start position"""
    T, E = result_types(P, inst)

    def cut(eng, st, inst, args):
        stream = None
        for a in args:
            if isinstance(a, Ptr):
                r = find_parser(P, eng.read(st, a))
                if r is not None:
                    path, si, ints = r
                    root, pre = a.cell, tuple(a.path)
                    stream = (root, pre, path, si, ints)
        if stream is None:
            raise GiveUp("no byte parser among the arguments of the %s parser" % tag)
        a = Ptr(stream[0], stream[1])
        v = eng.read(st, a)
        p = v
        for i in stream[2]:
            p = p.fields[i]
        sl = p.fields[stream[3]]
        pos = st.norm(sl.lo)
        out = []
        for t, x in models.fork(eng, st, ("op", (tag + "-ok", pos))):
            e = atom((tag + "-end", pos), 0, 1 << 62)
            if not (x.assume(c_le(pos, e)) and x.assume(c_le(e, sl.hi))):
                continue

            def fix(p):
                f = list(p.fields)
                f[stream[3]] = Slice(sl.base, e, sl.hi)
                for i in stream[4]:
                    f[i] = f[i] + e - pos
                return Agg(p.name, p.variant, tuple(f))
            eng.write(x, a, cores.replace(v, stream[2], fix))
            out.append((x, ok(eng.mksym(T, (tag, pos))) if t else err(eng.mksym(E, (tag + "-err", pos)))))
        return out
    return cut


def crc_cut(eng, st, inst, args):
    k, n = content(eng, st, args[0])
    return [(st, atom(("crc", k), 0, (1 << 32) - 1))]


def val_key(eng, st, a):
    while isinstance(a, Ptr):
        a = eng.read(st, a)
    return a.key() if isinstance(a, V) else repr(a)


def network_cut(P):
    def cut(eng, st, inst, args):
        T, E = result_types(P, inst)
        key = tuple(val_key(eng, st, a) for a in args)
        out = []
        for t, x in models.fork(eng, st, ("op", ("network-ok", key))):
            out.append((x, ok(eng.mksym(T, ("network", key))) if t else err(eng.mksym(E, ("network-err", key)))))
        return out
    return cut


CRC = {"on_error_check_crc": "OnError", "always_check_crc": "Always", "never_check_crc": "Never"}
NET = {"must_parse_network_data": "Always", "never_parse_network_data": "Never", "ignore_network_data_on_error": "IgnoreOnError"}


def one(P, *names):
    for n in names:
        r = P.one(n)
        if r is not None:
            return r
    raise Undecided("%s is not found" % names[0])


def scenarios():
    """every way of choosing the two policies: defaults, each setter, the general setters, and overriding an earlier choice"""
    out = [("defaults", [], "OnError", "IgnoreOnError")]
    for c, p in CRC.items():
        out.append((c, [(c, None)], p, "IgnoreOnError"))
    for n, p in NET.items():
        out.append((n, [(n, None)], "OnError", p))
    for p in CRC.values():
        for q in NET.values():
            out.append(("%s/%s" % (p, q), [("with_crc_check", p), ("with_network_parse", q)], p, q))
    cs = [((c, None), p) for c, p in CRC.items()] + [(("with_crc_check", p), p) for p in CRC.values()]
    ns = [((n, None), p) for n, p in NET.items()] + [(("with_network_parse", p), p) for p in NET.values()]

    def nm(*ss):
        return " then ".join(s[0] if s[1] is None else "%s(%s)" % s for s in ss)
    # of two choices of one policy the later counts
    for a, _ in cs:
        for b, p in cs:
            out.append((nm(a, b), [a, b], p, "IgnoreOnError"))
    for a, _ in ns:
        for b, q in ns:
            out.append((nm(a, b), [a, b], "OnError", q))
    # and neither policy touches the other, in either order
    for a, p in cs:
        for b, q in ns:
            out.append((nm(a, b), [a, b], p, q))
            out.append((nm(b, a), [b, a], p, q))
    for a, _ in cs[3:]:
        for b, _ in ns[3:]:
            for c, p in cs[3:]:
                for d, q in ns[3:]:
                    out.append((nm(a, b, c, d), [a, b, c, d], p, q))
    return out


def straight(eng, st, inst, args):
    out = [s for s in eng.analyse(inst, args, st)]
    if len(out) != 1 or out[0].kind != "ret":
        raise Undecided("%s does not simply return" % eng.P.insts[inst]["name"])
    s = out[0]
    v = s.value
    s.kind = None
    return s, v


def run(P, setters):
    cuts = {}
    eng = Engine(P, limit=60, cuts=cuts)
    st = State()
    fcell = cores.FILE
    tot = atom(("len", cores.FILE), 0, (1 << 62))
    st.cells[fcell] = VecV(("s", cores.FILE), tot, eng.u8())
    data = Slice(Ptr(fcell, ()), ZERO, tot)
    st, v = straight(eng, st, one(P, "ParserBuilder::new"), [data])
    for name, arg in setters:
        inst = one(P, "ParserBuilder::" + name)
        args = [v]
        if arg is not None:
            t = P.insts[inst]["body"]["locals"][2]
            k = P.kind(t)
            vs = [x[0] for x in P.adts[k[1]]["variants"]]
            args.append(Agg(k[1], vs.index(arg), ()))
        st, v = straight(eng, st, inst, args)
    names = dict(header=one(P, "Parser::parse_header", "header::parse_header"), body=one(P, "Parser::parse_body"),
                 net=one(P, "network::parse"), crc=one(P, "crc::calc_crc"))
    eng.cuts[names["header"]] = section_cut(P, "header", names["header"])
    eng.cuts[names["body"]] = section_cut(P, "body", names["body"])
    eng.cuts[names["crc"]] = crc_cut
    eng.cuts[names["net"]] = network_cut(P)
    types = {k: result_types(P, names[k]) for k in ("header", "body", "net")}
    out = eng.analyse(one(P, "ParserBuilder::parse"), [v], st)
    return eng, out, types, Whole(Ptr(fcell, ()), tot)


class Whole:
    def __init__(self, base, tot):
        self.r = (base, ZERO, tot)

    def get(self, cells):
        return self.r


class RW(CW):
    """the parser is gone when the replay is returned: no final position to compare"""

    def check_pos(self, *a):
        pass


class PFail(SpecFail):
    def __init__(self, why, value):
        SpecFail.__init__(self, why)
        self.value = value


def perr(w, variant, *a):
    return mk_adt(w.P, "ParseError", variant, *a)


def strc(s):
    return StrV(("c", s.encode()))


def container(types, policy, netp):
    """the specification of a whole parse; failures carry the exact error"""
    def spec(w):
        def sect(tag, what):
            with w.section(what + " size"):
                size = w.i32()
            with w.section(what + " crc"):
                crc = w.u(4)
            with w.section(what + " data"):
                if w.lt(size, 0):
                    raise Fail(w, "truncated", "short", w.rw(size))
                w.need(size)
            size = w.rw(size)
            p = w.st.norm(w.rw(w.pos))
            good = w.cond(("op", (tag + "-ok", p)))
            w.pos = atom((tag + "-end", p), 0, 1 << 62)
            val = w.eng.mksym(types[tag][0], (tag, p)) if good else None
            e = None if good else w.eng.mksym(types[tag][1], (tag + "-err", p))
            pol = policy
            actual = atom(("crc", w.rw(("mem", w.fkey, p, w.st.norm(size)))), 0, (1 << 32) - 1)
            if pol == "Always" and not w.is_eq(crc, actual):
                raise PFail("checksum mismatch", perr(w, "CrcMismatch", crc, actual))
            if not good:
                if pol == "OnError" and not w.is_eq(crc, actual):
                    raise PFail("corrupt", perr(w, "CorruptReplay", strc(tag), e))
                raise PFail("malformed", e)
            return size, crc, val
        hs, hc, h = sect("header", "header")
        cs, cc, b = sect("body", "content")
        np = netp
        net = NONE
        if np != "Never":
            key = w.rw((h.key(), b.key()))
            if w.cond(("op", ("network-ok", key))):
                net = some(w.eng.mksym(types["net"][0], ("network", key)))
            elif np == "Always":
                raise PFail("network", perr(w, "NetworkError", w.eng.mksym(types["net"][1], ("network-err", key))))
        fh = fields(w.P, h)
        fb = fields(w.P, b)
        return w.adt("Replay", header_size=hs, header_crc=hc, content_size=cs, content_crc=cc, network_frames=net,
                     **{k: fh[k] for k in ("major_version", "minor_version", "net_version", "game_type", "properties")},
                     **{k: fb[k] for k in ("levels", "keyframes", "debug_info", "tick_marks", "packages", "objects", "names",
                                           "class_indices", "net_cache")})
    return spec


def fields(P, v):
    return dict(zip(P.adts[v.name]["variants"][v.variant][2], v.fields))


def unwrapped(l):
    """l up to multiples of 2^32"""
    while True:
        r = Lin(l.c)
        more = False
        for a, k in l.t:
            kk = ATOMS[a]
            if kk[0] == "wrap" and kk[2] >= 32 and isinstance(kk[3], Lin):
                r = r + kk[3].scale(k)
                more = True
            else:
                r = r + Lin(0, ((a, k),))
        l = r
        if not more:
            return l


def same32(w, got, want, what):
    """got is want as a 32-bit integer"""
    if not isinstance(got, Lin):
        raise Undecided("%s is not a number" % what)
    d = unwrapped(w.rw(got)) - unwrapped(w.rw(want))
    d = w.st.norm(w.rw(unwrapped(d)))
    if d.c % (1 << 32) or any(k % (1 << 32) for _, k in d.t):
        raise Mismatch("%s is %r, expected %r" % (what, got, want), "context")


def on_error(context=True):
    """compares the error of the implementation with the failure of the specification"""
    def hook(w, value, e):
        try:
            look(w, value, e)
        except Mismatch as m:
            if not isinstance(e, PFail):
                m.kind = "context"
            raise

    def look(w, value, e):
        got = accept.strip_box(value.fields[0])
        if isinstance(e, PFail):
            w.equal(got, e.value, "error")
            return
        if not isinstance(e, Fail):
            return
        # outermost section first
        for i, s in enumerate(e.sect):
            want = ParseErr(w, s)
            if isinstance(got, Sym) or w.aname(got) != "ParseError::ParseError":
                raise Mismatch("the error %s does not name the section %r" % (accept.brief(w, got), s), "context")
            w.equal(got.fields[0], strc(s), "section of the error")
            if i == len(e.sect) - 1 and e.kind != "nested":
                same32(w, got.fields[1], e.pos, "offset of the error in %s" % s)
            got = accept.strip_box(got.fields[2])
        if e.kind == "nested":
            return
        check_cause(w, got, e)
    return hook


def ParseErr(w, s):
    return None


def check_cause(w, got, e):
    if e.kind == "short":
        if w.aname(got) != "ParseError::InsufficientData":
            raise Mismatch("the cause is %s, expected InsufficientData" % w.aname(got), "context")
        same32(w, got.fields[0], e.args2[0], "number of missing bytes")
        same32(w, got.fields[1], w.tot - w.rw(e.pos), "number of remaining bytes")
    elif e.kind == "TextTooLarge":
        w.equal(got, perr(w, "TextTooLarge", w.rw(e.args2[0])), "cause")
    elif e.kind == "ListTooLarge":
        if w.aname(got) != "ParseError::ListTooLarge":
            raise Mismatch("the cause is %s, expected ListTooLarge" % w.aname(got), "context")
        same32(w, got.fields[0], e.args2[0], "number of elements of a list that is too large")
    elif e.kind == "UnexpectedProperty":
        w.equal(got, perr(w, "UnexpectedProperty", w.rw(e.args2[0])), "cause")
    elif e.kind == "Utf8Error":
        if w.aname(got) != "ParseError::Utf8Error":
            raise Mismatch("the cause is %s, expected Utf8Error" % w.aname(got), "context")


def check(P, sc):
    name, setters, policy, netp = sc
    eng, out, types, stream = run(P, setters)
    ctx = Ctx(eng, stream, RW)
    ctx.on_error = on_error()
    return finish(ctx, out, container(types, policy, netp), ZERO)


def finish(ctx, out, spec, start):
    res = dict(ok=0, err=0, infeasible=0)
    bad, und = [], []
    for s in out:
        if s.kind == "giveup":
            und.append(s.info)
            continue
        if s.kind != "ret":
            continue
        try:
            for r in check_state(ctx, s, spec, ok, start):
                res[r] += 1
        except Mismatch as e:
            bad.append((e, s))
        except Undecided as e:
            und.append((str(e), None))
    return ctx.eng, ctx, out, res, bad, und


if __name__ == "__main__":
    import sys, time
    from prog import Prog
    sys.setrecursionlimit(100000)
    P = Prog()
    for sc in scenarios():
        t = time.time()
        eng, ctx, out, res, bad, und = check(P, sc)
        print("container", sc[0], res, "bad", len(bad), "und", len(und), "panics", sum(1 for s in out if s.kind == "panic"), "replays",
              ctx.nreplays, "%.1fs" % (time.time() - t))
        for e, s in bad[:4]:
            print("    ", e.kind, str(e)[:600])
        for u in und[:4]:
            print("    und", str(u)[:300])
