"""Analyses the header, body and container parsers against core_spec."""
import time
from terms import *
from absint import Engine, GiveUp, State
from prog import Prog
import accept, core_spec, models
from accept import Ctx, ByteStream, check_state, Mismatch, Undecided, mk_adt
from core_spec import CW, Fail
from models import ok, err, RES


def find_parser(P, v, path=()):
    """path of the byte parser (a record of a byte slice and an offset) inside v"""
    if isinstance(v, Agg) and isinstance(v.name, str):
        for i, x in enumerate(v.fields):
            if isinstance(x, Slice):
                ints = [j for j, y in enumerate(v.fields) if isinstance(y, Lin)]
                if len(v.fields) <= 2:
                    return path, i, ints
            r = find_parser(P, x, path + (i,))
            if r is not None:
                return r
    return None


def replace(v, path, fn):
    if not path:
        return fn(v)
    f = list(v.fields)
    f[path[0]] = replace(f[path[0]], path[1:], fn)
    return Agg(v.name, v.variant, tuple(f))


FILE = ("file",)


def setup(P, inst, limit=60, maxpaths=6000, cuts=None):
    eng = Engine(P, limit=limit, maxpaths=maxpaths, cuts=cuts)
    body = P.insts[inst]["body"]
    tys = [body["locals"][j + 1] for j in range(body["argc"])]
    args = [eng.mksym(t, ("a", j)) for j, t in enumerate(tys)]
    st = State()
    fcell = ("file",)
    fk = ("s", ("file",))
    tot = atom(("len", FILE), 0, (1 << 62))
    start = atom(("start",), 0, (1 << 62))
    st.cells[fcell] = VecV(fk, tot, eng.u8())
    st.assume(c_le(start, tot))
    stream = None
    for j, t in enumerate(tys):
        if not isinstance(args[j], Ptr):
            continue
        v = eng.read(st, args[j])
        r = find_parser(P, v)
        if r is None:
            continue
        path, si, ints = r

        def fix(p):
            f = list(p.fields)
            f[si] = Slice(Ptr(fcell, ()), start, tot)
            for i in ints:
                f[i] = start
            return Agg(p.name, p.variant, tuple(f))
        eng.write(st, args[j], replace(v, path, fix))
        stream = ByteStream(args[j].cell, path + (si,), None)
        stream.cols = [path + (i,) for i in ints]
    if stream is None:
        raise Undecided("no byte parser among the arguments of %s" % P.insts[inst]["name"])
    return eng, args, st, stream, start


def recursion(eng, stream, P):
    """nested dictionaries: an uninterpreted success, end position and value per start position"""
    def hook(eng, st, inst, args):
        b = P.insts[inst]["body"]
        outer = next(f for f in st.frames if f.inst == inst)
        rt = b["locals"][0]
        k = P.kind(rt)
        name = P.ty_str(rt) if hasattr(P, "ty_str") else str(k)
        if k[0] != "adt" or not k[1].endswith("result::Result"):
            raise GiveUp("recursion into %s" % P.insts[inst]["name"])
        # everything but the parser and counters must be passed on unchanged
        for j, a in enumerate(args):
            if isinstance(a, (Ptr, Lin)):
                continue
            o = st.cells[outer.loc[j + 1]]
            if o is not a and not (isinstance(o, V) and isinstance(a, V) and o.key() == a.key()):
                raise GiveUp("recursion into %s changes an argument" % P.insts[inst]["name"])
        base, pos, tot = stream.get(st.cells)
        fk = eng.read(st, base).k
        pos = st.norm(pos)
        out = []
        for t, x in models.fork(eng, st, ("op", (core_spec.NESTED + "-ok", fk, pos))):
            if t:
                e = core_spec.nested_end(fk, pos)
                if not x.assume(c_lt(pos, e)) or not x.assume(c_le(e, tot)):
                    continue
                move(x, stream, e - pos)
                out.append((x, ok(core_spec.nested_value(fk, pos))))
            else:
                ekind = k[2][1] if len(k) > 2 and isinstance(k[2], (list, tuple)) else None
                # the position after a failure is only used in error messages
                d = atom((core_spec.NESTED + "-fail", fk, pos), 0, 1 << 62)
                if not x.assume(c_le(pos + d, tot)):
                    continue
                move(x, stream, d)
                out.append((x, err(eng.mksym(ekind, (core_spec.NESTED + "-err", fk, pos)) if ekind is not None else UNDEF)))
        return out
    return hook


def move(st, stream, d):
    v = st.cells[stream.cell]

    def slo(s):
        return Slice(s.base, s.lo + d, s.hi)
    v = replace(v, stream.path, slo)
    for c in stream.cols:
        v = replace(v, c, lambda x: x + d)
    st.cells[stream.cell] = v


def check(P, inst, spec, on_error=None, limit=60, cuts=None, prep=None):
    eng, args, st, stream, start = setup(P, inst, limit=limit, cuts=cuts)
    eng.on_recursion = recursion(eng, stream, P)
    if prep:
        prep(eng, args, st, stream)
    out = eng.analyse(inst, args, st)
    ctx = Ctx(eng, stream, CW)
    ctx.on_error = on_error
    res = dict(ok=0, err=0, infeasible=0)
    bad, und = [], []
    for s in out:
        if s.kind == "giveup":
            und.append(s.info)
            continue
        if s.kind != "ret":
            continue
        try:
            for r in check_state(ctx, s, spec, ok, start):
                res[r] += 1
        except Mismatch as e:
            bad.append((e, s))
        except Undecided as e:
            und.append((str(e), None))
    return eng, ctx, out, res, bad, und


if __name__ == "__main__":
    import sys
    sys.setrecursionlimit(100000)
    P = Prog()
    S = {"body": ("Parser::parse_body", core_spec.body), "header": ("header::parse_header", core_spec.header),
         "text": ("CoreParser::parse_text", lambda w: w.text()), "str": ("CoreParser::parse_str", lambda w: w.str())}
    for n in sys.argv[1:] or S:
        f, sp = S[n]
        t = time.time()
        eng, ctx, out, res, bad, und = check(P, P.one(f), sp)
        print(n, res, "bad", len(bad), "und", len(und), "panics", sum(1 for s in out if s.kind == "panic"), "replays", ctx.nreplays,
              "loops", ctx.nloops, "%.1fs" % (time.time() - t))
        for e, s in bad[:4]:
            print("    ", e.kind, str(e)[:400])
        for u in und[:4]:
            print("    und", str(u)[:300])
        for s in out:
            if s.kind == "panic":
                print("    panic", str(s.info)[:200])
                break
