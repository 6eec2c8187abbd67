"""Attribute decoding: analyse AttributeDecoder::decode once per attribute tag and check it against attr_spec."""
import time
from terms import *
import panics
from absint import Engine, GiveUp, State
from prog import Prog
import accept, attr_spec
from accept import Ctx, check_state, Mismatch, Undecided


def setup(P, tag, limit=60, maxpaths=20000):
    eng = Engine(P, limit=limit, maxpaths=maxpaths)
    inst = P.one("attributes::AttributeDecoder::decode")
    body = P.insts[inst]["body"]
    tys = [body["locals"][j + 1] for j in range(body["argc"])]
    args = [eng.mksym(t, ("a", j)) for j, t in enumerate(tys)]
    st = State()
    rcell = None
    E = None
    for j, t in enumerate(tys):
        k = P.kind(t)
        if k[0] == "adt" and k[1].endswith("::AttributeTag"):
            vs = [v[0] for v in P.adts[k[1]]["variants"]]
            args[j] = Agg(k[1], vs.index(tag), ())
        elif k[0] == "ref":
            pk = P.kind(k[1])
            if pk[0] == "adt" and pk[1] == "bitter::LittleEndianReader":
                rcell = args[j].cell
                eng.getcell(st, rcell)
            elif pk[0] == "slice":
                buf = args[j]
                st.assume(c_le(K(1024), buf.hi - buf.lo))
            elif pk[0] == "adt":
                dec = eng.read(st, args[j])
                E = env(eng, st, dec)
                E.buflen = None
    E.buflen = buf.hi - buf.lo
    return eng, inst, args, st, rcell, E


def fld(P, v, name):
    ns = P.adts[v.name]["variants"][v.variant][2]
    if name not in ns:
        raise Undecided("field %s of %s is gone" % (name, v.name))
    return v.fields[ns.index(name)]


def env(eng, st, dec):
    P = eng.P
    ver = fld(P, dec, "version")
    pd = fld(P, dec, "product_decoder")
    pv = fld(P, pd, "version")
    # the product decoder is created with the same version
    for a, b in zip(ver.fields, pv.fields):
        st.assume(c_eq(a, b))
    eng.free_atoms = [x.t[0][0] for x in ver.fields + pv.fields if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0]
    inds = {}
    for n in ("color", "painted", "title", "special_edition", "team_edition"):
        inds[n] = fld(P, pd, n + "_ind").fields[0]
    return attr_spec.Env(ver.fields[0], ver.fields[1], ver.fields[2], fld(P, dec, "is_rl_223").c, inds, None)


def run(P, tag, **kw):
    eng, inst, args, st, rcell, E = setup(P, tag, **kw)
    out = eng.analyse(inst, args, st)
    return eng, out, rcell, E


def check(P, tag):
    eng, out, rcell, E = run(P, tag)
    ctx = Ctx(eng, rcell)
    spec = attr_spec.attribute(tag)
    res = dict(ok=0, err=0, infeasible=0)
    bad = []
    und = []
    from models import ok
    seen = set()
    for s in out:
        if s.kind == "giveup":
            und.append(s.info)
            continue
        if s.kind == "panic" and str(s.info[0]).endswith(":lookahead") and "lookahead" not in seen:
            try:
                w = panics.certain(eng, s)
                seen.add("lookahead")
                bad.append((Mismatch("bits are taken from the reader although it may have run out of them (%s)" % str(w)[:100], "truncated"), s))
            except (panics.Unsure, RecursionError):
                pass
        if s.kind != "ret":
            continue
        try:
            for r in check_state(ctx, s, lambda w: spec(w, E), ok):
                res[r] += 1
        except Mismatch as e:
            bad.append((e, s))
        except Undecided as e:
            und.append((str(e), None))
    return eng, ctx, out, res, bad, und


if __name__ == "__main__":
    import sys
    P = Prog()
    for tag in (sys.argv[1:] or attr_spec.A):
        t = time.time()
        try:
            eng, ctx, out, res, bad, und = check(P, tag)
        except GiveUp as e:
            print(tag, "GIVEUP", e)
            continue
        print(tag, res, "bad", len(bad), "und", len(und), "panics", sum(1 for s in out if s.kind == "panic"), "replays", ctx.nreplays,
              "loops", ctx.nloops, "%.1fs" % (time.time() - t))
        for e, s in bad[:2]:
            print("    ", e.kind, str(e)[:300])
        for u in und[:2]:
            print("    und", str(u)[:300])
