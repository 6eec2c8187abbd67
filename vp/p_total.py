"""No panics: C01."""
import ast, attrs, attr_spec, container, cores, core_spec, frames, netparse as N, p_parse
import panics
from absint import Engine, GiveUp
from jobs import parallel

CORE = {
    "body": ("Parser::parse_body", core_spec.body), "header": ("header::parse_header", core_spec.header),
    "text": ("CoreParser::parse_text", lambda w: w.text()), "str": ("CoreParser::parse_str", lambda w: w.str()),
}
PARSE = ["params", "index", "traversal", "products", "normalise"] + [n for n, _, _ in p_parse.LOOK]
ERRORS = ("ParseError", "NetworkError", "FrameError", "AttributeError", "FrameContext")


def single(P):
    """functions analysed on their own, for any arguments"""
    out = {}
    for i, x in enumerate(P.insts):
        n = x["name"]
        if not x.get("body"):
            continue
        if n.startswith("<boxcars::errors::") and (n.endswith("std::fmt::Display>::fmt") or n.endswith("Error>::source")):
            out[n] = i
        if n.startswith("boxcars::models::HeaderProp::") or n.startswith("boxcars::parser::ParserBuilder::<") and "parse" not in n.rsplit("::", 1)[1]:
            out[n] = i
        if n == "boxcars::crc::calc_crc":
            out[n] = i
    return out


def giveups(out):
    return [str(s.info)[:200] for s in out if s.kind == "giveup"]


def spec_free(item):
    """attribute decoding: only the analysis, no comparison with the layout"""
    def go(P):
        eng, out, rcell, E = attrs.run(P, item)
        return giveups(out)
    return go


def alone(i):
    def go(P):
        b = P.insts[i]["body"]
        eng = Engine(P, limit=60)
        out = eng.analyse(i, [eng.mksym(b["locals"][j + 1], ("a", j)) for j in range(b["argc"])])
        return giveups(out)
    return go


def third(f):
    """analyses that return (eng, ctx, out, ...)"""
    return lambda P: giveups(f(P)[2])


def unit(P, name):
    kind, arg = name.split(" ", 1)
    if kind == "attribute":
        return spec_free(arg)
    if kind == "core":
        f, sp = CORE[arg]
        return third(lambda P: cores.check(P, P.one(f), sp))
    if kind == "container":
        return third(lambda P: container.check(P, container.scenarios()[0]))
    if kind == "frame":
        return third(lambda P: frames.check_frame(P, case=int(arg)))
    if kind == "frames":
        return third(frames.check_frames)
    if kind == "trajectory":
        return third(frames.check_trajectory)
    if kind == "table":
        return lambda P: [str(u)[:200] for u in frames.check_table(P)[2]]
    if kind == "parse":
        def go(P):
            o = p_parse.PARTS[arg][1](P)
            return [u for u in o.und if "GiveUp" in u or "giveup" in u or "not analysed" in u]
        return go
    return alone(single(P)[arg])


def units(P):
    first = ["frame 0", "frame 1", "frames x", "core header", "container x", "attribute RigidBody", "core body", "parse params",
             "attribute Reservation", "attribute LoadoutsOnline"]
    out = list(first)
    out += ["core text", "core str", "trajectory x", "table x"]
    out += ["parse " + n for n in PARSE]
    out += ["attribute " + t for t in attr_spec.A]
    out += ["function " + n for n in single(P)]
    return list(dict.fromkeys(out))


WHERE = {"attribute": "AttributeDecoder::decode(%s)", "core": "%s parser", "container": "ParserBuilder::parse", "frame": "FrameDecoder::decode_frame",
         "frames": "FrameDecoder::decode_frames", "parse": "network::parse (%s)", "function": "%s", "trajectory": "Trajectory::from_spawn",
         "table": "SegmentedArray"}


def job(P, name):
    kind = name.split(" ", 1)[0]
    f = unit(P, name)
    try:
        und, found, calls, n = panics.collect(lambda: f(P))
        und = list(und or [])
    except GiveUp as e:
        return dict(und=["%s" % str(e)[:250]], bad=[], calls=[], states=0, hit=[])
    roots = (lambda r: r[0] in ("a", "hdr")) if kind == "parse" else (lambda r: False)
    bad, why, hit = {}, {}, set()
    tries = {}
    for eng, s in found:
        site = (str(s.info[0]), str(s.info[1]))
        hit.add(site)
        if site in bad or tries.get(site, 0) >= 40:
            continue
        tries[site] = tries.get(site, 0) + 1
        try:
            bad[site] = panics.certain(eng, s, roots)
        except panics.Unsure as e:
            why[site] = str(e)[:150]
        except RecursionError:
            why[site] = "too deep"
    for site in hit:
        if site not in bad:
            und.append("%s at %s: %s" % (site[0], site[1], why.get(site)))
    return dict(und=und, bad=[(k[0], k[1], str(v)[:400]) for k, v in bad.items()], calls=sorted(calls), states=n, hit=len(hit))


def may_panic(P, b):
    """panicking constructs of a function body: assertions and calls that diverge, index or unwrap"""
    n = 0
    for bb in b["bb"]:
        t = bb[1]
        if t[0] == "assert":
            n += 1
        elif t[0] == "call":
            s = str(t[1])
            try:
                i = t[1][1] if t[1][0] == "fn" else None
                s = P.insts[i]["name"] if isinstance(i, int) else s
            except (IndexError, TypeError, KeyError):
                pass
            if any(w in s for w in ("panic", "unwrap", "expect", "::index", "slice_index", "copy_from_slice", "split_at", "::remove", "::drain")) and \
                    "unwrap_or" not in s:
                n += 1
    return n


def total(rep, P, tier):
    rep.rule("on every abstract path of the parser, of the display of its errors and of the accessors of its result, every assertion the "
             "compiler inserts (bounds, overflow, division, shifts), every unwrap, expect, slice, index and explicit panic is either unreachable "
             "or reported; a reported one comes with values of the input that reach it")
    rep.assumption("models of the bit reader, encoding_rs and core/alloc (a model panics where the library documents a panic); the header and body "
                   "given to network::parse are arbitrary; memory and stack are large enough")
    names = {}
    for x in P.insts:
        if x.get("body") and "boxcars" in x["name"]:
            names.setdefault(x["name"], x["body"])
    seen = set()
    for name, r, e in parallel(job, P, units(P)):
        if r is None:
            rep.undecided(name, e)
            continue
        rep.count("units")
        rep.count("paths", r["states"])
        rep.functions.update(r["calls"])
        for u in r["und"]:
            rep.undecided(name, u)
        rep.count("undischarged", len(r["und"]))
        kind, arg = name.split(" ", 1)
        for what, where, w in r["bad"]:
            if (what, where) in seen:
                continue
            seen.add((what, where))
            w0 = WHERE[kind]
            rep.violation("panic:%s:%s" % (what, where.rsplit(":", 1)[0]), where, "%s can panic (%s) at %s" % (w0 % arg if "%" in w0 else w0, what, where),
                          witness=w, functions=r["calls"][:40])
    sites = sum(may_panic(P, names[c]) for c in rep.functions if c in names)
    rep.count("panicking_constructs", sites)
    rep.count("obligations", sites)
    rep.count("discharged", max(0, sites - rep.counts.get("undischarged", 0) - len(rep.viol)))
    rep.sample("%d constructs that can panic in %d functions" % (sites, sum(1 for c in rep.functions if c in names)))
    rep.floor("units", 40)
    rep.floor("panicking_constructs", 30)


# ------------------------------------------------------------------ bounds: C02, C03
def watch_sizes(P, name):
    return watch(P, name, True)


def watch(P, name, sizes=False):
    import bounds
    kind = name.split(" ", 1)[0]
    f = unit(P, name)
    roots = (lambda r: r[0] in ("a", "hdr")) if kind == "parse" else (lambda r: False)
    und, rec = [], []
    with bounds.Observe(roots, sizes) as ob:
        try:
            (und, calls) = (list(r) if (r := f(P)) else []), []
        except Exception as e:
            und = ["%s: %s" % (type(e).__name__, str(e)[:250])]
    for inst in sorted({i for _, _, i, _ in ob.recursion}):
        try:
            r, giv = bounds.check_recursion(P, inst)
            rec += [(P.insts[inst]["name"],) + x for x in r]
            und += giv
        except GiveUp as e:
            und.append("recursion of %s: %s" % (P.insts[inst]["name"], str(e)[:200]))
    return dict(und=und, loops={k: sorted(map(str, v)) for k, v in ob.loops.items()}, stuck=[(k, str(w)[:400]) for k, w in ob.stuck],
                rec=rec, allocs=ob.allocs, params=ob.params)


def gather(rep, P, names, fn=watch):
    for name, r, e in parallel(fn, P, names):
        if r is None:
            rep.undecided(name, e)
            continue
        rep.count("units")
        for u in r["und"]:
            rep.undecided(name, u)
        yield name, r


def terminates(rep, P, tier):
    rep.rule("every loop of the parser has a measure: a count limited by a quantity the loop does not change, an input position or an iterator that advances "
             "on every abstract iteration, or the walk up an acyclic table of classes; an iteration that changes nothing its own path depends on "
             "never ends and is reported")
    rep.rule("every recursive call passes on an argument that changes by at least one towards a limit proved on the path to the call")
    rep.assumption("library iterators over finite collections end; models of the bit reader, encoding_rs and core/alloc")
    loops, recs, seen = {}, {}, set()
    for name, r in gather(rep, P, units(P)):
        for k, v in r["loops"].items():
            loops.setdefault(k, set()).update(v)
        for k, w in r["stuck"]:
            if k not in seen:
                seen.add(k)
                rep.violation("loop:%s" % k.rsplit(":", 1)[0], k, "the loop at %s repeats for ever: nothing the iteration depends on changes" % k, witness=w)
        for fn, verdict, msg in r["rec"]:
            recs.setdefault((fn, verdict, msg), name)
    for k, v in loops.items():
        rep.count("loops")
        rep.count("obligations")
        if "None" in v:
            if k not in seen:
                rep.undecided(k, "no measure found for the loop")
        else:
            rep.count("discharged")
            rep.sample("loop at %s ends by %s" % (k, ", ".join(sorted(v))))
        rep.functions.add(k.split(" (")[0])
    fns = {}
    for (fn, verdict, msg), name in sorted(recs.items()):
        rep.count("recursive_calls")
        rep.count("obligations")
        if verdict == "ok":
            rep.count("discharged")
            rep.sample("recursion of %s at %s" % (fn, msg))
        elif verdict == "bad":
            if fn not in fns:
                rep.violation("recursion:%s" % fn, msg.split(": ")[0], "recursion of %s is not limited, at %s" % (fn, msg))
            fns[fn] = True
        else:
            rep.undecided(fn, msg)
    o = N.check_tables(P, ("parents",))
    rep.count("classes_followed_to_their_root", o.ok)
    for w, m in o.bad:
        if "own ancestor" in m:
            rep.violation("hierarchy", w, m + ": the walk up its classes never ends")
    rep.floor("loops", 10)
    rep.floor("units", 40)


def allocation(rep, P, tier):
    rep.rule("at every allocation whose size is computed, the size is at most 25,000 elements or the length of something that already exists; one that "
             "an unchecked number of the input decides is reported with that number")
    sites, params = {}, {}
    from bounds import worse
    for name, r in gather(rep, P, units(P), watch_sizes):
        for k, v in r["allocs"].items():
            if worse(sites.get(k), v):
                sites[k] = v
        for k, v in r["params"].items():
            if worse(params.get(k), v):
                params[k] = v
    for k, v in sorted(sites.items()):
        rep.count("obligations")
        rep.count("allocation_sites")
        rep.functions.add(k.split(" (")[0])
        via = ""
        for _ in range(4):
            if isinstance(v, str) and v.startswith("unsure: argument "):
                key = ast.literal_eval(v[len("unsure: argument "):])
                if key not in params:
                    break
                else:
                    via += ", passed to %s" % key[0]
                    v = params[key]
        if isinstance(v, tuple):
            rep.violation("alloc:%s" % k.rsplit(":", 1)[0], k, "memory for an unchecked number of elements is reserved at %s%s (%s)" % (k, via, v[2]), witness=str(v[1])[:400])
        elif v.startswith("unsure"):
            rep.undecided(k, v)
        else:
            rep.count("discharged")
            rep.sample("%s: bounded by a %s%s" % (k, v, via))
    rep.floor("allocation_sites", 3)


CHECKS = {"C01": total, "C02": terminates, "C03": allocation}
