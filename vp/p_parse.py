"""Set-up of the network decoder from header and footer: C16, C17, C18, C19."""
import traceback
import netparse as N
from accept import path_str
from jobs import parallel

# part -> (function under /repo, analysis)
LOOK = [("lookup %s" % l[0], l[0], lambda P, l=l: N.check_lookup(P, *l)) for l in N.LOOKUPS]


def on_parse(*fs):
    def go(P):
        o = N.Out()
        p = N.Parse(P)
        o.took(p.eng, p.out)
        N.givenups(o, p.out, "network::parse")
        if not p.calls:
            o.undecided("network::parse: no call of the frame decoder is reached")
        for f in fs:
            f(P, p, o)
        return o
    return go


def streams(P, p, o):
    """only the errors about streams"""
    x = N.Out()
    N.results(P, p, x)
    o.und += [u for u in x.und if "Stream" in u]
    o.bad += [b for b in x.bad if "stream" in b[1].lower()]
    o.good(sum(1 for s in p.out if s.kind == "ret" and "StreamTooLarge" in repr(s.value)) if not o.bad else 0)


PARTS = {
    "attributes": ("src/data.rs ATTRIBUTES", lambda P: N.check_tables(P, ("attributes",))),
    "classes": ("src/data.rs PARENT_CLASSES, SPAWN_STATS", lambda P: N.check_tables(P, ("parents", "spawns"))),
    "index": ("src/network/object_index.rs", N.check_index),
    "normalise": ("src/data.rs normalize_object", N.check_normalise),
    "params": ("src/network/mod.rs parse", on_parse(N.params)),
    "results": ("src/network/mod.rs parse", on_parse(N.results)),
    "products": ("src/network/attributes.rs ProductValueDecoder::create", N.check_products),
    "lookups": ("src/network/mod.rs parse", on_parse(N.lookups, streams)),
    "spawns": ("src/network/mod.rs parse", on_parse(N.spawns)),
    "traversal": ("src/network/mod.rs net_traversal", N.check_traversal),
    "caches": ("src/network/mod.rs parse", on_parse(N.caches)),
}
for n, fn, f in LOOK:
    PARTS[n] = ("src/models.rs " + fn, f)


def job(P, name):
    try:
        o = PARTS[name][1](P)
    except (N.GiveUp, KeyError, AttributeError, ValueError, TypeError, IndexError, AssertionError, RecursionError) as e:
        o = N.Out()
        o.undecided("%s: %s" % (type(e).__name__, traceback.format_exc()[-250:] if not isinstance(e, N.GiveUp) else e))
    return dict(ok=o.ok, bad=[(str(w), str(m)[:500]) for w, m in o.bad], und=[str(u)[:300] for u in o.und], calls=sorted(o.calls),
                states=o.states, loops=o.loops)


def run(rep, P, parts):
    rep.assumption("maps and lists of core/alloc are modelled as finite maps and lists; decode_frames, the hierarchy of classes, the header "
                   "lookups and the inheritance of properties are analysed separately and are symbols where they are called")
    for name, r, e in parallel(job, P, parts):
        if r is None:
            rep.undecided(name, e)
            continue
        rep.count("units")
        rep.count("paths", r["states"])
        rep.count("loops", r["loops"])
        rep.count("obligations", r["ok"] + len(r["bad"]) + len(r["und"]))
        rep.count("discharged", r["ok"])
        rep.functions.update(r["calls"])
        rep.sample("%s: %d obligations hold" % (PARTS[name][0], r["ok"]))
        for u in r["und"]:
            rep.undecided(name, u)
        seen = set()
        for w, m in r["bad"]:
            if m in seen or len(seen) >= 5:
                continue
            seen.add(m)
            rep.violation("%s:%s" % (name, m[:80]), w, m, functions=r["calls"])


def setup(rep, P, tier):
    rep.rule("on every abstract path through network::parse the parameters given to the frame decoder and the result are the functions of "
             "header, body and index that the format prescribes; the same for the header lookups and the product decoder")
    run(rep, P, ["params", "results", "products"] + [n for n, _, _ in LOOK])
    rep.floor("units", 7)
    rep.floor("discharged", 100)


def kinds(rep, P, tier):
    rep.rule("the table of attribute kinds holds every entry of the reference table, and the decoder looks every object name of the replay up in it")
    run(rep, P, ["attributes", "lookups", "index"])
    rep.floor("units", 3)
    rep.floor("discharged", 100)


def spawn(rep, P, tier):
    rep.rule("class tables against the reference; every path of normalize_object, hierarchy and by_name against their definition; the loop that "
             "fills the initial states takes the first class of the hierarchy that has one")
    run(rep, P, ["classes", "index", "normalise", "spawns"])
    rep.floor("units", 4)
    rep.floor("discharged", 80)


def caches(rep, P, tier):
    rep.rule("every path of net_traversal and of the loops of network::parse over class caches: inherited properties first, own ones last, limit "
             "and width of property ids from the largest stream id")
    run(rep, P, ["traversal", "caches", "index", "lookups"])
    rep.floor("units", 3)
    rep.floor("discharged", 4)


CHECKS = {"C16": setup, "C17": kinds, "C18": spawn, "C19": caches}
