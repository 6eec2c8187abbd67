"""Equality, clones, order and conversions of values: C35; no unsafe code: C36."""
import re
import values
from values import Und, Bad, short
from absint import GiveUp, Infeasible
from netparse import Out

IDS = ("ActorId", "ObjectId", "StreamId")
CMP = {"lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}


def plan(P):
    public = {"boxcars::" + x[0] for x in P.d["vis"] if x[2] and x[1] in ("Struct", "Enum")}
    out = []
    for i, x in enumerate(P.insts):
        b = x.get("body")
        if not b or not x["name"].startswith(("<boxcars::", "boxcars::")):
            continue
        m = re.match(r"<(boxcars::[\w:]+) as std::(?:cmp::(?:PartialEq|PartialOrd|Ord)|clone::Clone)>::(\w+)$", x["name"])
        if m and b["argc"] >= 1:
            t = b["locals"][1]
            while P.kind(t)[0] == "ref":
                t = P.kind(t)[1]
            n = P.kind(t)[1] if P.kind(t)[0] == "adt" else None
            f = m.group(2)
            if n is None or n not in public:
                continue
            if f in ("eq", "ne"):
                out.append(("eq", n, f, i))
            elif f == "clone":
                out.append(("clone", n, f, i))
            elif short(n) in IDS and f in ("cmp", "partial_cmp", "lt", "le", "gt", "ge"):
                out.append(("order", n, f, i))
            continue
        m = re.search(r"convert::From<(boxcars::[\w:]+)>(?: for (\w+)>)?", x["name"])
        if m and short(m.group(1)) in IDS and x["name"].endswith("::from") and P.tname(b["locals"][0]) in ("i32", "usize"):
            out.append(("number", m.group(1), "from for " + P.tname(b["locals"][0]), i))
    return out


def c35(rep, P, tier):
    rep.rule("every abstract path of an equality, clone, comparison or conversion is decided against the fields of its arguments: yes needs every field "
             "equal, no needs one that differs, a clone has every field of the original")
    rep.assumption("equality and clones of standard types (Vec, String, Option, Box, arrays) are those of their elements; floats are compared as IEEE 754 does")
    o = Out()
    for kind, n, f, i in plan(P):
        span = P.insts[i].get("span") or ""
        label = "%s::%s" % (short(n), f)
        rep.count("units")
        rep.functions.add(P.insts[i]["name"])
        try:
            if kind == "eq":
                bad, k = values.check_eq(P, i, o, f == "eq")
            elif kind == "clone":
                bad, k = values.check_clone(P, i, o)
            elif kind == "order":
                bad, k = values.check_order(P, i, o, CMP.get(f, "order"))
            else:
                bad, k = values.check_number(P, i, o)
        except Bad as e:
            bad, k = [str(e)], 1
        except (Und, GiveUp, Infeasible) as e:
            rep.undecided(label, str(e)[:300])
            continue
        except Exception as e:
            rep.undecided(label, "%s: %s" % (type(e).__name__, str(e)[:200]))
            continue
        rep.count("obligations", k)
        if not bad:
            rep.count("discharged", k)
            rep.sample("%s: %d cases" % (label, k))
        for b in bad[:4]:
            rep.violation("%s:%s" % (label, b[:60]), "%s %s" % (span, label), b, functions=[P.insts[i]["name"]])
    rep.count("paths", o.states)
    rep.floor("units", 90)


def c36(rep, P, tier):
    rep.rule("no block, function, trait implementation or foreign item in the source of the crate (as parsed and expanded) is marked unsafe, other than by "
             "macros of other crates")
    rep.assumption("safe Rust has no undefined behaviour; the dependencies and the standard library keep their unsafe code sound")
    fns = [x["name"] for x in P.insts if x.get("local")] + [x["name"] for x in P.d["generics"]]
    bad = {}
    for what, owner, span, ext in P.d["unsafe"]:
        if not ext:
            bad.setdefault((owner, what), []).append(span)
    rep.functions.update(fns)
    rep.count("units", len(fns))
    rep.count("obligations", len(fns))
    rep.count("discharged", len(fns) - len({o for o, _ in bad}))
    rep.count("macros of other crates", len([x for x in P.d["unsafe"] if x[3]]))
    for (owner, what), spans in sorted(bad.items()):
        kind = {"block": "an unsafe block", "fn": "an unsafe function", "impl": "an unsafe implementation", "extern": "a foreign item"}[what]
        rep.violation("%s:%s" % (owner, what), "%s in %s" % (spans[0], owner), "%s (%d in all)" % (kind, len(spans)), functions=[owner])
    rep.floor("units", 150)


CHECKS = {"C35": c35, "C36": c36}
