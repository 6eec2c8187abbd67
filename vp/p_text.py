"""Accessors of header properties and texts of errors: C29, C30."""
import texts
from jobs import parallel

RULE = ("every abstract path of the function is compared with the specification of what it answers or writes, in order; the values shown are "
        "compared as terms over the fields of the value displayed")


def job(P, item):
    kind, typ = item
    if kind == "text":
        o = texts.check_text(P, typ)
    elif kind == "cause":
        o = texts.check_cause(P, typ)
    elif kind == "ids":
        o = texts.check_ids(P)
    else:
        o = texts.check_accessors(P)
    return dict(ok=o.ok, bad=list(dict.fromkeys(o.bad)), und=[str(u) for u in o.und], states=o.states, calls=sorted(o.calls))


def go(rep, P, items):
    rep.assumption("core::fmt writes the pieces of a format string in order and reports a failed write; the Display and Debug forms of numbers, floats, "
                   "strings and derived types are those of the standard library")
    for item, r, err in parallel(job, P, items):
        label = "%s %s" % item
        if r is None:
            rep.undecided(label, err)
            continue
        rep.count("units")
        rep.count("paths", r["states"])
        rep.count("obligations", r["ok"] + len(r["bad"]) + len(r["und"]))
        rep.count("discharged", r["ok"])
        rep.functions.update(r["calls"])
        rep.sample("%s: %d cases as specified" % (label, r["ok"]))
        for u in r["und"]:
            rep.undecided(label, u[:300])
        for where, msg in r["bad"][:5]:
            rep.violation("%s:%s" % (label, msg[:60]), where, msg, functions=r["calls"])
    rep.rule(RULE)


def c29(rep, P, tier):
    go(rep, P, [("accessors", "HeaderProp")])
    rep.floor("units", 1)
    rep.floor("discharged", 10)


def c30(rep, P, tier):
    go(rep, P, [("text", t) for t in ("NetworkError", "FrameContext", "ParseError", "FrameError", "AttributeError")] +
       [("cause", t) for t in texts.CAUSE] + [("ids", "ids")])
    rep.floor("units", 10)
    rep.floor("discharged", 50)


CHECKS = {"C29": c29, "C30": c30}
