"""Container, header and body: C03, C06, C08, C09, C10, C11, C23 (and the header and body part of C04)."""
import cores, core_spec, container
from accept import path_str
from jobs import parallel

PARTS = {
    "body": (("Parser::parse_body",), core_spec.body, "src/parser.rs Parser::parse_body"),
    "header": (("header::parse_header",), core_spec.header, "src/header.rs parse_header"),
    "text": (("CoreParser::parse_text",), lambda w: w.text(), "src/core_parser.rs parse_text"),
    "str": (("CoreParser::parse_str",), lambda w: w.str(), "src/core_parser.rs parse_str"),
}


def result(eng, ctx, out, res, bad, und, where):
    return dict(
        where=where, states=len(out), ok=res["ok"], err=res["err"], replays=ctx.nreplays, loops=ctx.nloops,
        calls=sorted(eng.stats["calls"]), und=[str(u)[:300] for u in und],
        bad=[(e.kind, str(e), path_str(getattr(e, "w", None), s)) for e, s in bad])


def job(P, item):
    part, context = item
    if part == "container":
        name = context[0]
        return result(*container.check(P, context), "src/parser.rs ParserBuilder::parse (%s)" % name)
    names, spec, where = PARTS[part]
    inst = container.one(P, *names)
    return result(*cores.check(P, inst, spec, container.on_error() if context else None), where)


def run(rep, P, items, pick=lambda kind: True, label=lambda i: i[0]):
    rep.assumption("models of encoding_rs and of core/alloc functions; a nested property dictionary is treated as one more dictionary "
                   "of the same grammar (induction on nesting)")
    for item, r, err in parallel(job, P, items):
        if r is None:
            rep.undecided(label(item), err)
            continue
        rep.count("units")
        rep.count("paths", r["states"])
        rep.count("obligations", r["ok"] + r["err"] + len(r["bad"]) + len(r["und"]))
        rep.count("discharged", r["ok"] + r["err"])
        rep.count("specification_replays", r["replays"])
        rep.count("loops_by_induction", r["loops"])
        rep.functions.update(r["calls"])
        rep.sample("%s: %d input classes accepted and %d rejected, as specified" % (r["where"], r["ok"], r["err"]))
        for u in r["und"]:
            rep.undecided(label(item), u)
        seen = set()
        for kind, msg, path in r["bad"]:
            if not pick(kind) or (kind, msg) in seen:
                continue
            seen.add((kind, msg))
            if len(seen) > 5:
                break
            rep.violation("%s:%s" % (label(item), kind), r["where"], msg, path=path, functions=r["calls"])


LAYOUT = ("every abstract path of the parser is compared with the layout: same bytes consumed, same fields, and an error exactly when the "
          "input is truncated or outside the format; loops by induction on one arbitrary iteration")


def crc_policy(rep, P, tier):
    rep.rule("every abstract path of the whole parse, for every way of choosing the policies, returns exactly the specified value or error; "
             "section parsers and the checksum are uninterpreted functions of the bytes they are given")
    sc = [s for s in container.scenarios() if s[3] == "Never" or "crc" in s[0] or s[0] == "defaults" or "/" in s[0]]
    run(rep, P, [("container", s) for s in sc], lambda k: k != "context", lambda i: i[1][0])
    rep.floor("units", len(sc))


def net_policy(rep, P, tier):
    rep.rule("every abstract path of the whole parse, for every way of choosing the policies, returns exactly the specified value or error; "
             "section parsers and the network decoder are uninterpreted functions of what they are given")
    sc = [s for s in container.scenarios() if "crc" not in s[0]]
    run(rep, P, [("container", s) for s in sc], lambda k: k != "context", lambda i: i[1][0])
    rep.floor("units", len(sc))


def body_layout(rep, P, tier):
    rep.rule(LAYOUT)
    run(rep, P, [("body", False)])
    rep.floor("units", 1)
    rep.floor("discharged", 10)


def header_layout(rep, P, tier):
    rep.rule(LAYOUT)
    run(rep, P, [("header", False)])
    rep.floor("units", 1)
    rep.floor("discharged", 100)


def strings(rep, P, tier):
    rep.rule(LAYOUT)
    run(rep, P, [("text", False), ("str", False)])
    rep.floor("units", 2)


def errors(rep, P, tier):
    rep.rule("on every abstract path that fails, the error names the section of the failing read, the byte offset reached and the cause")
    defaults = container.scenarios()[0]
    run(rep, P, [("header", True), ("body", True), ("container", defaults)], lambda k: k in ("context", "accepts"))
    rep.floor("units", 3)


CHECKS = {"C06": crc_policy, "C08": net_policy, "C09": body_layout, "C10": header_layout, "C11": strings, "C23": errors}
