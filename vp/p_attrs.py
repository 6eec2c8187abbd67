"""Attribute layouts: C04 (truncation), C12..C15."""
import attrs, attr_spec, p_core, p_net, p_parse
from absint import GiveUp
from accept import path_str
from jobs import parallel

SPATIAL = ["RigidBody", "Welded", "Location", "RotationTag", "Explosion", "ExtendedExplosion", "AppliedDamage", "DamageState",
           "Demolish", "DemolishFx", "DemolishExtended"]
IDENTITY = ["Reservation", "UniqueId", "PartyLeader"]
LOADOUT = ["LoadoutsOnline", "LoadoutOnline", "TeamLoadout", "Loadout"]
TAGS = ["RigidBody", "Reservation", "LoadoutsOnline", "LoadoutOnline"]
TAGS += [t for t in attr_spec.A if t not in TAGS]
SCALAR = [t for t in TAGS if t not in SPATIAL + IDENTITY + LOADOUT]
WHERE = "src/network/attributes.rs AttributeDecoder::decode"


def job(P, tag):
    eng, ctx, out, res, bad, und = attrs.check(P, tag)
    return dict(
        states=len(out), ok=res["ok"], err=res["err"], replays=ctx.nreplays, loops=ctx.nloops,
        panics=sum(1 for s in out if s.kind == "panic"), calls=sorted(eng.stats["calls"]),
        bad=[(e.kind, str(e), path_str(getattr(e, "w", None), s)) for e, s in bad],
        und=[str(u)[:300] for u in und])


def run(rep, P, tags, kinds=None, skip=()):
    rep.assumption("scratch buffer of at least 1024 bytes and one protocol version for the attribute and product decoders "
                   "(established where the frame decoder builds them)")
    rep.assumption("models of the bit reader (bitter 0.9.1), encoding_rs and core/alloc functions")
    order = [t for t in TAGS if t in tags]
    for tag, r, err in parallel(job, P, order):
        if r is None:
            rep.undecided(tag, err)
            continue
        rep.count("attribute_types")
        rep.count("paths", r["states"])
        rep.count("obligations", r["ok"] + r["err"] + len(r["bad"]) + len(r["und"]))
        rep.count("discharged", r["ok"] + r["err"])
        rep.count("specification_replays", r["replays"])
        rep.count("loops_by_induction", r["loops"])
        rep.functions.update(r["calls"])
        rep.sample("%s: %d complete and %d incomplete or malformed inputs classes agree with the layout" % (tag, r["ok"], r["err"]))
        for u in r["und"]:
            rep.undecided(tag, u)
        seen = set()
        for kind, msg, path in r["bad"]:
            if (kinds is not None and kind not in kinds) or (kind in skip):
                continue
            if (kind, msg) in seen:
                continue
            seen.add((kind, msg))
            if len(seen) > 5:
                break
            rep.violation("%s:%s" % (tag, kind), "%s(%s)" % (WHERE, tag), "attribute %s: %s" % (tag, msg), path=path,
                          functions=r["calls"])


RULE = ("every abstract path of the decoder for the attribute type is compared with the layout: same bits consumed, same fields, and "
        "an error exactly when the input is truncated or outside the format; loops by induction on one arbitrary iteration")


def layouts(tags):
    def check(rep, P, tier):
        rep.rule(RULE)
        run(rep, P, tags)
        rep.floor("attribute_types", len(tags))
        rep.floor("discharged", 2 * len(tags))
    return check


def truncation(rep, P, tier):
    rep.rule("no abstract path returns a value when the layout says the bits read extend past the end of the input")
    run(rep, P, TAGS, ("truncated",))
    rep.floor("attribute_types", len(TAGS))
    p_net.run(rep, P, ("frame", "trajectory"), lambda k: k == "truncated")
    p_core.run(rep, P, [("header", False), ("body", False)], lambda k: k == "truncated")
    rep.floor("units", 5)


def loadouts(rep, P, tier):
    layouts(LOADOUT)(rep, P, tier)
    p_parse.run(rep, P, ["products"])       # which object is the colour, the paint, ..


CHECKS = {
    "C04": truncation,
    "C12": layouts(SCALAR),
    "C13": layouts(SPATIAL),
    "C14": layouts(IDENTITY),
    "C15": loadouts,
}
