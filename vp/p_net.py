"""Network frames: C20, C21, C22."""
import frames, accept
from accept import path_str
from jobs import parallel


def pack(eng, ctx, out, res, bad, und, where):
    return dict(
        where=where, states=len(out), ok=res["ok"], err=res["err"], replays=ctx.nreplays, loops=ctx.nloops,
        calls=sorted(eng.stats["calls"]), und=[str(u)[:300] for u in und],
        bad=[(e.kind, str(e), path_str(getattr(e, "w", None), s)) for e, s in bad])


def job(P, item):
    part = item[0]
    if part == "frame":
        return pack(*frames.check_frame(P, case=item[1]), "src/network/frame_decoder.rs FrameDecoder::decode_frame")
    if part == "trajectory":
        return pack(*frames.check_trajectory(P), "src/network/models.rs Trajectory::from_spawn")
    if part == "table":
        n, bad, und, calls = frames.check_table(P)
        return dict(where="src/network/frame_decoder.rs SegmentedArray", states=n, ok=n, err=0, replays=0, loops=0, calls=sorted(calls),
                    und=[str(u)[:300] for u in und], bad=[(e.kind, str(e), path_str(None, s)) for e, s in bad])
    eng, ctx, out, res, bad, und, log, clog, A = frames.check_frames(P)
    where = "src/network/frame_decoder.rs FrameDecoder::decode_frames"
    r = pack(eng, ctx, out, res, bad, und, where)
    pb, pu, size = frames.preconditions(P, eng, log, A)
    r["bad"] += [("setup", m, []) for m in pb]
    r["und"] += pu
    if size is None or size < 1024:
        r["und"].append("the scratch buffer for attributes is not known to hold 1024 bytes (%s)" % size)
    n, cb, cu = frames.check_context(P, eng, clog, A)
    r["bad"] += [("context", m, []) for m in cb]
    r["und"] += [str(u)[:300] for u in cu]
    r["ok"] += n + (1 if size else 0)
    return r


PARTS = [("frame", 0), ("frame", 1), ("trajectory",), ("table",), ("frames",)]


def run(rep, P, parts, pick, **picks):
    rep.assumption("attribute decoding is an uninterpreted function of attribute kind and position (its layouts are C12 to C15); the actor table "
                   "is a map (SegmentedArray); library models of the bit reader and core/alloc")
    for item, r, err in parallel(job, P, [p for p in PARTS if p[0] in parts]):
        name = item[0]
        if r is None:
            rep.undecided(name, err)
            continue
        rep.count("units")
        rep.count("paths", r["states"])
        rep.count("obligations", r["ok"] + r["err"] + len(r["bad"]) + len(r["und"]))
        rep.count("discharged", r["ok"] + r["err"])
        rep.count("specification_replays", r["replays"])
        rep.count("loops_by_induction", r["loops"])
        rep.functions.update(r["calls"])
        rep.sample("%s: %d input classes accepted and %d rejected, as specified" % (r["where"], r["ok"], r["err"]))
        for u in r["und"]:
            rep.undecided(name, u)
        seen = set()
        for kind, msg, path in r["bad"]:
            if not (pick(kind) if item[0] not in picks else picks[item[0]](kind)) or (kind, msg) in seen:
                continue
            seen.add((kind, msg))
            if len(seen) > 5:
                break
            rep.violation("%s:%s" % (name, kind), r["where"], msg, path=path, functions=r["calls"])


RULE = ("every abstract path is compared with the grammar of frames: same bits consumed, same values, same updates of the table of actors, and "
        "the specified error otherwise; the loops over actors, attributes and frames by induction on one arbitrary iteration")


def lifecycle(rep, P, tier):
    rep.rule(RULE)
    run(rep, P, ("frame", "trajectory", "table"), lambda k: k != "context")
    rep.floor("units", 4)
    rep.floor("discharged", 100)


def sequence(rep, P, tier):
    rep.rule(RULE)
    run(rep, P, ("frames", "frame"), lambda k: k != "context", frame=lambda k: k in ("carry", "end"))
    rep.floor("units", 3)
    rep.floor("discharged", 4)


def context(rep, P, tier):
    rep.rule("on every abstract path that fails, the error is exactly the one the grammar of frames gives for that input, and the context "
             "built with it holds the lists decoded so far and the replay's objects and attribute tables")
    run(rep, P, ("frame", "frames"), lambda k: k == "context", frame=lambda k: k in ("context", "rejects", "accepts", "truncated"))
    rep.floor("units", 3)
    rep.floor("discharged", 100)


CHECKS = {"C20": lifecycle, "C21": sequence, "C22": context}
