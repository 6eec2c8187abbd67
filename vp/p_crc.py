"""C07: the checksum function is the CRC it is documented to be, for data of every length and content."""
import crc

RULE = ("calc_crc is analysed by abstract interpretation for data of any length; each loop gives one arbitrary iteration as terms over the accumulator at its "
        "start and the bytes it reads. Shifts, exclusive ors, byte swaps, masks of constants and look-ups in linear tables (every entry of the constant tables is read "
        "from the compiler) are affine over GF(2): bit for bit, the accumulator before a loop, after an iteration and at the end must be the register of the "
        "reference division (poly 0x04c11db7, initial 0x10340dfe, most significant bit first, xorout 0xffffffff) under one change of representation; "
        "the loops must use every byte once and in order")


def c07(rep, P, tier):
    o = crc.check(P)
    rep.count("units")
    rep.count("paths", o.states)
    rep.count("loops", o.loops)
    rep.count("obligations", o.ok + len(o.bad) + len(o.und))
    rep.count("discharged", o.ok)
    rep.functions.update(o.calls)
    rep.sample("src/crc.rs calc_crc: %d bits as in the reference" % o.ok)
    for u in o.und:
        rep.undecided("calc_crc", str(u)[:300])
    for where, msg in list(dict.fromkeys(o.bad))[:5]:
        rep.violation("calc_crc:%s" % msg[:60], where, msg, functions=sorted(o.calls))
    rep.rule(RULE)
    rep.floor("units", 1)
    rep.floor("discharged", 32)


CHECKS = {"C07": c07}
