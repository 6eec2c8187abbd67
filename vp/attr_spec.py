"""Layouts of replicated attributes, written from the replay format (independent of the decoder's control flow)."""
import struct
from terms import *
from accept import SpecFail, Undecided
from models import some, NONE, m_fma, Ptr

V_RL223 = None


def f32c(x):
    return Fv(("fc", struct.unpack("<I", struct.pack("<f", x))[0], 32))


def i2f(l):
    return Fv(("i2f", 32, l))


class Env:
    """symbolic decoder configuration"""

    def __init__(self, maj, mnr, net, is223, inds, buflen, net_split=()):
        self.maj, self.mnr, self.net = maj, mnr, net
        self.is223 = is223
        self.inds = inds
        self.buflen = buflen

    def at_least(self, w, a, b, c):
        """version >= (a, b, c) in lexicographic order"""
        if w.lt(K(a), self.maj):
            return True
        if w.lt(self.maj, K(a)):
            return False
        if w.lt(K(b), self.mnr):
            return True
        if w.lt(self.mnr, K(b)):
            return False
        return w.le(K(c), self.net)


# ------------------------------------------------------------------ building blocks
def max_bits(w, n, mx):
    """integer below mx: n bits, plus one more bit when the value plus 2^n is still below mx"""
    v = w.bits(n)
    if w.lt(v + (1 << n), K(mx)):
        v = v + w.bits(1).scale(1 << n)
    return v


def vec3i(w, E):
    size = max_bits(w, 4, 22 if w.le(K(7), E.net) else 20)
    size = w.rw(size)
    n = size + 2
    bias = w.eng.pow2(w.st, w.st.norm(w.rw(size + 1)))
    w.need(n.scale(3))
    return [w.bits(n) - bias for _ in range(3)]


def vec3(w, E):
    x, y, z = [w.eng.fbin("Div", i2f(w.rw(c)), f32c(100.0)) for c in vec3i(w, E)]
    return w.adt("Vector3f", x=x, y=y, z=z)


def rotation(w, E):
    out = []
    for _ in range(3):
        out.append(some(w.signed(8)) if w.flag() else NONE)
    return w.adt("Rotation", yaw=out[0], pitch=out[1], roll=out[2])


def quat(w, E):
    fb = w.eng.fbin

    def unpack(v):
        p = fb("Div", i2f(v), f32c(262143.0))
        return fb("Mul", fb("Mul", fb("Sub", p, f32c(0.5)), f32c(2.0)), f32c(0.70710678118654752440))
    w.need(2 + 54)
    largest = w.bits(2)
    c = [unpack(w.bits(18)) for _ in range(3)]

    def fma(a, b, z):
        return m_fma(w.eng, w.st, None, [a, b, z])

    def neg(a):
        return Fv(("fneg", a.t))
    e = f32c(1.0)
    for x in c:
        e = fma(x, neg(x), e)
    e = Fv(("fsqrt", e.t))
    for i in range(4):
        if i == 3 or w.is_eq(largest, i):
            c.insert(i, e)
            break
    return w.adt("Quaternion", x=c[0], y=c[1], z=c[2], w=c[3])


def quat_compressed(w, E):
    w.need(48)
    r = []
    inv = f32c(struct.unpack("<f", struct.pack("<f", 1.0 / 32767.0))[0])
    for _ in range(3):
        r.append(w.eng.fbin("Mul", i2f(w.bits(16) - 32768), inv))
    return w.adt("Quaternion", x=r[0], y=r[1], z=r[2], w=f32c(0.0))


def actor(w, E):
    return w.adt("ActorId", None, w.signed(32))


def active_actor(w, E):
    return w.adt("ActiveActor", active=w.bit(), actor=actor(w, E))


W1252 = "encoding_rs::WINDOWS_1252_INIT"
U16LE = "encoding_rs::UTF_16LE_INIT"
HOW = "decode_without_bom_handling"


def text(w, E):
    """length-prefixed text: positive = windows-1252 bytes, negative = utf-16 units, both with a terminator; zero = empty"""
    n = w.signed(32)
    if w.is_eq(n, 0):
        return StrV(("c", b""))
    if w.lt(n, 0):
        if w.le(n, -(1 << 30)):
            raise SpecFail("oversized text")
        nb, term, enc = n.scale(-2), 2, U16LE
    else:
        nb, term, enc = n, 1, W1252
    if not w.le(nb, E.buflen):
        raise SpecFail("oversized text")
    nb = w.rw(nb)
    p0 = w.pos
    w.bytes_key(nb)
    return decoded(w, enc, ("bits", w.base, p0, nb - term))


def decoded(w, enc, content):
    content = w.rw(content)
    if isinstance(content[3], Lin):
        n = w.st.norm(content[3])
        content = content[:3] + (n,)
        if n == ZERO:
            content = content
    return StrV(("dec", enc, HOW, content))


def nul_padded(w, n):
    """windows-1252 text in n bytes, cut at the first zero byte"""
    p0 = w.pos
    k = w.scan(lambda w, i: w.is_eq(w.peek_at(p0 + i.scale(8), 8), 0), n, p0, "nul")
    w.pos = w.rw(p0)
    w.bytes_key(K(n))
    return decoded(w, W1252, ("bits", w.base, w.rw(p0), w.rw(k)))


def bytevec(w, n):
    k = w.bytes_key(K(n))
    return VecV(k, K(n), None)


def opt(f):
    def g(w, E):
        return some(f(w, E)) if w.flag() else NONE
    return g


BASIC = {
    "bit": lambda w, E: w.bit(),
    "u8": lambda w, E: w.bits(8),
    "u32": lambda w, E: w.bits(32),
    "u64": lambda w, E: w.bits(64),
    "i32": lambda w, E: w.signed(32),
    "i64": lambda w, E: w.signed(64),
    "f32": lambda w, E: w.f32(),
    "vec3": vec3, "rot": rotation, "quat": quat, "actor": actor, "aactor": active_actor, "text": text,
}


def record(ty, *fields):
    """fields: (name, layout)"""
    def g(w, E):
        d = {}
        for n, t in fields:
            v = get(t)(w, E)
            if not n.startswith("_"):
                d[n] = v
        return w.adt(ty, **d)
    return g


def get(t):
    if callable(t):
        return t
    if isinstance(t, int):
        return lambda w, E: w.bits(t)
    return BASIC[t]


def fields(s):
    return [(n, t if not t.isdigit() else int(t)) for n, t in (x.split(":") for x in s.split())]


def rec(ty, s):
    return record(ty, *fields(s))


explosion = rec("Explosion", "flag:bit actor:actor location:vec3")
BASIC["explosion"] = explosion


def since(a, b, c, t):
    def g(w, E):
        return some(get(t)(w, E)) if E.at_least(w, a, b, c) else NONE
    return g


def rigid_body(w, E):
    sleeping = w.flag()
    loc = vec3(w, E)
    rot = quat(w, E) if w.le(K(7), E.net) else quat_compressed(w, E)
    lin = ang = NONE
    if not sleeping:
        lin = some(vec3(w, E))
        ang = some(vec3(w, E))
    return w.adt("RigidBody", sleeping=bv(sleeping), location=loc, rotation=rot, linear_velocity=lin, angular_velocity=ang)


def loadout(w, E):
    d = {}
    v = d["version"] = w.bits(8)
    for n in "body decal wheels rocket_trail antenna topper unknown1".split():
        d[n] = w.bits(32)

    def gate(lo, names):
        if w.le(K(lo), v):
            for n in names:
                x = some(w.bits(32))
                if not n.startswith("_"):
                    d[n] = x
        else:
            for n in names:
                if not n.startswith("_"):
                    d[n] = NONE
    gate(11, ["unknown2"])
    gate(16, ["engine_audio", "trail", "goal_explosion"])
    gate(17, ["banner"])
    gate(19, ["product_id"])
    gate(22, ["_a", "_b", "_c"])
    return w.adt("Loadout", **d)


def team_loadout(w, E):
    return w.adt("TeamLoadout", blue=loadout(w, E), orange=loadout(w, E))


def unique_id_body(w, E, sid):
    R = lambda v, *a: w.adt("RemoteId", v, *a)
    if w.is_eq(sid, 0):
        r = R("SplitScreen", w.bits(24))
    elif w.is_eq(sid, 1):
        r = R("Steam", w.bits(64))
    elif w.is_eq(sid, 2):
        name = nul_padded(w, 16)
        unk = bytevec(w, 16 if w.le(K(1), E.net) else 8)
        r = R("PlayStation", w.adt("Ps4Id", name=name, unknown1=unk, online_id=w.bits(64)))
    elif w.is_eq(sid, 4):
        r = R("Xbox", w.bits(64))
    elif w.is_eq(sid, 5):
        r = R("QQ", w.bits(64))
    elif w.is_eq(sid, 6):
        oid = w.bits(64)
        r = R("Switch", w.adt("SwitchId", online_id=oid, unknown1=bytevec(w, 24)))
    elif w.is_eq(sid, 7):
        oid = w.bits(64)
        unk = bytevec(w, 24) if w.lt(E.net, K(10)) else VecV(("lit", ()), ZERO, None)
        r = R("PsyNet", w.adt("PsyNetId", online_id=oid, unknown1=unk))
    elif w.is_eq(sid, 11):
        r = R("Epic", text(w, E))
    else:
        raise SpecFail("unknown identity system")
    return w.adt("UniqueId", system_id=sid, remote_id=r, local_id=w.bits(8))


def unique_id(w, E):
    return unique_id_body(w, E, w.bits(8))


def party_leader(w, E):
    sid = w.bits(8)
    if w.is_eq(sid, 0):
        return NONE
    return some(unique_id_body(w, E, sid))


def rocket_host_name(w, E):
    """bytes up to a zero, at most 255 bytes of text; each byte is one Latin-1 character"""
    return w.chars_until_nul(255, "rocket-host name")


def reservation(w, E):
    number = w.bits(3)
    uid = unique_id(w, E)
    sid = uid.fields[0]
    rid = uid.fields[1]
    if not w.is_eq(sid, 0):
        name = some(text(w, E))
    elif not w.is_eq(rid.fields[0], 0):
        name = some(rocket_host_name(w, E))
    else:
        name = NONE
    u1, u2 = w.bit(), w.bit()
    u3 = some(w.bits(6)) if E.at_least(w, 868, 12, 0) else NONE
    return w.adt("Reservation", number=number, unique_id=uid, name=name, unknown1=u1, unknown2=u2, unknown3=u3)


def product_value(w, E, oid):
    PV = lambda v, *a: w.adt("ProductValue", v, *a)
    if w.is_eq(oid, E.inds["color"]):
        if E.at_least(w, 868, 23, 8):
            return PV("NewColor", w.bits(32))
        return PV("OldColor", w.bits(31)) if w.flag() else PV("NoColor")
    if w.is_eq(oid, E.inds["painted"]):
        if E.at_least(w, 868, 18, 0):
            return PV("NewPaint", w.bits(31))
        return PV("OldPaint", max_bits(w, 3, 14))
    if w.is_eq(oid, E.inds["title"]):
        return PV("Title", text(w, E))
    if w.is_eq(oid, E.inds["special_edition"]):
        return PV("SpecialEdition", w.bits(31))
    if w.is_eq(oid, E.inds["team_edition"]):
        if E.at_least(w, 868, 18, 0):
            return PV("NewTeamEdition", w.bits(31))
        return PV("OldTeamEdition", max_bits(w, 3, 14))
    return PV("Absent")


def product(w, E):
    u = w.bit()
    oid = w.signed(32)
    return w.adt("Product", unknown=u, object_ind=w.adt("ObjectId", None, oid), value=product_value(w, E, oid))


def online_loadout(tag):
    def g(w, E):
        return w.list(w.bits(8), lambda w: w.list(w.bits(8), lambda w: product(w, E), "products" + tag), "slots" + tag)
    return g


def loadouts_online(w, E):
    b = online_loadout("b")(w, E)
    o = online_loadout("o")(w, E)
    return w.adt("LoadoutsOnline", blue=b, orange=o, unknown1=w.bit(), unknown2=w.bit())


def game_mode(w, E):
    n = 8 if E.at_least(w, 868, 12, 0) else 2
    return (K(n), w.bits(n))


def qword(w, E):
    if w.cond(E.is223):
        return ("String", text(w, E))
    return ("QWord", w.bits(64))


# attribute tag -> (group, attribute variant, layout)
A = {
    "Boolean": ("Boolean", "bit"),
    "Byte": ("Byte", "u8"),
    "AppliedDamage": ("AppliedDamage", rec("AppliedDamage", "id:u8 position:vec3 damage_index:i32 total_damage:i32")),
    "DamageState": ("DamageState", rec("DamageState", "tile_state:u8 damaged:bit offender:actor ball_position:vec3 "
                                       "direct_hit:bit unknown1:bit")),
    "CamSettings": ("CamSettings", record("CamSettings", *fields("fov:f32 height:f32 angle:f32 distance:f32 stiffness:f32 swivel:f32"),
                                          ("transition", since(868, 20, 0, "f32")))),
    "ClubColors": ("ClubColors", rec("ClubColors", "blue_flag:bit blue_color:u8 orange_flag:bit orange_color:u8")),
    "Demolish": ("Demolish", rec("Demolish", "attacker_flag:bit attacker:actor victim_flag:bit victim:actor attack_velocity:vec3 "
                                 "victim_velocity:vec3")),
    "DemolishFx": ("DemolishFx", rec("DemolishFx", "custom_demo_flag:bit custom_demo_id:i32 attacker_flag:bit attacker:actor "
                                     "victim_flag:bit victim:actor attack_velocity:vec3 victim_velocity:vec3")),
    "DemolishExtended": ("DemolishExtended", rec("DemolishExtended", "attacker_pri:aactor self_demo:aactor self_demolish:bit "
                                                 "goal_explosion_owner:aactor attacker:aactor victim:aactor "
                                                 "attacker_velocity:vec3 victim_velocity:vec3")),
    "Enum": ("Enum", 11),
    "Explosion": ("Explosion", explosion),
    "ExtendedExplosion": ("ExtendedExplosion", rec("ExtendedExplosion", "explosion:explosion unknown1:bit secondary_actor:actor")),
    "FlaggedByte": ("FlaggedByte", ["bit", "u8"]),
    "ActiveActor": ("ActiveActor", active_actor),
    "Float": ("Float", "f32"),
    "GameMode": ("GameMode", game_mode),
    "Int": ("Int", "i32"),
    "Int64": ("Int64", "i64"),
    "Loadout": ("Loadout", loadout),
    "TeamLoadout": ("TeamLoadout", team_loadout),
    "Location": ("Location", "vec3"),
    "MusicStinger": ("MusicStinger", rec("MusicStinger", "flag:bit cue:u32 trigger:u8")),
    "Pickup": ("Pickup", record("Pickup", ("instigator", opt(actor)), ("picked_up", "bit"))),
    "PickupNew": ("PickupNew", record("PickupNew", ("instigator", opt(actor)), ("picked_up", "u8"))),
    "PlayerHistoryKey": ("PlayerHistoryKey", 14),
    "QWordString": (None, qword),
    "Welded": ("Welded", rec("Welded", "active:bit actor:actor offset:vec3 mass:f32 rotation:rot")),
    "RigidBody": ("RigidBody", rigid_body),
    "Title": ("Title", ["bit", "bit", "u32", "u32", "u32", "u32", "u32", "bit"]),
    "TeamPaint": ("TeamPaint", rec("TeamPaint", "team:u8 primary_color:u8 accent_color:u8 primary_finish:u32 accent_finish:u32")),
    "String": ("String", "text"),
    "UniqueId": ("UniqueId", unique_id),
    "Reservation": ("Reservation", reservation),
    "PartyLeader": ("PartyLeader", party_leader),
    "PrivateMatchSettings": ("PrivateMatch", rec("PrivateMatchSettings", "mutators:text joinable_by:u32 max_players:u32 game_name:text "
                                                 "password:text flag:bit")),
    "LoadoutOnline": ("LoadoutOnline", online_loadout("")),
    "LoadoutsOnline": ("LoadoutsOnline", loadouts_online),
    "StatEvent": ("StatEvent", rec("StatEvent", "unknown1:bit object_id:i32")),
    "RotationTag": ("Rotation", "rot"),
    "RepStatTitle": ("RepStatTitle", rec("RepStatTitle", "unknown:bit name:text unknown2:bit index:u32 value:u32")),
    "PickupInfo": ("PickupInfo", None),
    "Impulse": ("Impulse", rec("Impulse", "compressed_rotation:i32 speed:f32")),
    "ReplicatedBoost": ("ReplicatedBoost", rec("ReplicatedBoost", "grant_count:u8 boost_amount:u8 unused1:u8 unused2:u8")),
    "LogoData": ("LogoData", rec("LogoData", "logo_id:u32 swap_colors:bit")),
    "NotImplemented": (None, None),
}


def pickup_info(w, E):
    a = VecV(("lit", tuple(active_actor(w, E) for _ in range(3))), K(3), None)
    return w.adt("PickupInfo", available_pickups=a, items_are_preview=w.bit())


A["PickupInfo"] = ("PickupInfo", pickup_info)


def attribute(tag):
    variant, lay = A[tag]

    def g(w, E):
        if lay is None:
            raise SpecFail("attribute without a decoder")
        if isinstance(lay, list):
            return w.adt("Attribute", variant, *[get(t)(w, E) for t in lay])
        v = get(lay)(w, E)
        if variant is None:
            return w.adt("Attribute", v[0], v[1])
        if isinstance(v, tuple):
            return w.adt("Attribute", variant, *v)
        return w.adt("Attribute", variant, v)
    return g
