"""The type-checked program (MIR and types) of /repo's current tree, as dumped by the rustc driver."""
import json, struct
import build
from terms import *


class Prog:
    def __init__(self, path=None):
        self.path = path or build.dump()
        d = json.load(open(self.path))
        self.d = d
        self.T = d["types"]
        self.insts = d["insts"]
        self.adts = d["adts"]
        self.allocs = d["allocs"]
        self.statics = d["statics"]
        self.by_def = {}
        for n, i in enumerate(self.insts):
            self.by_def.setdefault(i["def"], []).append(n)
        self._loops = {}
        self._short = {}

    def fname(self, i):
        sp = (i.get("body") or {}).get("span") or i.get("span")
        try:
            f = self.d["files"][sp[0]]
            return f.split("/repo/", 1)[-1]
        except (TypeError, IndexError, KeyError):
            return "?"

    @property
    def usize(self):
        return next(i for i, x in enumerate(self.T) if x["s"] == "usize")

    def kind(self, t):
        return self.T[t]["k"]

    def tname(self, t):
        return self.T[t]["s"]

    def find(self, suffix, body=True):
        """instances whose generic definition path ends with suffix (path-component aligned)"""
        out = []
        for d, ns in self.by_def.items():
            s = strip(d)
            if s == suffix or s.endswith("::" + suffix):
                for n in ns:
                    if not body or self.insts[n].get("body"):
                        out.append(n)
        return out

    def adt_name(self, name):
        if name in self.adts:
            return name
        c = [a for a in self.adts if a.startswith("boxcars::") and a.rsplit("::", 1)[-1] == name]
        if len(c) != 1:
            raise KeyError("type %s: %s" % (name, c))
        return c[0]

    def one(self, suffix):
        r = self.find(suffix)
        return r[0] if r else None

    # ---------------------------------------------------------------- types
    def int_range(self, t):
        k = self.kind(t)
        if k[0] == "int":
            s, b = k[1], k[2]
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        if k[0] == "char":
            return (0, 0x10FFFF)
        return None

    def adt_variants(self, t):
        k = self.kind(t)
        return k[3]

    def field_ty(self, t, variant, i):
        k = self.kind(t)
        if k[0] == "adt":
            return k[3][variant][i]
        if k[0] == "tuple":
            return k[1][i]
        raise KeyError(k)

    def is_enum(self, t):
        k = self.kind(t)
        return k[0] == "adt" and self.adts.get(k[1], {}).get("kind", "").lower() == "enum"

    def variant_name(self, t, v):
        k = self.kind(t)
        return self.adts[k[1]]["variants"][v][0]

    def discr(self, t, v):
        k = self.kind(t)
        return int(self.adts[k[1]]["variants"][v][1])

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adts[adt]["variants"]):
            if v[0] == name:
                return i
        return None

    # ---------------------------------------------------------------- CFG
    def succs(self, body, b):
        t = body["bb"][b][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        if k in ("py", "icall", "callv"):
            return [t[4]]
        if k == "match":
            return list(t[2].values())
        return []

    def loops(self, body):
        key = id(body)
        r = self._loops.get(key)
        if r is not None:
            return r[1]
        n = len(body["bb"])
        succ = [self.succs(body, b) for b in range(n)]
        order, seen, onst = [], set(), set()
        back = []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        onst.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst:
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                st.pop()
                onst.discard(b)
                order.append(b)
        pred = [[] for _ in range(n)]
        for b in seen:
            for s in succ[b]:
                pred[s].append(b)
        loops = {}
        for b, h in back:
            blocks = loops.setdefault(h, {h})
            wl = [b]
            while wl:
                x = wl.pop()
                if x in blocks:
                    continue
                blocks.add(x)
                wl.extend(pred[x])
        self._loops[key] = (body, loops)
        return loops

    # ---------------------------------------------------------------- constants
    def bytes_at(self, mem, off, n):
        b = mem["b"]
        return bytes.fromhex(b[2 * off:2 * (off + n)].replace(".", "0"))

    def ptr_at(self, mem, off):
        for o, a in mem["p"]:
            if o == off:
                return a
        return None

    def alloc(self, a):
        return self.allocs[str(a)] if isinstance(self.allocs, dict) else self.allocs[a]

    def layout_offs(self, t, variant=0):
        l = self.T[t]["l"]
        v = l[2]
        if v and v[0] == "multi":
            return v[5][variant] if len(v) > 5 else l[1][1]
        if l[1] == "prim":
            return [0]
        return l[1][1]

    def size(self, t):
        return self.T[t]["l"][0]

    def decode(self, t, mem, off=0):
        """A constant of type t at mem[off] as a value"""
        k = self.kind(t)
        if k[0] == "int":
            n = k[2] // 8
            return K(int.from_bytes(self.bytes_at(mem, off, n), "little", signed=bool(k[1])))
        if k[0] == "char":
            return K(int.from_bytes(self.bytes_at(mem, off, 4), "little"))
        if k[0] == "bool":
            return bv(self.bytes_at(mem, off, 1) != b"\0")
        if k[0] == "float":
            return Fv(("fc", int.from_bytes(self.bytes_at(mem, off, k[1] // 8), "little"), k[1]))
        if k[0] in ("ref", "ptr"):
            return self.decode_ref(k[1], mem, off)
        if k[0] == "tuple":
            offs = self.layout_offs(t)
            return Agg("()", 0, tuple(self.decode(ft, mem, off + offs[i]) for i, ft in enumerate(k[1])))
        if k[0] == "array":
            return VecV(("const", ConstMem(self, mem, off, k[1], k[2])), K(k[2]), k[1])
        if k[0] == "adt":
            l = self.T[t]["l"]
            v = self.variant_of(t, mem, off)
            if v is None:
                return Sym(("const?", k[1]), t)
            offs = self.layout_offs(t, v)
            return Agg(k[1], v, tuple(self.decode(ft, mem, off + offs[i]) for i, ft in enumerate(k[3][v])))
        if k[0] == "fndef" or k[0] == "closure":
            return FnV(t)
        if k[0] == "pat":
            return self.decode(k[1], mem, off)
        return Sym(("const", self.tname(t)), t)

    def decode_ref(self, pt, mem, off):
        pk = self.kind(pt)
        a = self.ptr_at(mem, off)
        if pk[0] in ("str", "slice"):
            base = int.from_bytes(self.bytes_at(mem, off, 8), "little")
            n = int.from_bytes(self.bytes_at(mem, off + 8, 8), "little")
            if pk[0] == "str":
                if a is None:
                    return StrV(("c", b""))
                tgt = self.alloc(a)
                m = tgt.get("mem") or tgt
                if "static" in tgt:
                    m = self.statics[tgt["static"]]["a"]
                return StrV(("c", self.bytes_at(m, base, n)))
            if a is None or n == 0:
                return Slice(Ptr(("lit", ()), ()), ZERO, ZERO)
            tgt = self.alloc(a)
            m = self.statics[tgt["static"]]["a"] if "static" in tgt else tgt["mem"]
            v = VecV(("const", ConstMem(self, m, base, pk[1], n)), K(n), pk[1])
            return Slice(Ptr(("const", v), ()), ZERO, K(n))
        if a is None:
            return Ptr(("dangling", pt), ())
        tgt = self.alloc(a)
        if "static" in tgt:
            return Ptr(("static", tgt["static"]), ())
        if "mem" in tgt:
            base = int.from_bytes(self.bytes_at(mem, off, 8), "little")
            return Ptr(("const", self.decode(pt, tgt["mem"], base)), ())
        return Sym(("constptr", self.tname(pt)), pt)

    def variant_of(self, t, mem, off):
        l = self.T[t]["l"]
        v = l[2]
        if v is None:
            return None
        if v[0] == "single":
            return v[1]
        # ["multi", tag, tagsize, enc, tag_field, offsets]
        tagoff = l[1][1][v[4]] if l[1] != "prim" else 0
        n = v[2]
        a = self.ptr_at(mem, off + tagoff)
        enc = v[3]
        tag = int.from_bytes(self.bytes_at(mem, off + tagoff, n), "little")
        if enc[0] == "direct":
            for i in range(len(self.kind(t)[3])):
                if self.discr(t, i) % (1 << (8 * n)) == tag:
                    return i
            return None
        if a is not None:
            return enc[1]
        untagged, start, end, nstart = enc[1], enc[2], enc[3], enc[4]
        rel = (tag - nstart) % (1 << (8 * n))
        if rel <= end - start:
            return start + rel
        return untagged


class ConstMem:
    """lazily decoded constant array; identity by content location"""

    def __init__(self, prog, mem, off, ety, n):
        self.p, self.mem, self.off, self.ety, self.n = prog, mem, off, ety, n
        self.key = (id(mem), off, ety, n)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, ConstMem) and self.key == o.key

    def get(self, i):
        return self.p.decode(self.ety, self.mem, self.off + i * self.p.size(self.ety))

    def raw(self):
        return self.p.bytes_at(self.mem, self.off, self.n * self.p.size(self.ety))

    def __repr__(self):
        return "const[%d]" % self.n


def strip(d):
    """generic definition path without generic parameters and with `<T as Trait>::f` kept readable"""
    out = []
    depth = 0
    i = 0
    # remove `::<...>` groups and <...> following identifiers
    while i < len(d):
        ch = d[i]
        if ch == "<" and (depth or (i > 0 and (d[i - 1].isalnum() or d[i - 1] in "_:"))):
            if depth == 0 and out[-2:] == [":", ":"]:
                out = out[:-2]
            depth += 1
        elif ch == ">" and depth and d[i - 1] != "-":
            depth -= 1
        elif not depth:
            out.append(ch)
        i += 1
    return "".join(out)
