"""Termination of loops, depth of recursion and sizes of allocations, observed while the analyses run."""
from terms import *
import absint, cores, loops, panics
from panics import Unsure

LIST_MAX = 25_000
DEPTH_MAX = 1000


def worse(old, v):
    def rank(x):
        return 4 if isinstance(x, tuple) else 3 if x.startswith("unsure: argument") else 2 if x.startswith("unsure") else 1
    return old is None or rank(v) > rank(old)


class Observe:
    def __init__(self, roots, sizes=False):
        self.roots = roots
        self.sizes = sizes
        self.loops = {}         # site -> [measure kinds, ...]
        self.stuck = []         # (site, witness)
        self.recursion = []     # (engine, state, instance, args, hook kind)
        self.allocs = {}        # site -> "constant" | "length" | "unsure: ..." | witness
        self.params = {}        # (function, path of an argument) -> like allocs, for functions replaced by a specification
        self.eng = []

    def __enter__(self):
        self.old = (loops.finish, cores.recursion, absint.State.emit, absint.Engine.analyse)
        me = self

        def finish(eng, st, rec, res, nev):
            me.loop(eng, rec)
            return me.old[0](eng, st, rec, res, nev)

        def recursion(eng, stream, P):
            hook = me.old[1](eng, stream, P)

            def h(eng, st, inst, args):
                me.recursion.append((eng, st.copy(), inst, list(args)))
                return hook(eng, st, inst, args)
            return h

        def emit(st, *ev):
            if ev and ev[0] == "alloc":
                me.alloc(st, ev)
            return me.old[2](st, *ev)

        def analyse(eng, inst, args, st=None):
            me.eng.append(eng)
            try:
                return me.old[3](eng, inst, args, st)
            finally:
                me.eng.pop()
        loops.finish, cores.recursion, absint.State.emit, absint.Engine.analyse = finish, recursion, emit, analyse
        if self.sizes:
            absint.Engine.on_cut = staticmethod(self.cut)
        return self

    def __exit__(self, *a):
        loops.finish, cores.recursion, absint.State.emit, absint.Engine.analyse = self.old
        absint.Engine.on_cut = None

    # ------------------------------------------------------------ loops
    def loop(self, eng, rec):
        m = rec.term
        if m is None and walks_table(rec):
            m = ("hierarchy", "every iteration goes on to the parent of a class, and no class is its own ancestor")
        self.loops.setdefault(rec.site, set()).add(m[0] if m else None)
        if m is not None:
            return
        for x, _ in rec.iters:
            w = stuck(eng, rec, x, self.roots)
            if w is not None:
                self.stuck.append((rec.site, w))

    # ------------------------------------------------------------ allocations
    def alloc(self, st, ev):
        n, site = ev[1], ev[2]
        if not isinstance(n, Lin) or not self.eng:
            return
        r = size_of(self.eng[-1], st, n, self.roots)
        if worse(self.allocs.get(site), r):
            self.allocs[site] = r


    def cut(self, eng, st, inst, args):
        name = eng.P.insts[inst]["name"]
        if "::attributes::" in name:
            return
        for path, n in leaves(eng, st, args).items():
            k = (name, path)
            if isinstance(self.params.get(k), tuple):
                continue
            r = size_of(eng, st, n, self.roots)
            if worse(self.params.get(k), r):
                self.params[k] = r


def arg_path(n):
    """the argument a size is, as a path like those of leaves(), or None"""
    if len(n.t) != 1 or n.t[0][1] != 1 or not 0 <= n.c <= LIST_MAX:
        return None
    k = ATOMS[n.t[0][0]]
    if k[0] != "s":
        return None
    k, path = k[1], []
    while isinstance(k, tuple) and k:
        if k[0] == "a":
            return tuple([k[1]] + path[::-1])
        if k[0] == "f" and len(k) == 3:
            path.append(k[2])
        elif k[0] == "*":
            path.append("*")
        else:
            return None
        k = k[1]
    return None


def walks_table(rec):
    for loc, (i, h) in rec.heads.items():
        if isinstance(h, StrV) and rec.iters:
            ok = True
            for x, _ in rec.iters:
                v = loops.get(x.cells[loc[0]], loc[1:])
                k = v.k if isinstance(v, StrV) else None
                while isinstance(k, tuple) and k and k[0] == "s" and len(k) == 2:
                    k = k[1]
                if not (isinstance(k, tuple) and k and (k == ("anc", h.k) or k[0] == "phf" and "PARENT_CLASSES" in str(k[1]))):
                    ok = False
            if ok:
                return True
    return False


def heads_in(x, lid, out):
    """locations of the loop head a term or condition mentions"""
    if isinstance(x, Lin):
        for a in x.atoms():
            heads_in(ATOMS[a], lid, out)
    elif isinstance(x, tuple):
        if len(x) >= 3 and x[0] == "h" and x[1] == lid:
            out.add(x[2])
        elif len(x) == 2 and x[0] == "n" and x[1] == lid:
            out.add("n")
        else:
            for y in x:
                heads_in(y, lid, out)
    elif isinstance(x, frozenset):
        for y in x:
            heads_in(y, lid, out)
    elif isinstance(x, (V,)) and not isinstance(x, (int,)):
        try:
            heads_in(x.key(), lid, out)
        except Exception:
            pass


def stuck(eng, rec, x, roots):
    """a witness that the iteration x can be repeated for ever: nothing its own path depends on changes in it"""
    lid = rec.id
    changed = set()
    for loc, (i, h) in rec.heads.items():
        v = loops.get(x.cells[loc[0]], loc[1:])
        if isinstance(v, Lin) and isinstance(h, Lin):
            if x.norm(v - h) != ZERO:
                changed.add(loc)
        elif not (v is h or v == h or isinstance(v, V) and isinstance(h, V) and v.key() == h.key()):
            changed.add(loc)
    deps = set()
    conds = []
    for f in x.facts:
        d = set()
        heads_in(f, lid, d)
        if d:
            deps |= d
            conds.append(("le0", f))
    for c, t in x.conds.items():
        d = set()
        heads_in(panics._flat(c), lid, d)
        if d:
            deps |= d
            conds.append(c if t else c_not(c))
    for a in x.iv:
        d = set()
        heads_in(ATOMS[a], lid, d)
        if d and x.iv[a] != RANGE[a]:
            deps |= d
    for k in x.variants:
        d = set()
        heads_in(k, lid, d)
        deps |= d
    if "n" in deps or deps & changed:
        return None
    # anything opaque the iteration asked for could answer differently next time
    ops = [c for c in x.conds if c[0] == "op"]
    if any(not (isinstance(c[1], tuple) and c[1][0] in ("phfhas", "named")) for c in ops):
        return None
    # whether a table or the object list has a name is the same question with the same answer as long as the name stays, and a class
    # may or may not be in the object list
    conds = [c for c in conds if c not in ops and c_not(c) not in ops]
    want = True
    for c in conds:
        want = c if want is True else c_and(want, c)
    try:
        return panics.holds(eng, x, want, roots) if want is not True else {}
    except Unsure:
        return None


# ------------------------------------------------------------------ allocations
LENGTHS = ("len", "maplen", "totbits")


def size_of(eng, st, n, roots):
    n = st.norm(n)
    lo, hi = st.bounds(n)
    if hi <= LIST_MAX:
        return "constant"
    # at most the sum of the lengths of things that already exist
    pos = [(a, k) for a, k in n.t if k > 0]
    if all(ATOMS[a][0] in LENGTHS or ATOMS[a][0] == "n" for a, _ in pos) and sum(k for _, k in pos) <= 8 and n.c <= LIST_MAX:
        return "length"
    if len(n.t) == 1 and ATOMS[n.t[0][0]][0] == "pow2":
        return "length" if "len" in key_str(ATOMS[n.t[0][0]]) else "unsure: %s" % key_str(ATOMS[n.t[0][0]])[:100]
    for a, k in n.t:
        if k > 0 and (ATOMS[a][0] in LENGTHS):
            continue
        for f in st.facts:
            d = dict(f.t)
            if d.get(a, 0) > 0 and all(v > 0 and b == a or -8 * d[a] <= v < 0 and ATOMS[b][0] in LENGTHS for b, v in d.items()):
                break
        else:
            break
    else:
        return "length"
    p = arg_path(n)
    if p is not None and not roots(("a", p[0])) and len(st.frames) and st.frames[0].inst is not None:
        return "unsure: argument " + repr((eng.P.insts[st.frames[0].inst]["name"], p))
    try:
        return ("unbounded", panics.holds(eng, st, c_lt(K(4 * LIST_MAX), n), roots), str(n)[:200])
    except Unsure as e:
        return "unsure: %s (%s)" % (e, str(n)[:100])


# ------------------------------------------------------------------ recursion
def leaves(eng, st, args):
    """integers a call can see: {path: value}, the positions of the parser apart"""
    out = {}

    def go(v, path, deep, parser):
        if isinstance(v, Lin):
            out[path] = v
        elif isinstance(v, Agg) and isinstance(v.fields, tuple):
            p = parser or any(isinstance(f, (Slice, RdrV)) for f in v.fields)
            for i, f in enumerate(v.fields):
                if isinstance(f, Lin) and p and any(isinstance(g, (Slice, RdrV)) for g in v.fields):
                    out[path + ("parser", i)] = f
                else:
                    go(f, path + (i,), deep, p)
        elif isinstance(v, Ptr) and deep:
            try:
                go(eng.read(st, v), path + ("*",), deep - 1, parser)
            except Exception:
                pass
    for j, a in enumerate(args):
        go(a, (j,), 3, False)
    return out


def same_again(s, entry, now, odd):
    """the call is also made when the arguments already are what it passes on, with nothing else but the parser's position changing"""
    for p, v in now.items():
        if p in entry and p not in odd and "parser" not in p and s.norm(v - entry[p]) != ZERO:
            return False
    s = s.copy()
    for p in odd:
        v, e = s.norm(now[p]), s.norm(entry[p])
        if not v.is_const() or s.assume(c_eq(e, v), True) is False:
            return False
    return True


def check_recursion(P, inst):
    """[(verdict, message)] for the recursive calls of inst, analysed for any arguments"""
    eng, args, st, stream, start = cores.setup(P, inst)
    entry = leaves(eng, st, args)
    calls = []
    hook = cores.recursion(eng, stream, P)

    def h(eng, s, i, a):
        calls.append((s.copy(), i, list(a)))
        return hook(eng, s, i, a)
    eng.on_recursion = h
    out = eng.analyse(inst, args, st)
    res = []
    for s, i, a in calls:
        if i != inst:
            res.append(("undecided", "recursion into %s" % P.insts[i]["name"]))
            continue
        now = leaves(eng, s, a)
        good, odd, why = None, [], []
        for p, v in now.items():
            if p not in entry:
                continue
            d = s.norm(v - entry[p])
            lo, hi = s.bounds(s.norm(v))
            if not d.is_const():
                if s.prove_le0(-d + 1) and hi <= DEPTH_MAX:
                    good = "grows to %d" % hi
                elif "parser" not in p:
                    odd.append(p)
            elif d.c >= 1 and hi <= DEPTH_MAX:
                good = "grows to %d" % hi
            elif d.c <= -1 and lo >= 0 and "parser" not in p:
                good = "shrinks to %d" % lo
            elif "parser" in p and d.c != 0:
                pass
            elif d.c != 0:
                why.append("an argument changes by %d without a limit" % d.c)
        where = eng.where(s)
        if good:
            res.append(("ok", "%s: an argument %s" % (where, good)))
        elif odd and same_again(s, entry, now, odd):
            res.append(("bad", "%s: the call can be made with the same arguments again" % where))
        elif odd:
            res.append(("undecided", "%s: arguments change irregularly" % where))
        else:
            res.append(("bad", "%s: %s" % (where, "; ".join(why) or "no argument limits the depth")))
    giv = [str(x.info)[:200] for x in out if x.kind == "giveup"]
    return res, giv
