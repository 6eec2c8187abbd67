"""Canonical symbolic terms: linear integer forms over interned atoms, conditions, and value classes.

Everything is immutable and hashable so that two computations of the same quantity give equal objects.
"""
INF = float("inf")

ATOMS = []          # atom id -> key tuple
_AIDX = {}
RANGE = []          # default range


def atom_id(key, lo=-INF, hi=INF):
    i = _AIDX.get(key)
    if i is None:
        i = len(ATOMS)
        _AIDX[key] = i
        ATOMS.append(key)
        RANGE.append((lo, hi))
    return i


class Lin:
    """c + sum(k * atom)"""
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return o.__class__ is Lin and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for a, k in o.t:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, tuple((a, -k) for a, k in self.t))

    def __sub__(self, o):
        if not isinstance(o, Lin):
            return Lin(self.c - o, self.t)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return Lin(0)
        return Lin(self.c * k, tuple((a, q * k) for a, q in self.t))

    def atoms(self):
        return [a for a, _ in self.t]

    def __repr__(self):
        s = []
        for a, k in self.t:
            n = atom_str(a)
            s.append(n if k == 1 else "%d*%s" % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s)


def atom_str(a):
    return key_str(ATOMS[a])


def key_str(k):
    if isinstance(k, tuple):
        if k and isinstance(k[0], str):
            return "%s(%s)" % (k[0], ",".join(key_str(x) for x in k[1:]))
        return "(" + ",".join(key_str(x) for x in k) + ")"
    if isinstance(k, bytes):
        return repr(k.decode("utf8", "replace"))
    return repr(k) if not isinstance(k, str) else k


def K(n):
    return Lin(int(n))


ZERO = K(0)
ONE = K(1)


def atom(key, lo=-INF, hi=INF):
    return Lin(0, ((atom_id(key, lo, hi), 1),))


def single(l):
    """atom key if l is exactly one atom with coefficient one"""
    if l.c == 0 and len(l.t) == 1 and l.t[0][1] == 1:
        return ATOMS[l.t[0][0]]
    return None


# ------------------------------------------------------------------ conditions
# True | False | ("le0", Lin) | ("eq0", Lin) | ("op", key) | ("not", c) | ("and", a, b) | ("or", a, b)

def c_le0(l):
    if not l.t:
        return l.c <= 0
    return ("le0", _gcd_le(l))


def _gcd_le(l):
    from math import gcd
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        # g*X + c <= 0  <=>  X + ceil(c/g) <= 0
        return Lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.t))
    return l


def c_lt(a, b):
    return c_le0(a - b + 1)


def c_le(a, b):
    return c_le0(a - b)


def c_eq(a, b):
    l = a - b
    if not l.t:
        return l.c == 0
    if l.t[0][1] < 0:
        l = -l
    from math import gcd
    g = 0
    for _, k in l.t:
        g = gcd(g, abs(k))
    if g > 1:
        if l.c % g:
            return False
        l = Lin(l.c // g, tuple((a, k // g) for a, k in l.t))
    return ("eq0", l)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == "not":
        return c[1]
    if c[0] == "le0":
        return c_le0(-c[1] + 1)
    if c[0] == "and":
        return c_or(c_not(c[1]), c_not(c[2]))
    if c[0] == "or":
        return c_and(c_not(c[1]), c_not(c[2]))
    return ("not", c)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a == b:
        return a
    return ("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a == b:
        return a
    return ("or", a, b)


def cond_str(c):
    if c is True or c is False:
        return str(c)
    if c[0] == "le0":
        return "(%r <= 0)" % (c[1],)
    if c[0] == "eq0":
        return "(%r == 0)" % (c[1],)
    if c[0] == "not":
        return "!" + cond_str(c[1])
    if c[0] in ("and", "or"):
        return "(%s %s %s)" % (cond_str(c[1]), c[0], cond_str(c[2]))
    return key_str(c[1])


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


def _mk(name, fields):
    def __init__(self, *a):
        for f, x in zip(fields, a):
            object.__setattr__(self, f, x)
        self.h = None

    def key(self):
        return (name,) + tuple(getattr(self, f) for f in fields)

    def __hash__(self):
        if self.h is None:
            self.h = hash(key(self))
        return self.h

    def __eq__(self, o):
        return self is o or (o.__class__ is self.__class__ and hash(o) == hash(self) and key(o) == key(self))

    def __repr__(self):
        return "%s(%s)" % (name, ", ".join(vstr(getattr(self, f)) for f in fields))
    return type(name, (V,), dict(__slots__=tuple(fields) + ("h",), __init__=__init__, __hash__=__hash__, __eq__=__eq__,
                                 __ne__=lambda s, o: not s == o, __repr__=__repr__, key=key))


Bv = _mk("Bv", ("c",))                    # boolean with condition
Fv = _mk("Fv", ("t",))                    # float term (tuple)
Agg = _mk("Agg", ("name", "variant", "fields"))   # struct/enum/tuple/array/closure
Sym = _mk("Sym", ("k", "ty"))             # unknown enum/opaque value
Ptr = _mk("Ptr", ("cell", "path"))
Slice = _mk("Slice", ("base", "lo", "hi"))   # base: Ptr to a VecV-like cell
StrV = _mk("StrV", ("k",))                # string (owned or borrowed) as a value
VecV = _mk("VecV", ("k", "len", "ety"))
MapV = _mk("MapV", ("k",))
RdrV = _mk("RdrV", ("base", "pos", "tot", "la", "rf"))  # la: known lookahead Lin or None; rf: (rem at refill, consumed since) or None
BoxV = _mk("BoxV", ("v",))
FnV = _mk("FnV", ("ty",))
IterV = _mk("IterV", ("kind", "a"))      # library iterator; a: tuple of components
Undef = _mk("Undef", ())
UNDEF = Undef()
UNIT = Agg("()", 0, ())


def vstr(x):
    if isinstance(x, (tuple,)):
        return key_str(x)
    if isinstance(x, Lin):
        return repr(x)
    return repr(x)


TRUE = Bv(True)
FALSE = Bv(False)


def bv(c):
    return TRUE if c is True else FALSE if c is False else Bv(c)


def fconst(x):
    return Fv(("fc", float(x)))
