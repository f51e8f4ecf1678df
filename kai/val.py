"""Abstract values of the interpreter (immutable, hashable)."""
from typing import NamedTuple
from .poly import Poly, P


class BoolV(NamedTuple):
    c: tuple  # ('c',bool) ('ge',p) ('eq',p) ('ne',p) ('and',a,b) ('or',a,b) ('pow2',p) ('npow2',p) ('opq',id,taint)


TRUE, FALSE = BoolV(("c", True)), BoolV(("c", False))


def bnot(c):
    k = c[0]
    if k == "c":
        return ("c", not c[1])
    if k == "ge":
        return ("ge", -c[1] - 1)
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "and":
        return ("or", bnot(c[1]), bnot(c[2]))
    if k == "or":
        return ("and", bnot(c[1]), bnot(c[2]))
    if k == "pow2":
        return ("npow2", c[1])
    if k == "npow2":
        return ("pow2", c[1])
    if k == "opq":
        return ("nopq",) + c[1:]
    if k == "nopq":
        return ("opq",) + c[1:]
    raise AssertionError(k)


class FE:
    """float expression, hash-consed"""
    __slots__ = ("op", "args", "taint", "id", "bits")
    table = {}

    def __repr__(self):
        return fshow(self)


EMPTY = frozenset()


def fe(op, *args, bits=32, taint=EMPTY):
    key = (op, args, bits, taint)
    r = FE.table.get(key)
    if r is None:
        r = FE()
        r.op, r.args, r.bits = op, args, bits
        t = taint
        for a in args:
            if isinstance(a, FE):
                t = t | a.taint
        r.taint = t
        r.id = len(FE.table)
        FE.table[key] = r
    return r


def fshow(e, d=6):
    if not isinstance(e, FE):
        return str(e)
    if d == 0:
        return "…"
    if e.op == "const":
        return repr(e.args[0])
    if e.op in ("add", "sub", "mul", "div"):
        o = {"add": "+", "sub": "-", "mul": "*", "div": "/"}[e.op]
        return f"({fshow(e.args[0], d-1)}{o}{fshow(e.args[1], d-1)})"
    return f"{e.op}({', '.join(fshow(a, d-1) for a in e.args)})"


class Struct(NamedTuple):
    tag: object
    f: tuple


class Enum(NamedTuple):
    tag: str
    v: int
    f: tuple


class Ref(NamedTuple):
    base: tuple  # ('c', cell) | ('b', buf, idx Poly)
    path: tuple
    mut: bool = False


class Slc(NamedTuple):
    buf: int
    off: Poly
    len: Poly
    mut: bool = False


class RawP(NamedTuple):
    buf: int
    off: Poly


class Vec(NamedTuple):
    buf: int
    len: Poly


class Arr(NamedTuple):
    buf: int
    len: Poly


class BoxS(NamedTuple):  # Arc<[T]> / Box<[T]>
    s: Slc


class BoxC(NamedTuple):  # Box<T>/Arc<T>
    cell: object


class Iter(NamedTuple):
    seq: tuple
    pos: Poly
    end: Poly


class FnV(NamedTuple):
    key: str
    info: object


class MapV(NamedTuple):
    name: str
    kty: int
    vty: int
    ident: object = None   # 'Struct.field' holding the map


class Top(NamedTuple):
    ty: int
    name: str
    taint: frozenset
    kind: str = "fuzzy"


class Lanes(NamedTuple):  # SIMD register
    e: tuple


class StrV(NamedTuple):
    s: object  # python str or None
    taint: frozenset = EMPTY


UNIT = Struct("tuple", ())
UNINIT = Struct("uninit", ())


def tup(*xs):
    return Struct("tuple", tuple(xs))


OPT, RES = "core::option::Option", "core::result::Result"


def some(x):
    return Enum(OPT, 1, (x,))


NONE = Enum(OPT, 0, ())


def ok(x=UNIT):
    return Enum(RES, 0, (x,))


def err(x):
    return Enum(RES, 1, (x,))


def taint_of(v, st=None, depth=0):
    """labels of everything a value is computed from (not following references)"""
    if isinstance(v, FE):
        return v.taint
    if isinstance(v, (Struct, Enum)):
        t = EMPTY
        for x in v.f:
            t |= taint_of(x, st, depth + 1)
        return t
    if isinstance(v, Lanes):
        t = EMPTY
        for x in v.e:
            t |= taint_of(x)
        return t
    if isinstance(v, (Top, StrV)):
        return v.taint
    if isinstance(v, BoolV):
        return cond_taint(v.c)
    if isinstance(v, (Vec, Arr)) and st is not None:
        b = st.bufs.get(v.buf)
        return b.taint if b else EMPTY
    return EMPTY


def cond_taint(c):
    if c[0] in ("opq", "nopq"):
        return c[2]
    if c[0] in ("and", "or"):
        return cond_taint(c[1]) | cond_taint(c[2])
    return EMPTY
