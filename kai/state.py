"""Abstract state: cells, buffers, relational constraints, effects."""
from typing import NamedTuple
from .poly import *
from . import poly as _p
from .val import *


class Buf(NamedTuple):
    ety: int
    root: str            # 'arg:x', 'alloc', 'hist:..', 'const', 'uninit'
    base: tuple          # ('leaf', name) | ('fill', value)
    taint: frozenset     # labels of the base content
    ver: object
    log: tuple = ()
    cover: tuple = ()    # ranges [lo,hi) certainly overwritten since entry
    ctaint: frozenset = EMPTY
    length: object = None  # Poly or None, informative


LOGMAX = 48


class State:
    __slots__ = ("cells", "bufs", "cons", "nes", "pow2", "npow2", "opq", "eff", "maps", "dead", "evs", "note")

    def __init__(self):
        self.cells, self.bufs = {}, {}
        self.cons = frozenset()
        self.nes = frozenset()
        self.pow2 = frozenset()
        self.npow2 = frozenset()
        self.opq = frozenset()
        self.eff = frozenset()
        self.maps = ()
        self.dead = False
        self.evs = ()
        self.note = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.cells, s.bufs = dict(self.cells), dict(self.bufs)
        s.cons, s.nes, s.pow2, s.npow2 = self.cons, self.nes, self.pow2, self.npow2
        s.opq, s.eff, s.maps, s.dead, s.evs = self.opq, self.eff, self.maps, self.dead, self.evs
        s.note = self.note
        return s

    # ---- numeric queries
    def infeasible(self, *goal):
        return infeasible_cached(self.cons, tuple(goal), True)

    def ent_ge(self, p):
        if p.is_const():
            return p.const >= 0
        if p in self.cons:
            return True
        if self.infeasible(-p - 1):
            return True
        # use relevant disequalities
        for q in self.nes:
            if q.syms() & p.syms():
                if self.infeasible(-p - 1, q - 1) and self.infeasible(-p - 1, -q - 1):
                    return True
        return False

    def ent_eq(self, p):
        if not p.t:
            return True
        if p.is_const():
            return p.const == 0
        return self.ent_ge(p) and self.ent_ge(-p)

    def ent_ne(self, p):
        if p.is_const():
            return p.const != 0
        if p in self.nes or -p in self.nes:
            return True
        return self.infeasible(p, -p)

    def add_ge(self, p):
        """returns False when the state becomes infeasible"""
        if p.is_const():
            return p.const >= 0
        if p in self.cons:
            return True
        if self.infeasible(p):
            return False
        self.cons = self.cons | {p}
        return self._tighten(p)

    def _tighten(self, p):
        sy = p.syms()
        for q in list(self.nes):
            if q.syms() & sy:
                if self.infeasible(q, -q):
                    self.nes = self.nes - {q}
                    continue
                if self.infeasible(-q - 1):
                    self.nes = self.nes - {q}
                    if not self.add_ge(q - 1):
                        return False
                elif self.infeasible(q - 1):
                    self.nes = self.nes - {q}
                    if not self.add_ge(-q - 1):
                        return False
        for q in list(self.pow2):
            if q.syms() & sy and not self._pow2_ok(q):
                return False
        return True

    def _pow2_ok(self, q):
        """q is a power of two: refute when bounded above by a small constant and no power fits"""
        if q.is_const():
            return q.const > 0 and q.const & (q.const - 1) == 0
        if not self.infeasible(q - 65):
            return True
        for b in (1, 2, 4, 8, 16, 32, 64):
            if self.infeasible(q - b - 1):  # q <= b
                k = 1
                while k <= b:
                    if not self.infeasible(q - k, -q + k) and not any(
                            (q - r).is_const() and (q - r).const + k == 0 for r in ()):
                        # k possible unless excluded by a disequality
                        ex = False
                        for r in self.nes:
                            d = r - q
                            if d.is_const() and d.const == -k:
                                ex = True
                            d = r + q
                            if d.is_const() and d.const == k:
                                ex = True
                        if not ex:
                            return True
                    k *= 2
                return False
        return True

    def add_eq(self, p):
        if p.is_const():
            return p.const == 0
        if not self.add_ge(p):
            return False
        if not self.add_ge(-p):
            return False
        for q in self.npow2:
            if q.syms() & p.syms() and self._is_pow2(q):
                return False
        return True

    def add_ne(self, p):
        if p.is_const():
            return p.const != 0
        if self.infeasible(p, -p):
            return True
        ge, le = not self.infeasible(-p - 1), not self.infeasible(p - 1)
        # ge False: p<=-1 infeasible => p>=0
        if not ge:
            if not self.add_ge(p - 1):
                return False
        elif not le:
            if not self.add_ge(-p - 1):
                return False
        else:
            self.nes = self.nes | {p}
            if self.infeasible(p - 1) and self.infeasible(-p - 1):
                return False
        for q in self.pow2:
            if q.syms() & p.syms() and not self._pow2_ok(q):
                return False
        return True

    def _is_pow2(self, q):
        if q.is_const():
            return q.const > 0 and q.const & (q.const - 1) == 0
        if q in self.pow2:
            return True
        for b in (1, 2, 4, 8, 16):
            if self.infeasible(q - b - 1) and self.infeasible(-q + b - 1):
                return True
        if len(q.t) == 1:
            m, c = q.t[0]
            if c & (c - 1) == 0 and c > 0 and all(S(x) in self.pow2 for x in m):
                return True
        for r in self.pow2:
            if self.ent_eq(q - r):
                return True
        return False

    def add_pow2(self, p):
        if p.is_const():
            return p.const > 0 and p.const & (p.const - 1) == 0
        if p in self.npow2:
            return False
        if not self.add_ge(p - 1):
            return False
        self.pow2 = self.pow2 | {p}
        return self._pow2_ok(p)

    def add_npow2(self, p):
        if p.is_const():
            return not (p.const > 0 and p.const & (p.const - 1) == 0)
        if self._is_pow2(p):
            return False
        self.npow2 = self.npow2 | {p}
        # 0 or >= 3
        if self.ent_ge(p - 1):
            return self.add_ge(p - 3)
        return self.add_ne(p - 1) and self.add_ne(p - 2) and (p not in self.pow2)


def assume(st, c):
    """list of states refining st by condition c (may share st)"""
    k = c[0]
    if k == "c":
        return [st] if c[1] else []
    if k == "and":
        out = []
        for s in assume(st, c[1]):
            out += assume(s, c[2])
        return out
    if k == "or":
        a = assume(st, c[1])
        b = []
        for s in assume(st, bnot(c[1])):
            b += assume(s, c[2])
        return a + b
    s = st.copy()
    if k == "ge":
        good = s.add_ge(c[1])
    elif k == "eq":
        good = s.add_eq(c[1])
    elif k == "ne":
        good = s.add_ne(c[1])
    elif k == "pow2":
        good = s.add_pow2(c[1])
    elif k == "npow2":
        good = s.add_npow2(c[1])
    elif k in ("opq", "nopq"):
        if bnot(c) in s.opq:
            return []
        s.opq = s.opq | {c}
        good = True
    else:
        raise AssertionError(k)
    return [s] if good else []


def exact(st):
    """no branch on this path was decided by something the analysis does not model"""
    if "lossy" in st.note:
        return False
    for c in st.opq:
        n = c[1]
        if isinstance(n, str) and not n.startswith(("cpu:", "free:")):
            return False
        if isinstance(n, tuple) and n[0] == "fcmp" and not c[2]:
            return False
    return True


def entails(st, c):
    k = c[0]
    if k == "c":
        return c[1]
    if k == "ge":
        return st.ent_ge(c[1])
    if k == "eq":
        return st.ent_eq(c[1])
    if k == "ne":
        return st.ent_ne(c[1])
    if k == "and":
        return entails(st, c[1]) and entails(st, c[2])
    if k == "or":
        if entails(st, c[1]) or entails(st, c[2]):
            return True
        return not assume(st, bnot(c))
    if k == "pow2":
        return st._is_pow2(c[1])
    if k == "npow2":
        return c[1] in st.npow2 or not assume(st, ("pow2", c[1]))
    if k in ("opq", "nopq"):
        return c in st.opq
    return False
