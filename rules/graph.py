"""Call graph and call-site queries over the dumped program."""
import re


def walk_consts(x):
    """every constant operand in a MIR fragment"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "const" and isinstance(x[1], dict):
            yield x[1]
        for y in x:
            yield from walk_consts(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from walk_consts(y)


class Call:
    __slots__ = ("fn", "block", "line", "callee", "inst", "local", "args", "term", "info")

    def __init__(self, fn, b, t):
        self.fn, self.block, self.term = fn, b, t
        self.line = t[6]
        f = t[1]
        self.info = f[1] if f[0] == "const" else {}
        self.callee = self.info.get("fn")
        self.inst = self.info.get("inst")
        self.local = self.info.get("local", False)
        self.args = t[2]


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self._calls = {}
        self._refs = {}

    def calls(self, fn):
        r = self._calls.get(fn.key)
        if r is None:
            r = []
            for i, b in enumerate(fn.blocks):
                if b["t"][0] == "call" and not b["c"]:
                    r.append(Call(fn, i, b["t"]))
            self._calls[fn.key] = r
        return r

    def closures(self, fn):
        out = []

        def rec(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "closure" and isinstance(x[2], str):
                    out.append(x[2])
                for y in x:
                    rec(y)
            elif isinstance(x, dict):
                for y in x.values():
                    rec(y)
        rec([[b["s"], b["t"]] for b in fn.blocks if not b["c"]])
        return [c for c in out if c in self.prog.fns]

    def refs(self, fn):
        """local functions called, referenced as values, or created as closures"""
        r = self._refs.get(fn.key)
        if r is None:
            s = set(self.closures(fn))
            for b in fn.blocks:
                if b["c"]:
                    continue
                for c in walk_consts([b["s"], b["t"]]):
                    k = c.get("inst")
                    if k in self.prog.fns:
                        s.add(k)
            r = self._refs[fn.key] = sorted(s)
        return r

    def reach(self, key, stop=lambda k: False):
        """keys reachable from key, with the first path found to each"""
        path = {key: (key,)}
        todo = [key]
        while todo:
            k = todo.pop(0)
            for y in self.refs(self.prog.fns[k]):
                if y not in path and not stop(y):
                    path[y] = path[k] + (y,)
                    todo.append(y)
        return path


def short(k):
    return k.split("|")[0].replace("kofft::", "", 1)
