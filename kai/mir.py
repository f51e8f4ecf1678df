"""Loads the driver's JSON and offers typed access plus CFG facts."""
import json


class Fn:
    __slots__ = ("d", "key", "path", "blocks", "locals", "argc", "rpo", "rpo_ix", "loops", "succ",
                 "live_in", "addr", "name", "file", "line", "prog", "loop_of")

    def __init__(self, prog, d):
        self.prog = prog
        self.d = d
        self.key, self.path = d["key"], d["path"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.file, self.line = d["span"]
        self.rpo = None

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def prepare(self):
        if self.rpo is not None:
            return
        n = len(self.blocks)
        self.succ = [self.succs(b) for b in range(n)]
        # rpo
        seen, order, stack = set(), [], [(0, 0)]
        seen.add(0)
        while stack:
            b, i = stack.pop()
            if i < len(self.succ[b]):
                stack.append((b, i + 1))
                s = self.succ[b][i]
                if s not in seen:
                    seen.add(s)
                    stack.append((s, 0))
            else:
                order.append(b)
        self.rpo = order[::-1]
        ix = {b: i for i, b in enumerate(self.rpo)}
        self.rpo_ix = ix
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while ix[a] > ix[c]:
                            a = idom[a]
                        while ix[c] > ix[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        # blocks from which the loop cannot be left towards a return (panics) stay outside
        self.loops = loops
        # liveness
        self.addr = set()
        use, deff = {}, {}
        for b in self.rpo:
            u, d = set(), set()

            def usep(p):
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1]:
                    if e[0] == "index" and e[1] not in d:
                        u.add(e[1])

            def defp(p):
                if not p[1]:
                    d.add(p[0])
                else:
                    usep(p)

            def op(o):
                if o[0] in ("copy", "move"):
                    usep(o[1])

            for st in self.blocks[b]["s"]:
                if st[0] == "=":
                    r = st[2]
                    k = r[0]
                    if k in ("use", "repeat"):
                        op(r[1])
                    elif k in ("ref", "rawptr"):
                        usep(r[2])
                        if not any(e[0] == "deref" for e in r[2][1]):
                            self.addr.add(r[2][0])
                    elif k == "cast":
                        op(r[2])
                    elif k == "bin":
                        op(r[2]); op(r[3])
                    elif k == "un":
                        op(r[2])
                    elif k == "discr":
                        usep(r[1])
                    elif k == "agg":
                        for o in r[2]:
                            op(o)
                    defp(st[1])
                elif st[0] == "setdiscr":
                    usep(st[1])
            t = self.blocks[b]["t"]
            if t[0] == "switch":
                op(t[1])
            elif t[0] == "call":
                op(t[1])
                for o in t[2]:
                    op(o)
                if t[3][1]:
                    usep(t[3])
            elif t[0] == "assert":
                op(t[1])
                for o in t[3][1:]:
                    if isinstance(o, list):
                        op(o)
            elif t[0] == "drop":
                pass
            elif t[0] == "return":
                u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                t = self.blocks[b]["t"]
                if t[0] == "call" and not t[3][1]:
                    out = out - {t[3][0]}
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live_in = {b: live[b] | self.addr for b in self.rpo}


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.tys = d["tys"]
        self.fns = {}
        self.by_path = {}
        for f in d["fns"]:
            fn = Fn(self, f)
            self.fns[fn.key] = fn
            self.by_path.setdefault(fn.path, []).append(fn)
        self.crate = d["crate"]

    def ty(self, i):
        return self.tys[i]

    def tys_str(self, i):
        return self.tys[i]["s"]
