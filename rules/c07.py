"""Exclusive access to interior-mutable planners.  Owner types are the structures of this crate that hold an UnsafeCell or Cell.
A flow analysis over MIR labels every reference with the object it points into (parameter, local, integer, inside-the-cell-of-...),
with summaries for what each function returns and which parameters' cells it opens (closures included):
 - a call that opens the cell of an object is a violation while a reference into the same cell is still live or is handed to that
   call (liveness per statement);
 - a safe function callable from outside must not return a reference into the cell of something it only borrowed shared;
 - hand-written Send/Sync must not let an owner be reached from two threads, no closure given to a thread or worker pool may capture
   a shared reference or pointer to an owner, no global may hold one, and no owner may be rebuilt from an integer."""
import re
from kai.mir import Prog
from .graph import Graph, short
from .absint import configs

ASSUMPTIONS = ("two shared parameters of owner type may be the same object; a value created in the function is its own object",
               "trait-generic transforms supplied by the caller guard their own state",
               "the borrow checker handles everything that goes through ordinary references")

CELL = re.compile(r"^core::cell::(UnsafeCell|SyncUnsafeCell|Cell|RefCell|once::OnceCell)<")
OPEN = re.compile(r"(cell::(Sync)?UnsafeCell::<T>::(get|raw_get|as_mut_unchecked|as_ref_unchecked)|cell::Cell::<T>::as_ptr|cell::RefCell::<T>::as_ptr)$")
LOCKS = re.compile(r"(^|::)(Mutex|ReentrantLock|ThreadLocal|LocalKey)$")
SPAWN = re.compile(r"^(rayon|rayon_core|std::thread)::")
REFISH = re.compile(r"[&*']|NonNull|Pin<|dyn ")


class A:
    def __init__(self, prog):
        self.prog = prog
        self.g = Graph(prog)
        self.tys = prog.tys
        self.owner = set()
        for i, t in enumerate(self.tys):
            if t["k"] == "adt" and t["path"].startswith("kofft::"):
                for v in t.get("variants", ()):
                    if any(CELL.match(self.tys[f[1]]["s"]) for f in v["fields"]):
                        self.owner.add(i)
        self._ro = {}
        self.ret = {}      # key -> labels of the returned reference, over its parameters
        self.opens = {}    # key -> set of bases whose cell it opens
        self.lab = {}

    # types --------------------------------------------------------------------------------------------------------------------
    def reach_owner(self, t, shared=False, seen=None):
        """(by value or unique, through a shared reference or pointer) reach of an owner inside type t"""
        key = (t, shared)
        if key in self._ro:
            return self._ro[key]
        seen = seen or set()
        if key in seen:
            return set()
        seen.add(key)
        T = self.tys[t]
        out = set()
        k = T["k"]
        if t in self.owner:
            out.add("shared" if shared else "own")
        if k in ("ref", "ptr"):
            out |= self.reach_owner(T["e"], shared or k == "ptr" or not T["mut"], seen)
        elif k == "adt":
            n = T["path"]
            if not LOCKS.search(n):
                sh = shared or bool(re.search(r"::(Arc|Rc|NonNull)$", n))
                for v in T.get("variants", ()):
                    for f in v["fields"]:
                        out |= self.reach_owner(f[1], sh, seen)
                if not n.startswith("kofft::"):
                    for a in T.get("args", ()):
                        if a[0] == "t":
                            out |= self.reach_owner(a[1], sh, seen)
        elif k in ("tuple", "closure"):
            for f in T.get("f", ()):
                out |= self.reach_owner(f, shared, seen)
        elif k in ("slice", "array"):
            if isinstance(T.get("e"), int):
                out |= self.reach_owner(T["e"], shared, seen)
        if len(seen) == 1:
            self._ro[key] = out
        return out

    def refish(self, t):
        T = self.tys[t]
        if T["k"] == "closure":
            return any(self.refish(f) for f in T.get("f", ()))
        if T["k"] in ("fndef", "fnptr"):
            return False
        if T["k"] in ("ref", "ptr"):
            return True
        return bool(REFISH.search(T["s"]))

    def pty(self, fn, p):
        """(type of place, does the path pass through a reference)"""
        t = fn.locals[p[0]][0]
        d = False
        for e in p[1]:
            if e[0] == "deref":
                d = True
                T = self.tys[t] if t is not None else {}
                t = T.get("e")
            elif e[0] == "field":
                t = e[2] if len(e) > 2 else None
            elif e[0] in ("index", "constidx", "constindex", "const_index"):
                t = self.tys[t].get("e") if t is not None else None
            elif e[0] in ("downcast", "variant"):
                pass
            else:
                t = None
            if not isinstance(t, int):
                t = None
        return t, d

    # labels -------------------------------------------------------------------------------------------------------------------
    def closures_in(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen:
            return
        seen.add(t)
        T = self.tys[t]
        if T["k"] == "closure":
            if T.get("inst") in self.prog.fns:
                yield T["inst"]
            for f in T.get("f", ()):
                yield from self.closures_in(f, seen)
        elif T["k"] == "fndef":
            if T.get("inst") in self.prog.fns:
                yield T["inst"]
        elif T["k"] in ("ref", "ptr"):
            yield from self.closures_in(T["e"], seen)
        elif T["k"] == "tuple":
            for f in T.get("f", ()):
                yield from self.closures_in(f, seen)
        elif T["k"] == "adt":
            for a in T.get("args", ()):
                if a[0] == "t":
                    yield from self.closures_in(a[1], seen)

    def targets(self, fn, c):
        """local functions a call may run: [(key, how)], how = 'direct' (argument by argument) or 'closure' (environment first)"""
        out = []
        if c.inst in self.prog.fns:
            f = self.prog.fns[c.inst]
            out.append((c.inst, "closure" if f.d.get("closure") else "direct"))
            return out
        for a in c.args:
            t = a[1]["ty"] if a[0] == "const" else self.pty(fn, a[1])[0]
            if t is None:
                continue
            for k in self.closures_in(t):
                out.append((k, "closure"))
        return out

    def arg_labels(self, L, a):
        return L.get(a[1][0], frozenset()) if a[0] != "const" else frozenset()

    def subst(self, labels, args, how):
        """caller's labels for a callee's; args: list of label sets"""
        out = set()
        al = frozenset().union(*args) if args else frozenset()

        def base(b):
            if b[0] == "p":
                if how == "direct":
                    return args[b[1] - 1] if b[1] - 1 < len(args) else frozenset()
                return al
            if b[0] == "v":
                return frozenset(("v", x) for x in base(b[1]) if x[0] != "v")
            if b[0] == "i":
                return frozenset([b])
            return frozenset()
        for b in labels:
            out |= base(b)
        return out

    def analyse(self, fn):
        """labels of every local, flow-insensitively; returns True when the function's summary grew"""
        L = self.lab.setdefault(fn.key, {})
        if not L:
            for i in range(1, fn.argc + 1):
                if self.refish(fn.locals[i][0]):
                    L[i] = frozenset([("p", i)])
        opens = self.opens.setdefault(fn.key, set())
        ch = True

        def add(d, ls):
            nonlocal ch
            if ls:
                o = L.get(d, frozenset())
                if not ls <= o:
                    L[d] = o | ls
                    ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                if b["c"]:
                    continue
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    d, r = s[1], s[2]
                    ls = set()
                    k = r[0]
                    ops = []
                    if k in ("ref", "rawptr"):
                        p = r[2]
                        t, der = self.pty(fn, p)
                        ls |= L.get(p[0], frozenset())
                        if not der:
                            lt = fn.locals[p[0]][0]
                            if self.reach_owner(lt) and not self.refish(lt):
                                ls.add(("l", p[0]))
                    elif k == "cast":
                        ops = [r[2]]
                        if "Provenance" in r[1] and "With" in r[1] or r[1] == "Transmute":
                            src = fn.locals[r[2][1][0]][0] if r[2][0] != "const" else r[2][1].get("ty")
                            if isinstance(src, int) and self.tys[src]["s"] in ("usize", "isize", "u64", "i64") \
                                    and "shared" in self.reach_owner(fn.locals[d[0]][0], True):
                                ls.add(("i", s[3]))
                    elif k in ("use", "repeat"):
                        ops = [r[1]]
                    elif k == "agg":
                        ops = r[2]
                    for o in ops:
                        if o[0] == "const":
                            continue
                        ls |= L.get(o[1][0], frozenset())
                    t, _ = self.pty(fn, d)
                    if ls and (t is None or self.refish(t)):
                        add(d[0], frozenset(ls))
                t = b["t"]
                if t[0] != "call":
                    continue
            for c in self.g.calls(fn):
                al = [self.arg_labels(L, a) for a in c.args]
                dst = c.term[3]
                n = c.callee or ""
                dt, _ = self.pty(fn, dst)
                rf = dt is None or self.refish(dt)
                for x in self.opened(fn, c, al):
                    if x[0] in ("p", "i") and x not in opens:
                        opens.add(x)
                        ch = True
                if OPEN.search(n):
                    add(dst[0], frozenset(("v", x) for x in al[0] if x[0] != "v"))
                elif c.inst in self.prog.fns:
                    if rf:
                        how = "closure" if self.prog.fns[c.inst].d.get("closure") else "direct"
                        add(dst[0], frozenset(self.subst(self.ret.get(c.inst, ()), al, how)))
                elif rf:
                    u = set().union(*al) if al else set()
                    for k, how in self.targets(fn, c):
                        u |= self.subst(self.ret.get(k, ()), al, how)
                    add(dst[0], frozenset(u))
        r = frozenset(x for x in L.get(0, ()) if x[0] != "l" and not (x[0] == "v" and x[1][0] == "l"))
        return r, frozenset(opens)

    def opened(self, fn, c, al):
        out = set()
        if OPEN.search(c.callee or ""):
            out |= {x for x in (al[0] if al else ()) if x[0] != "v"}
            return out
        for k, how in self.targets(fn, c):
            out |= {x for x in self.subst(self.opens.get(k, ()), al, how) if x[0] != "v"}
        return out

    def solve(self, keys):
        self.prev = {}
        todo = True
        while todo:
            todo = False
            for k in keys:
                r, o = self.analyse(self.prog.fns[k])
                if self.prev.get(k) != (r, o):
                    self.prev[k] = (r, o)
                    self.ret[k] = r
                    todo = True

    # liveness -----------------------------------------------------------------------------------------------------------------
    def live_after_calls(self, fn):
        """block -> locals whose held reference is used after the block's terminator (call) returns"""
        def uses(p, S):
            l = p[0]
            t, d = self.pty(fn, p)
            if d or t is None or self.refish(t):
                S.add(l)
            for e in p[1]:
                if e[0] == "index":
                    S.add(e[1])

        def operand(o, S):
            if o[0] != "const":
                uses(o[1], S)

        def rvalue(r, S):
            k = r[0]
            if k in ("ref", "rawptr"):
                uses(r[2], S)
            elif k in ("discr", "len"):
                uses(r[1], S)
            else:
                for x in r[1:]:
                    if isinstance(x, list):
                        if x and x[0] in ("copy", "move") and len(x) == 2:
                            operand(x, S)
                        else:
                            for y in x:
                                if isinstance(y, list) and y and y[0] in ("copy", "move") and len(y) == 2:
                                    operand(y, S)

        def back(b, S, upto_call=False):
            S = set(S)
            blk = fn.blocks[b]
            t = blk["t"]
            if t[0] == "call":
                if not t[3][1]:
                    S.discard(t[3][0])
                else:
                    uses(t[3], S)
                operand(t[1], S)
                for a in t[2]:
                    operand(a, S)
            elif t[0] in ("switch", "assert"):
                operand(t[1], S)
            elif t[0] == "drop":
                p = t[1]
                ty, _ = self.pty(fn, p)
                if ty is not None and self.refish(ty) and self.tys[ty]["k"] not in ("ref", "ptr"):
                    S.add(p[0])
            elif t[0] == "return":
                S.add(0)
            for s in reversed(blk["s"]):
                if s[0] == "=":
                    d = s[1]
                    if not d[1]:
                        if d[0] not in S and (s[2][0] in ("ref", "rawptr") or self.refish(fn.locals[d[0]][0])):
                            # a reference nobody uses keeps nothing alive
                            continue
                        S.discard(d[0])
                    elif any(e[0] == "deref" for e in d[1]):
                        S.add(d[0])
                    rvalue(s[2], S)
                elif s[0] in ("dead", "live"):
                    S.discard(s[1])
            return S
        nb = len(fn.blocks)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                if fn.blocks[b]["c"]:
                    continue
                S = set()
                for s in fn.succs(b):
                    S |= live[s]
                N = back(b, S)
                if N != live[b]:
                    live[b] = N
                    ch = True
        return live


def alias(fn, an, x, y):
    if x == y:
        return True
    if x[0] == "i" or y[0] == "i":
        return True
    if x[0] == "p" and y[0] == "p":
        return "shared" in an.reach_owner(fn.locals[x[1]][0]) and "shared" in an.reach_owner(fn.locals[y[1]][0])
    return False


def run(w, rep, tier):
    cov = {"functions": 0, "opening_calls": 0, "views": 0, "impls": 0, "spawn": 0, "statics": 0, "returned": 0, "owners": set()}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        an = A(prog)
        cov["owners"] |= {prog.tys[i]["s"] for i in an.owner}
        bad = set(prog.raw.get("unsat_roots", ()))
        # functions that can exist in a program that type-checks
        ok = set()
        for k, f in prog.fns.items():
            if k in bad or f.d.get("closure"):
                continue
            if f.d.get("exported") or re.search(r" as ", k):
                ok |= set(an.g.reach(k, lambda z: z in bad))
        keys = sorted(ok)
        an.solve(keys)
        for k in keys:
            fn = prog.fns[k]
            cov["functions"] += 1
            L = an.lab[k]
            views = {l: {x for x in ls if x[0] == "v"} for l, ls in L.items()}
            views = {l: v for l, v in views.items() if v}
            cov["views"] += len(views)
            r = an.ret.get(k, ())
            if fn.d.get("exported") and not fn.d.get("unsafe") and not fn.d.get("closure"):
                cov["returned"] += 1
                for x in r:
                    if x[0] == "v" and x[1][0] == "p" and "shared" in an.reach_owner(fn.locals[x[1][1]][0]):
                        rep.viol(fn.path, fn.file, fn.line, "escaping-view", f"{short(k)} hands its caller a reference into the interior-mutable state of a shared argument", config=cfg)
            live = None
            for c in an.g.calls(fn):
                al = [an.arg_labels(L, a) for a in c.args]
                if SPAWN.search(c.callee or ""):
                    cov["spawn"] += 1
                    spawned(an, rep, cfg, fn, c)
                op = an.opened(fn, c, al)
                if not op:
                    continue
                cov["opening_calls"] += 1
                for x in op:
                    if x[0] == "i":
                        rep.viol(fn.path, fn.file, c.line, "integer-owner", f"{short(k)} uses an instance rebuilt from an integer address", config=cfg)
                if live is None:
                    live = an.live_after_calls(fn)
                after = set()
                if c.term[4] is not None:
                    after = live[c.term[4]] - ({c.term[3][0]} if not c.term[3][1] else set())
                used = {a[1][0] for a in c.args if a[0] != "const"} if not OPEN.search(c.callee or "") else set()
                for l in sorted(after | used):
                    for v in views.get(l, ()):
                        if any(alias(fn, an, v[1], x) for x in op):
                            nm = fn.locals[l][1] or "a temporary"
                            how = "is passed to" if l in used else "is still used after"
                            rep.viol(fn.path, fn.file, c.line, "two-views", f"in {short(k)} a reference into the planner ({nm}) {how} the call of "
                                     f"{short(c.inst or c.callee or '?')}, which opens the same planner again", config=cfg)
                            break
        # hand-written thread-safety claims
        for im in prog.raw["impls"]:
            tr = im["trait"]
            if im["safety"] != "Unsafe" or im["polarity"] != "Positive" or not re.search(r"marker::(Sync|Send)$", tr):
                continue
            cov["impls"] += 1
            head = "kofft::" + re.sub(r"<.*", "", im["self"])
            used = set()
            for k in keys:
                used |= {l[0] for l in prog.fns[k].locals}
            for i, t in enumerate(prog.tys):
                if t["k"] == "adt" and t["path"] == head and (i in used or i in an.owner):
                    r = an.reach_owner(i)
                    if tr.endswith("Sync") and r or "shared" in r:
                        rep.viol(im["self"], im["span"][0], im["span"][1], "thread-claim",
                                 f"unsafe impl {tr.split('::')[-1]} for {im['self']} lets {t['s']} reach an interior-mutable planner from several threads", config=cfg)
                        break
        for name, ty in prog.raw["statics"]:
            cov["statics"] += 1
            if an.reach_owner(ty):
                rep.viol(name, "src", 0, "global-owner", f"the global {name} holds an interior-mutable planner", config=cfg)
    rep.cov.update(functions_analysed=cov["functions"], planner_opening_call_sites=cov["opening_calls"], locals_holding_views=cov["views"],
                   exported_returns_checked=cov["returned"], thread_claims=cov["impls"], pool_calls=cov["spawn"], globals=cov["statics"],
                   owner_types=sorted(cov["owners"]))


def spawned(an, rep, cfg, fn, c):
    for a in c.args:
        t = a[1]["ty"] if a[0] == "const" else an.pty(fn, a[1])[0]
        if t is None:
            continue
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            T = an.tys[x]
            if T["k"] == "closure":
                for f in T.get("f", ()):
                    if "shared" in an.reach_owner(f):
                        rep.viol(fn.path, fn.file, c.line, "worker-capture", f"a parallel worker started in {short(fn.key)} captures {an.tys[f]['s']}, "
                                 "which reaches an interior-mutable planner", config=cfg)
                todo += T.get("f", ())
            elif T["k"] == "tuple":
                todo += T.get("f", ())
            elif T["k"] == "adt":
                todo += [y[1] for y in T.get("args", ()) if y[0] == "t"]
