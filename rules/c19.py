"""Precision flow of the double-precision instances.  Every function that runs for double-precision data (every f64 instance of the generic
code, the f64 implementations and the scalar helpers they call) is searched for single-precision values; a flow-insensitive, interprocedural
value analysis tells for each of them whether it is exact in single precision (a constant with few significant bits, a small integer, a power
of two), comes from the caller, or was rounded: a constant that needs all bits of a single, the result of single-precision arithmetic or of a
single-precision library function, a double that was narrowed, or an integer that can exceed 2^24.  A violation is a rounded value that is
widened to double.  Double constants are checked too: none may be a widened single, and none may be a cut-off decimal of pi or of a twiddle."""
import math
import re
import struct
from kai.mir import Prog
from .graph import Graph, short
from .absint import configs

ASSUMPTIONS = ("tables generated by the build script are not evaluated here",
               "numbers handed over by the caller as single precision (the argument of Float::from_f32 itself) are the caller's choice")

SKIP = re.compile(r"kofft::(media|visual)::|__test_|::tests?::")
F32DATA = re.compile(r"(<|\[|Complex<|, )f32\b|&(mut )?\[?f32|__m(128|256|512)\b")
SMALLINT = re.compile(r"^(u8|i8|u16|i16|bool|char)$")
SMALLCALL = re.compile(r"::(trailing_zeros|leading_zeros|count_ones|count_zeros|ilog2|ilog10|ilog|trailing_ones|leading_ones)$")
POW2CALL = re.compile(r"::(next_power_of_two|pow2)$")


def irrationals():
    out = {}
    for k in range(1, 32):
        for s, v in ((f"cos({k}*pi/32)", math.cos(k * math.pi / 32)), (f"pi*{k}/16", math.pi * k / 16), (f"pi/{k}", math.pi / k),
                     (f"sqrt({k})", math.sqrt(k)), (f"1/sqrt({k})", 1 / math.sqrt(k)), (f"sqrt({k})/2", math.sqrt(k) / 2)):
            if abs(v * 4096 - round(v * 4096)) > 1e-9:
                out[s] = v
    for k in (3, 5, 7, 9, 11, 12, 24):
        for j in range(1, k):
            for s, v in ((f"cos(2*pi*{j}/{k})", math.cos(2 * math.pi * j / k)), (f"sin(2*pi*{j}/{k})", math.sin(2 * math.pi * j / k))):
                if abs(v * 4096 - round(v * 4096)) > 1e-9:
                    out[s] = v
    out.update({"e": math.e, "ln 2": math.log(2), "ln 10": math.log(10)})
    return out


IRR = irrationals()


def f32val(bits):
    return struct.unpack("<f", int(bits).to_bytes(4, "little"))[0]


def f64val(bits):
    return struct.unpack("<d", int(bits).to_bytes(8, "little"))[0]


def short32(bits):
    """a single with at most 12 significant bits is meant exactly"""
    m = int(bits) & 0x7FFFFF
    return m & ((1 << 12) - 1) == 0 or f32val(bits) == int(f32val(bits)) and abs(f32val(bits)) < 1 << 24 if math.isfinite(f32val(bits)) else True


def const64(bits):
    """why a double constant is not a double-precision constant, or None"""
    v = f64val(bits)
    if not math.isfinite(v) or v == 0:
        return None
    m = int(bits) & ((1 << 52) - 1)
    if m & ((1 << 29) - 1) == 0:
        if m & ((1 << 40) - 1) != 0 and v != int(v):
            return f"{v!r} is a single-precision value"
        return None
    for s, x in IRR.items():
        e = abs(abs(v) - x) / x
        if 4e-15 < e < 2e-6:
            return f"{v!r} is {s} cut off after {max(1, int(-math.log10(e)))} digits"
    return None


class Flow:
    """tags of the single-precision and integer locals of the double-precision region"""

    def __init__(self, prog, g, region):
        self.prog, self.g, self.region = prog, g, region
        self.tags = {k: [set() for _ in prog.fns[k].locals] for k in region}
        self.sinks = {}
        self.changed = True
        self.depth = 0

    def ty(self, i):
        return self.prog.tys[i]["s"]

    def add(self, k, l, ts):
        t = self.tags[k][l]
        n = len(t)
        t |= ts
        if len(t) != n:
            self.changed = True

    def place(self, k, p):
        f = self.prog.fns[k]
        ts = set(self.tags[k][p[0]])
        if p[1] and p[1][-1][0] == "field" and self.ty(p[1][-1][2]) == "f32" and any(e[0] == "deref" for e in p[1]) and not f.d["closure"]:
            ts.add(("rounded", f.path, f.file, f.line, "single-precision data"))
        if p[1] and p[1][-1][0] == "field" and not f.d["closure"] and re.match(r"^(usize|u64)$", self.ty(p[1][-1][2])) and any(e[0] == "deref" for e in p[1]):
            ts.add(("big",))
        return ts

    def opnd(self, k, o):
        if o[0] in ("copy", "move"):
            return self.place(k, o[1])
        c = o[1]
        if "bits" in c:
            t = self.ty(c["ty"])
            if t == "f32":
                return {("exact",)} if short32(c["bits"]) else {("rounded", None, None, None, f"the single-precision constant {f32val(c['bits'])!r}")}
            if re.match(r"^(u|i)(\d+|size)$", t):
                n = int(c["bits"])
                return {("small",)} if abs(n) <= 1 << 24 else ({("pow2",)} if n & (n - 1) == 0 else {("big",)})
        return set()

    def otype(self, k, o):
        if o[0] == "const":
            return self.ty(o[1]["ty"])
        p = o[1]
        t = self.prog.fns[k].locals[p[0]][0]
        for e in p[1]:
            if e[0] == "field":
                t = e[2]
            elif e[0] == "deref":
                t = self.prog.tys[t].get("e", t)
            elif e[0] in ("index", "cidx", "constindex", "constidx"):
                t = self.prog.tys[t].get("e", t)
        return self.ty(t)

    def loc(self, ts, f, line):
        """constants get the place where they are used"""
        return {(t[0], f.path, f.file, line, t[4]) if t[0] == "rounded" and t[1] is None else t for t in ts}

    def sink(self, f, line, ts, ints=True):
        for t in ts:
            if t[0] == "rounded":
                t = (t[0], t[1] or f.path, t[2] or f.file, t[3] or line, t[4])
                self.sinks.setdefault(t[1:], set()).add((f.path, line))

    def run(self):
        while self.changed and self.depth < 60:
            self.changed = False
            self.depth += 1
            for k in self.region:
                self.fn(k)
        return self.depth < 60

    def rvalue(self, k, f, r, line):
        kd = r[0]
        if kd == "use":
            return self.loc(self.opnd(k, r[1]), f, line)
        if kd == "cast":
            src, dst = self.otype(k, r[2]), self.ty(r[4] if len(r) > 4 else r[-1])
            ts = self.loc(self.opnd(k, r[2]), f, line)
            if src == "f32" and dst == "f64":
                self.sink(f, line, ts)
                return set()
            if src == "f64" and dst == "f32":
                return {("rounded", f.path, f.file, line, "a double narrowed to single precision")}
            if r[1] == "IntToFloat" and dst == "f32":
                if SMALLINT.match(src):
                    return {("exact",)}
                if ("big",) in ts:
                    return {("rounded", f.path, f.file, line, "an integer that can exceed 2^24 passed through single precision")}
                return {("exact",)} if ts else set()
            if r[1] == "FloatToInt":
                return set()
            if SMALLINT.match(src):
                return {("small",)}
            return ts
        if kd == "bin":
            op = r[1].replace("WithOverflow", "").replace("Unchecked", "")
            a, b = self.loc(self.opnd(k, r[2]), f, line), self.loc(self.opnd(k, r[3]), f, line)
            t = self.otype(k, r[2])
            if t == "f32":
                if op in ("Add", "Sub", "Mul", "Div", "Rem"):
                    rr = {x for x in a | b if x[0] == "rounded"}
                    if {x[0] for x in a | b} <= {"exact"} and op in ("Add", "Sub", "Mul"):
                        return {("exact",)}
                    return rr or {("rounded", f.path, f.file, line, "the result of single-precision arithmetic")}
                return set()
            if op in ("BitAnd", "Rem"):
                if ("small",) in a and len(a) == 1 or ("small",) in b and len(b) == 1:
                    return {("small",)}
                if op == "Rem":
                    return b & {("big",)} or b
                return a | b
            if op in ("Add", "Sub", "Mul", "BitOr", "BitXor"):
                if ("big",) in a | b:
                    return {("big",)}
                return {("small",)} if a and b and a | b == {("small",)} and op in ("Sub", "BitOr", "BitXor") else set()
            if op == "Div":
                return a
            if op == "Shl":
                return {("pow2",)} if r[2][0] == "const" and int(r[2][1].get("bits", 3)) & (int(r[2][1].get("bits", 3)) - 1) == 0 else a - {("small",)}
            if op == "Shr":
                return a
            return set()
        if kd in ("un", "neg", "not"):
            o = next((x for x in r[1:] if isinstance(x, list)), None)
            return self.loc(self.opnd(k, o), f, line) if o else set()
        if kd == "len":
            return {("big",)}
        if kd in ("ref", "rawptr", "addr", "copyref", "addrof"):
            p = next((x for x in r[1:] if isinstance(x, list)), None)
            return self.place(k, p) if p else set()
        if kd == "agg":
            ts = set()
            for o in r[2]:
                ts |= self.loc(self.opnd(k, o), f, line)
            if r[1] and r[1][0] == "closure" and r[1][2] in self.tags:
                self.add(r[1][2], 1, ts)
            return ts
        if kd in ("discr",):
            return set()
        ts = set()
        for x in r[1:]:
            if isinstance(x, list) and x and x[0] in ("copy", "move", "const"):
                ts |= self.loc(self.opnd(k, x), f, line)
        return ts

    def fn(self, k):
        f = self.prog.fns[k]
        if f.d.get("exported") or f.d.get("closure"):
            for i in range(2 if f.d.get("closure") else 1, f.argc + 1):
                t = self.ty(f.locals[i][0])
                if re.match(r"^&?(mut )?\(?(usize|u64|u32|i64|i32)\b", t):
                    self.add(k, i, {("big",)})
                elif t == "f32":
                    self.add(k, i, {("user",)})
        for b in f.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=":
                    self.add(k, s[1][0], self.rvalue(k, f, s[2], s[3]))
            t = b["t"]
            if t[0] != "call" or t[3] is None:
                continue
            info = t[1][1] if t[1][0] == "const" else {}
            n, inst, line = info.get("fn") or "", info.get("inst"), t[6]
            dst = t[3][0]
            dty = self.ty(f.locals[dst][0])
            argt = [self.loc(self.opnd(k, a), f, line) for a in t[2]]
            tys = [self.otype(k, a) for a in t[2]]
            if inst in self.tags:
                g = self.prog.fns[inst]
                for i, a in enumerate(argt):
                    if i + 1 <= g.argc:
                        self.add(inst, i + 1, a)
                if dty != "f64":
                    self.add(k, dst, self.tags[inst][0])
                continue
            ts = set().union(*argt) if argt else set()
            if dty == "f64" and "f32" in tys:
                self.sink(f, line, set().union(*[a for a, x in zip(argt, tys) if x == "f32"]))
            elif dty == "f32" and not re.search(r"::(clone|unwrap\w*|expect|into|from|abs|neg|copysign|min|max|next|deref|index|take|replace)$", n):
                if inst and inst in self.prog.fns:
                    pass
                self.add(k, dst, {x for x in ts if x[0] == "rounded"} or {("rounded", f.path, f.file, line, f"the result of a single-precision operation ({n.split('::')[-1]})")})
            elif n.endswith("::len") or n.endswith("size_of"):
                self.add(k, dst, {("big",)})
            elif SMALLCALL.search(n):
                self.add(k, dst, {("small",)})
            elif POW2CALL.search(n):
                self.add(k, dst, {("pow2",)})
            elif dty != "f64":
                self.add(k, dst, ts)


def region(prog, g):
    roots, out = [], []
    for k, f in prog.fns.items():
        if SKIP.search(k):
            continue
        if re.search(r"\bf64\b", k) and not F32DATA.search(k):
            roots.append(k)
        elif not F32DATA.search(k) and any(re.search(r"\bf64\b", prog.tys[f.locals[i][0]]["s"]) for i in range(0, f.argc + 1)) \
                and not any(F32DATA.search(prog.tys[f.locals[i][0]]["s"]) or prog.tys[f.locals[i][0]]["s"] == "f32" for i in range(0, f.argc + 1)):
            roots.append(k)

    def overridden(k):
        """the default body of a trait method, instantiated for a type that has its own"""
        m = re.match(r"kofft::(?:(\w+)::)?(\w+)::(\w+)\|f64$", k)
        return bool(m) and f"kofft::<f64 as {m.group(1) + '::' if m.group(1) else ''}{m.group(2)}>::{m.group(3)}|" in prog.fns
    roots = [k for k in roots if not overridden(k)]

    def f32fn(k):
        f = prog.fns[k]
        return bool(overridden(k) or SKIP.search(k) or F32DATA.search(k) or re.search(r"(^|[|, <])f32\b", k)
                    or any(F32DATA.search(prog.tys[f.locals[i][0]]["s"]) for i in range(0, f.argc + 1)))
    seen = set(roots)
    todo = list(roots)
    while todo:
        k = todo.pop()
        for y in g.refs(prog.fns[k]):
            if y not in seen and not f32fn(y):
                seen.add(y)
                todo.append(y)
    return sorted(seen)


def consts(prog, f):
    from .graph import walk_consts
    for b in f.blocks:
        if b["c"]:
            continue
        for s in b["s"]:
            for c in walk_consts([s]):
                yield c, s[3] if s[0] == "=" and isinstance(s[-1], int) else f.line
        for c in walk_consts([b["t"]]):
            yield c, b["t"][6] if b["t"][0] == "call" else f.line


def run(w, rep, tier):
    cov = {"functions": set(), "singles": 0, "consts": 0, "sinks": 0}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        g = Graph(prog)
        reg = region(prog, g)
        cov["functions"] |= set(reg)
        fl = Flow(prog, g, reg)
        if not fl.run():
            rep.cov.setdefault("undecided", []).append(cfg)
        for k in reg:
            cov["singles"] += sum(1 for l in prog.fns[k].locals if prog.tys[l[0]]["s"] == "f32")
        cov["sinks"] += len(fl.sinks)
        for (path, file, line, why), at in sorted(fl.sinks.items(), key=str):
            rep.viol(path, file, line, "rounded-through-single", f"{why} becomes a double-precision value", config=cfg)
        for k in reg:
            f = prog.fns[k]
            for c, line in consts(prog, f):
                if "bits" in c and prog.tys[c["ty"]]["s"] == "f64":
                    cov["consts"] += 1
                    why = const64(c["bits"])
                    if why:
                        rep.viol(f.path, f.file, line, "single-precision-constant", why, config=cfg)
    rep.cov.update(functions=len(cov["functions"]), single_precision_locals=cov["singles"], double_constants=cov["consts"])
