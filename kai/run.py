"""Analyse one root function with Engine A and report everything the property checks need."""
import re, signal, time, traceback
from . import poly, specs, witness
from .poly import *
from .val import *
from .state import *
from .engine import Engine, Giveup, cond_polys, at_path
from .contracts import CONTRACTS


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


PROG = None


def set_prog(p):
    global PROG
    PROG = p


def decide(st, cond):
    """'ok' | ('viol', model) | 'undec' for the claim that cond holds on st"""
    if entails(st, cond):
        return "ok", None
    fls = assume(st, bnot(cond))
    if not fls:
        return "ok", None
    for s in fls:
        if not exact(s):
            continue
        c, n, p, q = list(s.cons), list(s.nes), list(s.pow2), list(s.npow2)
        r, m = witness.find(c, n, p, q, note=s.note)
        if r == "sat":
            return "viol", m
    return "undec", None


def err_of(E, v):
    """classify a Result value: ('ok', payload) / ('err', variant name or None) / None"""
    if isinstance(v, Enum) and v.tag.endswith("result::Result"):
        if v.v == 0:
            return "ok", v.f[0]
        e = v.f[0]
        if isinstance(e, Enum):
            t = [t for t in E.tys if t["k"] == "adt" and t.get("path") == e.tag]
            return "err", t[0]["variants"][e.v]["name"] if t else None
        return "err", None
    return None


def feasible_model(st, env=None):
    """env: values of symbols the state pins by equalities"""
    if not exact(st):
        return None
    f = (lambda cs: sorted({c.subst(env) for c in cs}, key=repr)) if env else list
    r, m = witness.find(f(st.cons), f(st.nes), f(st.pow2), f(st.npow2), note=st.note)
    return m if r == "sat" else None


def show_model(m):
    return {k: v for k, v in (m or {}).items() if not k.startswith("t") or not k[1:].isdigit()}


def root_fn(key):
    return PROG.fns[key.split(" >> ")[-1]]


def histories(prog):
    """call sequences on objects whose fields are private: constructor, then up to three calls"""
    new, meths = {}, {}
    for k, f in prog.fns.items():
        m = re.match(r"(kofft::stft::\w+Stream)::<.*>::(\w+)$", f.path)
        if not m or f.d.get("closure") or not f.d.get("exported"):
            continue
        if m.group(2) == "new":
            new[m.group(1), k.split("|", 1)[1]] = k
        else:
            meths.setdefault((m.group(1), k.split("|", 1)[1]), []).append(k)
    out = []
    for o, ms in sorted(meths.items()):
        if o not in new:
            continue
        ms.sort()
        seqs = [(a, b) for a in ms for b in ms] + [(a, a, b) for a in ms for b in ms if a != b]
        for q in seqs:
            out.append(" >> ".join((new[o],) + q))
    return out


def _history(keys, cfg, res):
    E = Engine(PROG, dict(CONTRACTS), cfg)
    st = State()
    fn = PROG.fns[keys[0]]
    outs = E.exec_fn(fn, root_args(E, st, fn), st)
    cur = []
    for s, v in outs:
        r = err_of(E, v)
        if r is None or r[0] == "ok":
            c = E.new_cell(s, r[1] if r else v)
            cur.append((s, c))
    for i, k in enumerate(keys[1:]):
        fn = PROG.fns[k]
        nxt = []
        for s, c in cur:
            args = [Ref(("c", c), (), True)]
            for j in range(2, fn.argc + 1):
                args.append(E.fresh_val(s, fn.locals[j][0], f"call{i + 1}.{fn.locals[j][1] or j}", EMPTY, INPUT, f"call{i + 1}:{j}"))
            for s2, v in E.exec_fn(fn, args, s):
                r = err_of(E, v)
                if r is None or r[0] == "ok":
                    nxt.append((s2, c))
        cur = nxt[:40]
    E.settle()
    res["outs"] = len(cur)
    obligations(E, res)
    return E


def analyse(key, cfg=None, tmo=90):
    """dict describing the analysis of one root"""
    fn = root_fn(key)
    poly.reset()
    FE.table.clear()
    res = {"key": key, "path": fn.path, "file": fn.d["span"][0], "line": fn.d["span"][1], "obls": [], "errs": [], "keep": [], "shape": [],
           "hist": [], "loops": [], "status": "ok", "unknown": {}, "outs": 0}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(tmo)
    t0 = time.time()
    try:
        if " >> " in key:
            _history(key.split(" >> "), cfg or {}, res)
        else:
            _analyse(fn, cfg or {}, res)
    except Timeout:
        res["status"] = "timeout"
    except Giveup as e:
        res["status"] = "giveup: " + str(e)[:200]
    except Exception as e:
        res["status"] = "internal: " + repr(e)[:200] + " | " + " / ".join(x.strip() for x in traceback.format_exc().strip().splitlines()[-7:])[:600]
    finally:
        signal.alarm(0)
    res["t"] = round(time.time() - t0, 2)
    return res


def root_args(E, st, fn):
    r = []
    free = specs.uncapped(fn.path)
    for i in range(1, fn.argc + 1):
        v = E.fresh_val(st, fn.locals[i][0], fn.locals[i][1] or f"arg{i}", frozenset({f"arg:{i - 1}"}), INPUT, f"arg:{i - 1}")
        if isinstance(v, Poly) and i - 1 not in free:
            if E.tys[fn.locals[i][0]].get("s") in ("usize", "u64"):
                st.add_ge(P(LENMAX) - v)    # a count or a size to allocate
        r.append(v)
    return r


def obligations(E, res):
    for o in E.obls.values():
        k = "viol" if o.viol else "undec" if o.undec else "ok"
        rec = {"fn": o.fn.path, "file": o.fn.d["span"][0], "kind": o.kind, "line": o.line, "desc": o.desc, "st": k}
        if o.viol:
            rec["model"] = show_model(o.model)
            rec["trail"] = [a.split("|")[0] for a in (o.trail or [])]
        res["obls"].append(rec)
    res["unknown"] = dict(E.unknown)
    res["visited"] = sorted({k.split("|")[0] for k in E.visited})


def _analyse(fn, cfg, res):
    E = Engine(PROG, dict(CONTRACTS), cfg)
    st = State()
    args = root_args(E, st, fn)
    spec = None
    f = specs.spec_for(fn.path)
    if f and not any(a.strip() == "Self" for a in fn.key.split("|", 1)[1].split(",")):
        try:
            spec = f(specs.X(E, st, fn, args))
        except LookupError as e:
            res["nospec"] = str(e)
    if spec:
        for c in spec.pre:
            r = assume(st, c)
            if not r:
                raise Giveup("precondition unsatisfiable")
            st = r[0]
    outs = E.exec_fn(fn, args, st)
    E.settle()
    res["outs"] = len(outs)
    obligations(E, res)
    if spec and spec.fallible and spec.errs is not None:
        check_errors(E, fn, spec, outs, res)
    if spec and spec.ret:
        check_shape(E, fn, spec, outs, res)
    if spec and spec.keep:
        check_keep(E, fn, spec, outs, res, args)
    flows(E, fn, outs, res, args)
    res["recs"] = summarize_recs(E)
    res["term"] = termination(E) if cfg.get("term") else []
    res["effs"] = sorted({str(e) for s, v in outs for e in s.eff})
    return E, outs, spec, args


def deep_taint(E, s, v, seen):
    """labels of everything a value gives access to"""
    t = set()
    if isinstance(v, Ref):
        k = (v.base, v.path)
        if k in seen:
            return t
        seen.add(k)
        try:
            return deep_taint(E, s, E.load(s, k), seen)
        except Giveup:
            return t
    if isinstance(v, (Struct, Enum)):
        for x in v.f:
            t |= deep_taint(E, s, x, seen)
        return t
    sl = v if isinstance(v, (Vec, Arr, Slc)) else v.s if isinstance(v, BoxS) else None
    if sl is not None:
        b = s.bufs.get(sl.buf)
        if b is not None:
            t |= E.range_taint(s, b, sl.off if isinstance(sl, Slc) else ZERO, sl.len)
        return t
    return set(taint_of(v, s))


def flows(E, fn, outs, res, args):
    """labels reaching the result and every buffer the caller passed in"""
    fl = {}
    for s, v in outs:
        r = err_of(E, v)
        if r is not None and r[0] == "err":
            continue
        fl.setdefault("ret", set()).update(deep_taint(E, s, v, set()))
        w = {int(e[1][4:]) for e in s.eff if e[0] in ("w", "w?", "may") and e[1].startswith("arg:") and e[1][4:].isdigit()}
        for i in w:
            fl.setdefault(i, set()).update(deep_taint(E, s, args[i], set()))
    res["lenflow"] = len_flows(E)
    res["flows"] = {str(k): sorted(map(str, v)) for k, v in fl.items()}


def len_flows(E):
    """loops whose trip count depends on the length of a recycled buffer while their body moves data"""
    out = []
    for l in E.loops:
        L = l.loop
        t = list(L.t.syms())[0]
        data = set()
        for bid, (ta, ct) in L.mbufs.items():
            data |= {x for x in ta | ct}
        own = {b for b in L.mbufs if L.st.bufs.get(b) is not None and L.st.bufs[b].root.startswith("hist")}
        if not data or not (set(L.mbufs) - own or any(k[2] == "float" for k in L.phis.values())):
            continue             # element-wise work on the recycled buffer itself reaches nothing else
        bad = set()
        for k, lst in l.exits.items():
            for s in lst:
                for c in s.cons - L.st.cons - {p for _, p in L.cands or ()}:
                    if t in c.syms():
                        bad |= hist_syms(c)
        if bad:
            out.append({"fn": l.key[0].split("|")[0], "line": l.line, "len": sorted(SYMS[x].name for x in bad), "data": sorted(map(str, data)), "what": "loop"})
    for callee, fn, line, n, data in E.histcalls:
        out.append({"fn": fn, "line": line, "len": n, "data": data, "what": "call of " + callee})
    return out


def summarize_recs(E):
    """length templates each cache insertion satisfies"""
    out = []
    from .lib import seq_lens, tmpl_len, TEMPLATES
    for r in E.recs:
        if r[0] != "insert":
            continue
        _, m, k, v, st, fn, line, stack = r
        ident = m.ident or E.mapid.get(m.name)
        if not ident:
            continue
        row = []
        for path, n in seq_lens(E, v):
            oks, con = [], None
            if n.is_const() and isinstance(k, Poly) and not k.is_const():
                con = n.const
            for t in TEMPLATES:
                s = st.copy()
                w = tmpl_len(E, s, t, k)
                if w is None:
                    continue
                r_, m_ = decide(s, ("eq", n - w))
                oks.append((t, r_))
            row.append(oks)
        out.append({"ident": ident, "fn": fn.path, "line": line, "rows": row})
    return out


def ranked_abs(l, ph, envs):
    """2|x| + [x < 0] decreases for some carried signed number x"""
    for x in ph:
        if SYMS[x].kind != FUZZY or any(env.get(x) is None for env in envs):
            continue
        X = S(x)
        good = True
        neg = False
        for b, env in zip(l.backs, envs):
            for c1, f1 in ((X, X * 2), (-X - 1, P(1) - X * 2)):
                for s in assume(b, ("ge", c1)):
                    y = env[x]
                    for c2, f2 in ((y, y * 2), (-y - 1, P(1) - y * 2)):
                        for s2 in assume(s, ("ge", c2)):
                            neg = True
                            if not s2.infeasible() and not s2.ent_ge(f1 - f2 - 1):
                                good = False
                        if not good:
                            break
        if good and neg:
            return f"2|{show(X)}| + [{show(X)} < 0]"
    return None


def termination(E):
    """for every loop: a quantity that stays non-negative and strictly decreases, or an exact iteration that changes nothing"""
    out = []
    for l in E.loops:
        L = l.loop
        t = list(L.t.syms())[0]
        rec = {"fn": l.key[0].split("|")[0], "loop": str(l.key[1:]), "line": l.line}
        out.append(rec)
        if not l.backs:
            rec["st"] = "ok"
            continue
        ph = {list(v.syms())[0]: p for p, (a, v, k, d) in L.phis.items() if k == "fuzzy"}
        env0 = {t: S(t) + 1}
        envs = []
        for b in l.backs:
            env = dict(env0)
            for x, p in ph.items():
                cv = at_path(b.cells.get(p[0]), p[1:])
                if isinstance(cv, Poly):
                    env[x] = cv
                else:
                    env[x] = None
            envs.append(env)
        vary = set(ph) | {t}
        sg = ranked_abs(l, ph, envs)
        if sg:
            rec.update(st="ok", rank=sg)
            continue
        cands = set(frozenset.intersection(*[b.cons for b in l.backs]))
        cands |= {S(x) for x in ph}
        done = False
        for c in sorted(cands, key=lambda c: (len(c.t), repr(c))):
            sy = c.syms() & vary
            if not sy or len(c.t) > 5:
                continue
            if any(x > t and x not in vary for x in c.syms()):
                continue          # mentions something computed inside the iteration
            good = True
            for b, env in zip(l.backs, envs):
                if any(env.get(x) is None for x in sy):
                    good = False
                    break
                nxt = c.subst({x: env[x] for x in sy})
                if not (b.ent_ge(c) and b.ent_ge(c - nxt - 1)):
                    good = False
                    break
            if good:
                done = True
                rec["rank"] = show(c)
                break
        if done:
            rec["st"] = "ok"
            continue
        rec["st"] = "undec"
        # an iteration from the very first header state that returns to it unchanged repeats forever
        if any(k in ("top", "bool", "float") for _, (a, v, k, d) in L.phis.items() if k != "float") or L.fbuf:
            rec["why"] = "carried values of unknown kind"
            continue
        for b, env in zip(l.backs, envs):
            conds = []
            first = {t: ZERO}
            for p, (a, v, k, d) in L.phis.items():
                if k == "fuzzy":
                    first[list(v.syms())[0]] = a
            okc = True
            for p, (a, v, k, d) in L.phis.items():
                if k == "affine":
                    conds.append(d.subst(first) if isinstance(d, Poly) else None)
                elif k == "fuzzy":
                    cv = at_path(b.cells.get(p[0]), p[1:])
                    conds.append(cv.subst(first) - a if isinstance(cv, Poly) else None)
            if any(c is None for c in conds):
                continue
            s = b.copy()
            for x, y in first.items():
                for r in assume(s, ("eq", S(x) - y))[:1]:
                    s = r
                    break
                else:
                    okc = False
            for c in conds:
                r = assume(s, ("eq", c))
                if not r:
                    okc = False
                    break
                s = r[0]
            if not okc or s.infeasible():
                continue
            m = feasible_model(s, first)
            if m is not None:
                rec["st"] = "viol"
                rec["model"] = show_model(m)
                break
        else:
            two_step(l, t, ph, envs, rec)
    return out


def two_step(l, t, ph, envs, rec):
    """two consecutive iterations from the first header state that restore it"""
    L = l.loop
    if any(k == "affine" for (a, v, k, d) in L.phis.values()):
        return
    entry = {x: L.phis[p][0] for x, p in ph.items()}
    for b1, e1 in zip(l.backs, envs):
        if any(v is None for v in e1.values()):
            continue
        s1 = b1.copy()
        for x, y in list(entry.items()) + [(t, ZERO)]:
            r = assume(s1, ("eq", S(x) - y))
            if not r:
                break
            s1 = r[0]
        else:
            for b2, e2 in zip(l.backs, envs):
                if any(v is None for v in e2.values()) or b2.pow2 - L.st.pow2 or b2.npow2 - L.st.npow2:
                    continue
                new = [("ge", c) for c in b2.cons - L.st.cons] + [("ne", c) for c in b2.nes - L.st.nes]
                known = set(ph) | {t}
                if any(x > t and x not in known for _, c in new for x in c.syms()):
                    continue
                s = s1
                okc = True
                for c in [(o, c.subst(e1)) for o, c in new] + [("eq", e2[x].subst(e1) - entry[x]) for x in ph]:
                    r = assume(s, c)
                    if not r:
                        okc = False
                        break
                    s = r[0]
                if okc and not s.infeasible():
                    m = feasible_model(s, entry)
                    if m is not None:
                        rec["st"] = "viol"
                        rec["model"] = show_model(m)
                        return


def check_errors(E, fn, spec, outs, res):
    for s, v in outs:
        r = err_of(E, v)
        if r is None:
            res["errs"].append({"st": "undec", "what": "the returned value is not a recognised Result"})
            continue
        if r[0] == "ok":
            for V, c in spec.errs:
                d, m = decide(s, bnot(c))
                res["errs"].append({"st": d, "what": f"returns Ok only if not {V}", "variant": V, "side": "ok", "model": show_model(m) if m else None})
            continue
        V = r[1]
        if V is None:
            res["errs"].append({"st": "ok" if "opaque_err" in s.note else "undec", "what": "propagates the error of a caller-supplied transform"})
            continue
        if V in spec.loose or V == specs.NP2 and not E.cfg.get("std", True):
            res["errs"].append({"st": "ok", "what": f"{V} may depend on element contents", "variant": V, "side": "err"})
            continue
        cs = [c for W, c in list(spec.errs) + list(spec.may) if W == V]
        if not cs:
            m = feasible_model(s)
            res["errs"].append({"st": "viol" if m is not None else "undec", "what": f"never returns {V}", "variant": V, "side": "err",
                                "model": show_model(m) if m is not None else None})
            continue
        cond = cs[0] if len(cs) == 1 else specs.Or(*cs)
        d, m = decide(s, cond)
        res["errs"].append({"st": d, "what": f"returns {V} only when documented", "variant": V, "side": "err", "model": show_model(m) if m else None})


def check_keep(E, fn, spec, outs, res, args):
    for s, v in outs:
        r = err_of(E, v)
        if r is None or r[0] != "err" or "opaque_err" in s.note:
            continue
        if r[1] in spec.nokeep:
            continue
        nostd_np2 = r[1] == specs.NP2 and not E.cfg.get("std", True)
        def argn(e):
            return int(e[1][4:]) if e[0] in ("w", "w?", "may") and e[1].startswith("arg:") and int(e[1][4:]) in spec.keep else None
        dirty = sorted({argn(e) for e in s.eff} - {None})
        if not dirty:
            res["keep"].append({"st": "ok", "variant": r[1]})
            continue
        for i in list(dirty):
            ls = seq_fields(E, s, args[i])
            if ls and all(not assume(s, ("ge", n - 1)) for n in ls):
                dirty.remove(i)          # nothing to modify
            elif nostd_np2 and (i in spec.out or i in spec.scratch):
                dirty.remove(i)
        if not dirty:
            res["keep"].append({"st": "ok", "variant": r[1]})
            continue
        m, wr = None, False
        for i in dirty:
            effs = [e for e in s.eff if argn(e) == i]
            how = [e for e in effs if e[0] == "w"] or ([] if any(e[0] == "may" for e in effs) else effs)
            for e in how[:1]:
                s2 = s
                if e[0] == "w?":
                    s2 = (assume(s, ("ge", S(e[2]) - 1)) or [None])[0]
                    if s2 is None:
                        continue
                wr = True
                ls = [n for n in seq_fields(E, s2, args[i]) if assume(s2, ("ge", n - 1))]
                s2 = assume(s2, ("ge", ls[0] - 1))[0] if ls else s2
                m = m or feasible_model(s2)
            wr = wr or any(e[0] == "may" for e in effs)
        if not wr:
            res["keep"].append({"st": "ok", "variant": r[1]})
            continue
        res["keep"].append({"st": "viol" if m is not None else "undec", "variant": r[1], "dirty": [fn.locals[i + 1][1] for i in dirty],
                            "model": show_model(m) if m is not None else None})


def seq_fields(E, s, v):
    """lengths of the sequences a caller's argument gives access to"""
    n = 0
    while isinstance(v, Ref) and n < 5:
        a = E.lib.as_slice(E, s, v)
        if a is not None:
            return [a.len]
        v = E.load(s, (v.base, v.path))
        n += 1
    if isinstance(v, (Slc, Vec, Arr)):
        return [v.len]
    if isinstance(v, Struct):
        return [x for f in v.f for x in seq_fields(E, s, f)]
    return []


def field_of(E, s, v, path):
    for p in path:
        while isinstance(v, Ref):
            v = E.load(s, (v.base, v.path))
        if not isinstance(v, Struct):
            return None
        if isinstance(p, int):
            if p >= len(v.f):
                return None
            v = v.f[p]
        else:
            t = [t for t in E.tys if t["k"] == "adt" and t.get("path") == v.tag]
            if not t:
                return None
            ix = [i for i, f in enumerate(t[0]["variants"][0]["fields"]) if f[0] == p]
            if not ix:
                return None
            v = v.f[ix[0]]
    return v


def check_shape(E, fn, spec, outs, res):
    for s, v in outs:
        r = err_of(E, v)
        if r is not None:
            if r[0] == "err":
                continue
            v = r[1]
        for path, want in spec.ret.items():
            w = field_of(E, s, v, path)
            sl = E.lib.as_slice(E, s, w) if w is not None else None
            if sl is None:
                res["shape"].append({"st": "undec", "what": f"result{list(path)} is not a recognised sequence"})
                continue
            d, m = decide(s, ("eq", sl.len - want))
            res["shape"].append({"st": d, "what": f"result{list(path) or ''} has {show(want)} elements (has {show(sl.len)})",
                                 "model": show_model(m) if m else None})


def roots(prog, pat=""):
    """functions analysed as entry points: everything callable from outside plus the functions replaced by summaries"""
    ks = []
    for k, f in prog.fns.items():
        if f.d.get("closure") or specs.skip_root(f.path):
            continue
        if f.d.get("exported") or (f.path in CONTRACTS and not f.path.startswith("kofft::fft::FftImpl::")):
            if pat in k:
                ks.append(k)
    return ks
