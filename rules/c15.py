"""Path-wise provenance over the developer tools' crates (xtask, sanity-check).  Every path of main and of the fallible helpers: an
operation that failed on the path must end in an error return or a non-zero exit, every Result must be examined, a child's exit status
must decide the tool's own, buffered writers must be flushed before success.  Every command builder: the detected features (and, for
benchmarks, the compiler flags) reach the command line on each path where they exist, user text is a separate argument behind `--` and
never reaches a shell.  Configuration detection: CPU features and compiler flags agree, extra features are all kept."""
import os, re
from kai.mir import Prog
from kai.trace import Tracer, Cut, TooMany, contains, subterms
from .graph import short

ASSUMPTIONS = ("std::process::Command runs its program with exactly the given arguments, without a shell",
               "machine detection (uname, lscpu, sysctl) may fall back to defaults by design")

SHELLS = re.compile(r"(^|/)(sh|bash|zsh|dash|fish|ksh|cmd|cmd\.exe|powershell|pwsh|env|xargs|eval)$")
FALLIBLE = re.compile(r"^core::result::Result<")
OPTRES = re.compile(r"^core::option::Option<core::result::Result<")
NOFAIL = re.compile(r"(fmt::|Formatter|std::env::var|str::<impl str>::parse|TryFrom|TryInto|try_from|try_into)")
CAMEL = re.compile(r"(?<!^)(?=[A-Z])")


def variant(st, t):
    k = st.dec.get(("variant", t))
    return k if not isinstance(k, tuple) else None


def run(w, rep, tier):
    d = w.dump("tools", ["-p", "xtask", "-p", "sanity-check"], pkg_out=None)
    cov = {"functions": [], "paths": 0, "events": 0, "commands": 0, "undecided": []}
    todo = []
    for name in ("xtask.lib", "xtask.bin", "sanity_check.lib", "sanity_check.bin"):
        p = os.path.join(d, name + ".json")
        if not os.path.exists(p):
            continue
        prog = Prog(p)
        prog.crate = "xtask" if name.startswith("xtask") else "sanity-check"
        for k, f in sorted(prog.fns.items()):
            if f.d.get("closure") or " as " in f.path or "<impl" in f.path or "::tests::" in f.path:
                continue
            todo.append((prog, f))
    libx = {f.path: (p, f) for p, f in todo}
    for prog, f in list(todo):
        for k, c in sorted(prog.fns.items()):
            if c.d.get("closure") and k.startswith(f.path + "::{closure") and c.argc == 2:
                swallow(prog, f, c, rep, cov)
    for prog, f in todo:
        args = [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)]
        T = Tracer(prog, visits=2 if tier == "quick" else 3, maxpaths=8000 if tier == "quick" else 60000)
        T.exits = []
        eofs(prog)
        try:
            try:
                outs = T.run(f, args)
            except TooMany:         # callees are analysed on their own
                T = Tracer(prog, opaque=lambda k: not prog.fns[k].d.get("closure"), maxpaths=T.maxpaths)
                T.exits = []
                outs = T.run(f, args)
        except (TooMany, Cut) as e:
            cov["undecided"].append(f"{f.path}: {type(e).__name__}")
            continue
        cov["functions"].append(f.path)
        cov["paths"] += len(outs) + len(T.exits)
        ret = prog.tys[f.locals[0][0]]["s"]

        def bad(e, kind, text, st):
            g, line = (e.fn, e.line) if e else (f, f.line)
            file = g.file if not g.file.startswith("src") else prog.crate + "/" + g.file
            rep.viol(g.path, file, line, kind, text, entry=f.path, path=[f"{x.name.split('::')[-1]} at line {x.line}" for x in st.evs])
        ends = []
        for st, v in outs:
            if f.path.endswith("::main") or FALLIBLE.search(ret):
                if v[0] == "agg":
                    ends.append((st, v, v[2] == 0 if FALLIBLE.search(ret) else True, None))
                elif FALLIBLE.search(ret):
                    k = variant(st, v)
                    ends.append((st, v, None if k is None else k == 0, None))
        for st, a in T.exits:
            ends.append((st, None, None, a[0] if a else ("int", 0)))
        for st, v, ok, code in ends:
            cov["events"] += len(st.evs)
            outcome(f, st, v, ok, code, bad, ret)
        if "process::Command" in ret or any(re.search(r"process::Command::new$", e.name) for st, _ in outs for e in st.evs):
            for st, v in outs + [(s, None) for s, _ in T.exits]:
                cov["commands"] += builder(prog, f, st, bad)
        if f.path.endswith("::main"):
            dispatch(prog, f, outs + [(s, None) for s, _ in T.exits], bad, libx)
            options(prog, f, outs, rep)
        for st, v, ok, code in ends:
            for e in st.evs:
                if e.name.endswith("Iterator::flatten") and "Result<" in (e.inst or ""):
                    bad(e, "error-swallowed", f"items that could not be read are dropped inside {short(f.path)}", st)
        if "BuildConfig" in ret:
            for st, v in outs:
                if v[0] == "agg":
                    config(prog, f, st, v, bad)
    rep.cov.update(cov)


def swallow(prog, f, c, rep, cov):
    """a closure that is given a Result and answers without it when it is an error"""
    t = prog.tys[c.locals[2][0]]["s"]
    if not FALLIBLE.search(t) or FALLIBLE.search(prog.tys[c.locals[0][0]]["s"]):
        return
    T = Tracer(prog)
    T.exits = []
    try:
        outs = T.run(c, [("arg", 1, "env"), ("arg", 2, "item")])
    except (TooMany, Cut):
        return
    cov["paths"] += len(outs)
    for st, v in outs:
        if variant(st, ("arg", 2, "item")) == 1 and not contains(v, lambda x: x == ("arg", 2, "item")):
            rep.viol(c.path, c.file if not c.file.startswith("src") else prog.crate + "/" + c.file, c.line, "error-swallowed", f"an item that could not be read is dropped or replaced inside {short(f.path)}")


def success(st, s):
    """was this exit status known to be successful on the path"""
    for t, v in st.dec.items():
        if t[0] == "call" and t[1].endswith("ExitStatus::success") and t[3] and t[3][0] == s:
            return bool(v)
        if t[0] == "bin" and t[1] == "Eq" and contains(t, lambda x: x[0] == "call" and x[1].endswith("ExitStatus::code") and x[3] == (s,)):
            if contains(t, lambda x: x == ("int", 0)):
                return bool(v)
    return None


def outcome(f, st, v, ok, code, bad, ret):
    evs = st.evs
    name = short(f.path)
    good = ok is True or (code is not None and code == ("int", 0))
    fail = ok is False or (code is not None and code[0] == "int" and code[1] != 0)
    out = v if v is not None else code
    for i, e in enumerate(evs):
        if e.res is not None and OPTRES.search(e.ty or "") and variant(st, e.res) == 1:
            x = ("fld", ("var", e.res, 1), 0)
            if variant(st, x) == 1 and good and not contains(out, lambda y: y == x):
                kinds = [t for t, b in st.dec.items() if contains(t, lambda y: y == x) and (t[0] == "bin" and contains(t, is_eof) and b == 1 or
                         t[0] == "variant" and b in EOFS and t[1][0] == "call" and t[1][1].endswith("::kind"))]
                if not kinds:
                    bad(e, "error-swallowed", f"{name} ends successfully although an item could not be read", st)
        if e.res is None or not FALLIBLE.search(e.ty or "") or NOFAIL.search(e.name):
            continue
        k = variant(st, e.res)
        if k == 1 and (good or (not fail and code is not None and not contains(code, lambda x: x == e.res))):
            later = [x for x in evs[i + 1:] if x.name == e.name]
            err = ("fld", ("var", e.res, 1), 0)
            kinds = [t for t, b in st.dec.items() if b == 1 and t[0] == "bin" and t[1] == "Eq" and contains(t, lambda x: x == err)]
            eof = [t for t in kinds if contains(t, is_eof)]
            eof += [t for t, b in st.dec.items() if t[0] == "variant" and b in EOFS and contains(t, lambda x: x == err) and t[1][0] == "call" and t[1][1].endswith("::kind")]
            if later and variant(st, later[-1].res) == 0 or eof:
                continue
            if later and variant(st, later[-1].res) == 1:
                continue        # judged at the later one
            bad(e, "error-swallowed", f"{name} ends successfully although this operation failed", st)
        elif k is None and good and not contains(out, lambda x: x == e.res):
            used = any(contains(x.args, lambda y: y == e.res) for x in evs[i + 1:])
            if not used:
                bad(e, "result-ignored", f"{name} ends successfully without examining this operation's result", st)
    # exit status of children
    for i, e in enumerate(evs):
        if not re.search(r"(Command::(status|output)|Child::wait\w*)$", e.name) or variant(st, e.res) == 1:
            continue
        s = ("fld", ("var", e.res, 0), 0)
        here = lambda t: contains(t, lambda x: x == s or x == e.res)
        sc = success(st, s)
        if fail:
            continue
        if code is not None:
            if contains(code, lambda x: x[0] == "call" and x[1].endswith("ExitStatus::code") and x[3] == (s,)):
                continue
            if sc is True:
                continue
            if code == ("int", 0):
                bad(e, "status-ignored", f"{name} exits successfully although this command may have failed", st)
            elif code[0] != "int" and not here(code):
                bad(e, "status-ignored", f"{name} exits with a status that does not depend on this command's", st)
        elif ok and not (v is not None and here(v)) and sc is not True and (FALLIBLE.search(ret) or f.path.endswith("::main")):
            bad(e, "status-ignored", f"{name} returns successfully although this command may have failed", st)
    if code is not None:
        for t, b in st.dec.items():
            if t[0] == "variant" and b == 0 and t[1][0] == "call" and t[1][1].endswith("ExitStatus::code") and code == ("int", 0):
                bad(None, "signal-is-success", f"{name} exits successfully when the child was killed by a signal", st)
    # buffered writers
    if good:
        for e in evs:
            if re.search(r"(BufWriter|LineWriter)::<.*>::(new|with_capacity)$", e.name) and not any(re.search(r"(::flush|::into_inner|::sync_all)$", x.name) for x in evs):
                bad(e, "not-flushed", f"{name} ends successfully without flushing this buffered writer (a failing write would be lost)", st)


def is_eof(x):
    """io::ErrorKind::UnexpectedEof or Interrupted as a constant"""
    return x[0] == "cst" and len(x) > 3 and x[3] in EOFS or x[0] == "agg" and isinstance(x[1], str) and x[1].endswith("ErrorKind") and (x[2] in EOFS)


EOFS = set()


def eofs(prog):
    EOFS.clear()
    for t in prog.tys:
        if t.get("adt") == "enum" and t["path"].endswith("ErrorKind") and t.get("variants"):
            for i, v in enumerate(t["variants"]):
                if v["name"] in ("UnexpectedEof", "Interrupted"):
                    EOFS.update((i, f"{int(v['disc']):02x}"))


def args_of(st, cmd):
    """command line pieces in order: (event, term)"""
    out = []
    for e in st.evs:
        if e.args and e.args[0] == cmd:
            if e.name.endswith("Command::arg"):
                out.append((e, e.args[1]))
            elif e.name.endswith("Command::args"):
                a = e.args[1]
                if a[0] == "agg" and a[1] == "array":
                    out += [(e, x) for x in a[3]]
                else:
                    out.append((e, a))
    return out


def lit(t):
    return t[1] if t[0] == "str" else None


def builder(prog, f, st, bad):
    n = 0
    cfg = [i for i in range(1, f.argc + 1) if "BuildConfig" in prog.tys[f.locals[i][0]]["s"]]
    users = [i for i in range(1, f.argc + 1) if re.search(r"\bstr\b|String|Path|OsStr", prog.tys[f.locals[i][0]]["s"]) and "BuildConfig" not in prog.tys[f.locals[i][0]]["s"]]
    usr = lambda t: contains(t, lambda x: x[0] == "arg" and x[1] in users)
    for e in st.evs:
        if not e.name.endswith("process::Command::new"):
            continue
        n += 1
        cmd = e.res
        al = args_of(st, cmd)
        prg = e.args[0]
        if prg[0] == "str" and SHELLS.search(prg[1]):
            for a, t in al:
                dyn = [x for x in subterms(t) if x[0] in ("arg", "call")]
                if dyn:
                    bad(a, "shell-text", f"run-time text reaches the shell command of {short(f.path)}", st)
        if usr(prg):
            bad(e, "shell-text", f"user text chooses the program {short(f.path)} runs", st)
        sep = False
        seen = []
        for a, t in al:
            if lit(t) == "--":
                sep = True
            if usr(t):
                if t[0] not in ("arg",) and not (t[0] == "fld"):
                    bad(a, "joined-text", f"user text is merged into another argument of {short(f.path)}", st)
                elif not sep and prg == ("str", "cargo"):
                    bad(a, "option-text", f"user text is passed to cargo of {short(f.path)} before `--`, where it can be taken for an option", st)
                seen += [x[1] for x in subterms(t) if x[0] == "arg"]
        if users and "process::Command" in prog.tys[f.locals[0][0]]["s"]:
            if seen != sorted(seen) or set(users) - set(seen):
                bad(e, "lost-argument", f"{short(f.path)} does not pass all its arguments on in order", st)
        if cfg and "process::Command" in prog.tys[f.locals[0][0]]["s"]:
            config_args(prog, f, st, cfg[0], e, al, bad)
    return n


def config_args(prog, f, st, ci, e, al, bad):
    t = prog.tys[f.locals[ci][0]]
    while t["k"] == "ref":
        t = prog.tys[t["e"]]
    names = [x[0] for x in t["variants"][0]["fields"]]
    fld = lambda n: (lambda x: x[0] == "fld" and x[1] == ("arg", ci, f.locals[ci][1]) and names[x[2]] == n)
    feats, flags = fld("features"), fld("rustflags")
    empty = None
    for k, v in st.dec.items():
        if k[0] == "call" and k[1].endswith("::is_empty") and contains(k, feats):
            empty = bool(v)
        if k[0] == "bin" and contains(k, feats) and contains(k, lambda x: x[0] == "call" and x[1].endswith("::len")):
            empty = None if empty is None else empty
        if k[0] == "variant" and contains(k[1], feats) and k[1][0] == "call" and "features_arg" in k[1][1]:
            empty = v == 0
    has = [i for i, (a, x) in enumerate(al) if contains(x, feats)]
    if empty is not True and not has:
        bad(e, "features-lost", f"{short(f.path)} can leave out the detected features", st)
    for i in has:
        prev = lit(al[i - 1][1]) if i else None
        if al[i][1][0] != "agg" and prev is not None and prev not in ("--features", "-F"):
            bad(al[i][0], "features-lost", f"{short(f.path)} passes the features after `{prev}`", st)
        if any(lit(x) == "--" for _, x in al[:i]):
            bad(al[i][0], "features-lost", f"{short(f.path)} passes the features behind `--`, where cargo does not read them", st)
    if "bench" in f.path.split("::")[-1]:
        some = variant(st, [k[1] for k in st.dec if k[0] == "variant" and flags(k[1])][0]) if any(k[0] == "variant" and flags(k[1]) for k in st.dec) else None
        env = [x for x in st.evs if x.name.endswith("Command::env") and x.args[0] == e.res and contains(x.args[2], flags)]
        if some != 0 and not env:
            bad(e, "flags-lost", f"{short(f.path)} can leave out the detected compiler flags", st)
        for x in env:
            if lit(x.args[1]) not in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
                bad(x, "flags-lost", f"{short(f.path)} passes the compiler flags in {lit(x.args[1])}", st)


def dispatch(prog, f, outs, bad, libx):
    for st, v in outs:
        cmds = [e for e in st.evs if re.search(r"::\w+_command$", e.name)]
        for e in cmds:
            tgt = libx.get(e.name)
            if tgt:
                tf = tgt[1]
                for i in range(1, tf.argc + 1):
                    if "BuildConfig" in tgt[0].tys[tf.locals[i][0]]["s"]:
                        a = e.args[i - 1]
                        parts = a[3] if a[0] == "agg" else (a,)
                        if a[0] in ("call", "agg") and not all(contains(x, lambda x: x[0] == "call" and "detect_config" in x[1]) for x in parts):
                            bad(e, "config-lost", f"{e.name.split('::')[-1]} is not given the detected configuration", st)
        for k, i in st.dec.items():
            if k[0] != "variant" or isinstance(i, tuple):
                continue
            t = [x for x in prog.tys if x.get("adt") == "enum" and x["path"].endswith("::Commands")]
            if not t or any(x[0] == "call" and "Parser" not in x[1] for x in subterms(k[1])) or \
                    not contains(k[1], lambda x: x[0] == "call" and "Parser" in x[1]):
                continue
            if i >= len(t[0]["variants"]):
                continue
            nm = CAMEL.sub("_", t[0]["variants"][i]["name"]).lower() + "_command"
            if any(p.endswith("::" + nm) for p in libx):
                got = [e.name.split("::")[-1] for e in cmds]
                if got and got != [nm]:
                    bad(cmds[0], "wrong-command", f"the subcommand {t[0]['variants'][i]['name']} runs {', '.join(got)}", st)
                args = [x for e in cmds for x in e.args if contains(x, lambda y: y[0] == "var" and y[2] == i and contains(y, lambda z: z[0] == "call" and "Parser" in z[1]))]
                order = [x[2] for x in args if x[0] == "fld"]
                if order != sorted(order):
                    bad(cmds[0], "wrong-command", f"the arguments of {t[0]['variants'][i]['name']} are swapped", st)


def options(prog, f, outs, rep):
    """every parsed option is used on some path"""
    for t in prog.tys:
        if t.get("adt") == "struct" and t["path"].endswith("::Args") and t.get("variants"):
            fs = t["variants"][0]["fields"]
            used = set()
            for st, v in outs:
                for src in [e.args for e in st.evs] + list(st.dec):
                    for x in subterms(src):
                        if x[0] == "fld" and x[1][0] == "call" and x[1][1].endswith("Parser::parse"):
                            used.add(x[2])
            if used:
                for i, fd in enumerate(fs):
                    if i not in used:
                        rep.viol(f.path, f.file if not f.file.startswith("src") else "sanity-check/" + f.file, f.line, "option-ignored", f"the option {fd[0]} is parsed but never used")


def config(prog, f, st, v, bad):
    t = [x for x in prog.tys if x.get("adt") == "struct" and x["path"].endswith("::BuildConfig")]
    if not t:
        return
    names = [x[0] for x in t[0]["variants"][0]["fields"]]
    if len(v[3]) != len(names):
        return
    flags = v[3][names.index("rustflags")]
    pushed = [(e, e.args[1]) for e in st.evs if e.name.endswith("::push") and contains(v[3][names.index("features")], lambda x, e=e: x[0] == "mut" and x[2] == (e.res[2] if e.res else None))]
    lits = {lit(t): e for e, t in pushed if lit(t)}
    fl = " ".join(x[1] for x in subterms(flags) if x[0] == "str")
    for feat, flag in (("avx512", "+avx512f"), ("avx2", "+avx2")):
        if feat in lits and flags[0] == "agg" and flag not in fl:
            bad(lits[feat], "flags-mismatch", f"the feature {feat} is chosen without the compiler flag {flag}", st)
        if flag in fl and feat not in lits:
            bad(None, "flags-mismatch", f"the compiler flag {flag} is chosen without the feature {feat}", st)
    for k, b in st.dec.items():
        if k[0] == "call" and k[1].endswith("str>::contains") and b == 1 and k[3][0][0] == "arg" and k[3][1][0] == "str":
            pass
    # every extra feature is kept
    for e in st.evs:
        if re.search(r"Iterator::(skip|take|step_by|skip_while|take_while|nth)$", e.name) and contains(e.args, lambda x: x[0] == "arg"):
            bad(e, "features-lost", "only some of the extra features are used", st)
        if e.name.endswith("Iterator>::next") and "Split" in e.name and variant(st, e.res) == 1:
            p = ("fld", ("var", e.res, 1), 0)
            dropped = any(b == 1 and k[0] == "call" and k[1].endswith("is_empty") and contains(k, lambda x: x == p) for k, b in st.dec.items())
            judged = any(contains(k, lambda x: x == p) for k in st.dec)
            if not dropped and not judged and not any(contains(x, lambda y: y == p) for _, x in pushed):
                bad(e, "features-lost", "an extra feature is dropped", st)
            elif judged and not dropped and not any(contains(x, lambda y: y == p) for _, x in pushed):
                only_empty = all(k[1].endswith("is_empty") for k in st.dec if k[0] == "call" and contains(k, lambda x: x == p))
                if only_empty:
                    bad(e, "features-lost", "an extra feature is dropped", st)
