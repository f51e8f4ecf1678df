"""Provenance of values and order of calls along every path of the song index's public methods (helpers and closures inlined, loops
followed for up to two rounds): each path is the list of file operations, hash updates and map operations it performs together with
the outcomes it assumed for them.  Checked on every path: an error return follows no map change and carries an I/O error; a path on
which an operation failed does not return success; a new entry is stored under the file name (when there is one) and under the hash;
keys used for storing and looking up agree; a name hit reads no file; the hash covers exactly the bytes each read returned and is
finished only after a read returned zero."""
import re
from kai.mir import Prog
from kai.trace import Tracer, Cut, TooMany, contains, subterms
from .graph import short

ASSUMPTIONS = ("Read::read returning 0 means end of file; the operating system returns the file's bytes in order",
               "equal BLAKE3 hashes mean equal content",
               "Path::file_name/to_str are pure")

IO = re.compile(r"(std::fs::|std::io::|alloc::io::|io::(read::|buf_read::|seek::)?(Read|BufRead|Seek)>?::|as .*io::.*(Read|BufRead|Seek)>::)")
INFALLIBLE_IO = re.compile(r"(BufReader::<?.*new|BufReader.*with_capacity|Error::(new|other|kind|from)|OpenOptions::(new|read|write|append|create)|::by_ref|::take$|::chain$|::bytes$)")
MAP = re.compile(r"(HashMap|BTreeMap|HashSet)::<.*>::(\w+)$")
MUTATE = {"insert", "remove", "remove_entry", "clear", "drain", "retain", "entry", "get_or_insert_with", "extend", "try_insert", "insert_unique_unchecked"}
READ = re.compile(r"Read>?::read$")
READALL = re.compile(r"(Read>?::read_to_end$|std::fs::read$|std::io::(copy::)?copy$|alloc::io::.*::copy$|::update_reader$|::update_mmap\w*$|Read>?::read_to_string$)")
UPDATE = re.compile(r"blake3::Hasher::(update|update_rayon|write|write_all)$|<blake3::Hasher as .*Write>::write(_all)?$")
FINAL = re.compile(r"blake3::(Hasher::finalize(_xof)?|hash)$")


def mapop(e):
    m = MAP.search(e.name)
    return m.group(2) if m else None


def on_self(e):
    t = e.args[0] if e.args else None
    while t and t[0] in ("fld", "var", "deref"):
        t = t[1]
    return bool(t) and t[0] == "arg" and t[1] == 1


def zero(st, n):
    """True/False/None: the path assumed n == 0"""
    if n[0] == "int":
        return n[1] == 0
    d = st.dec
    r = d.get(("bin", "Eq", n, ("int", 0)))
    if r is not None:
        return bool(r)
    if d.get(("bin", "Lt", n, ("int", 1))) == 1 or d.get(("bin", "Lt", ("int", 0), n)) == 0:
        return True
    if d.get(("bin", "Lt", n, ("int", 1))) == 0 or d.get(("bin", "Lt", ("int", 0), n)) == 1:
        return False
    return None


def variant(st, t):
    k = st.dec.get(("variant", t))
    return k if not isinstance(k, tuple) else None


def nameterm(t):
    return contains(t, lambda x: x[0] == "call" and x[1].endswith("Path::file_name"))


def canon(t):
    """key without the identity of the path it was computed from"""
    if isinstance(t, tuple):
        if t[0] == "arg":
            return "path"
        if t[0] == "call":
            return ("call", t[1]) + tuple(canon(x) for x in t[3])
        return tuple(canon(x) for x in t)
    return t


def run(w, rep, tier):
    prog = Prog(w.kofft("all"))
    cov = {"methods": [], "paths": 0, "obligations": 0, "cut_paths": 0, "undecided": []}
    keys = {}
    idx = [f for k, f in sorted(prog.fns.items()) if f.path.startswith("kofft::media::") and not f.d.get("closure")]
    for f in idx:
        if not f.d.get("exported") or f.argc < 2:
            continue
        t1 = prog.tys[f.locals[1][0]]
        if t1["k"] != "ref" or not t1.get("mut") or "core::result::Result" not in prog.tys[f.locals[0][0]]["s"]:
            continue
        T = Tracer(prog, visits=2 if tier == "quick" else 3, maxpaths=6000 if tier == "quick" else 60000)
        T.exits = []
        try:
            outs = T.run(f, [("arg", i, f.locals[i][1]) for i in range(1, f.argc + 1)])
        except (TooMany, Cut) as e:
            cov["undecided"].append(f"{f.path}: {type(e).__name__}")
            continue
        cov["methods"].append(short(f.path))
        cov["paths"] += len(outs)
        cov["cut_paths"] += T.cut

        def bad(e, kind, text, st):
            g, line = (e.fn, e.line) if e else (f, f.line)
            rep.viol(g.path, g.file, line, kind, text, entry=f.path, path=[f"{x.name.split('::')[-1]} at line {x.line}" for x in st.evs])
        for st, v in outs:
            if v[0] != "agg":
                cov["undecided"].append(f"{f.path}: result {v[0]}")
                continue
            cov["obligations"] += 8
            path_rules(f, st, v, bad, keys)
    for kind, d in keys.items():
        if len(d) > 1:
            (a, (e1, n1)), (b, (e2, n2)) = list(d.items())[:2]
            rep.viol(e2.fn.path, e2.fn.file, e2.line, "key-mismatch", f"entries are stored and looked up under different {kind} keys ({n1} line {e1.line}, {n2} line {e2.line})")
    rep.cov.update(cov)


def path_rules(f, st, v, bad, keys):
    evs = st.evs
    ok = v[2] == 0
    ios = [e for e in evs if IO.search(e.name) and not INFALLIBLE_IO.search(e.name)]
    muts = [e for e in evs if (mapop(e) in MUTATE or e.name == "write") and on_self(e)]
    gets = [e for e in evs if mapop(e) in ("get", "get_key_value", "get_mut", "contains_key") and on_self(e)]
    failed = [e for e in ios if variant(st, e.res) == 1]
    # error paths
    if not ok:
        for e in muts:
            bad(e, "changed-on-error", f"{short(f.path)} can fail after the index was changed here", st)
        p = v[3][0] if v[3] else None
        if failed and not any(contains(p, lambda x, e=e: x == e.res) for e in failed):
            bad(failed[-1], "error-lost", f"{short(f.path)} returns an error that does not come from the failed file operation", st)
        return
    # success after a failed operation that was not repeated
    for e in failed:
        later = [x for x in ios if evs.index(x) > evs.index(e) and x.name == e.name and variant(st, x.res) == 0]
        if not later:
            bad(e, "error-swallowed", f"{short(f.path)} succeeds although this file operation failed", st)
    # hashing
    reads = [e for e in evs if READ.search(e.name) and variant(st, e.res) == 0]
    finals = [e for e in evs if FINAL.search(e.name)]
    upds = [e for e in evs if UPDATE.search(e.name)]
    pos = {id(e): i for i, e in enumerate(evs)}
    whole = any(READALL.search(e.name) for e in evs)
    n = lambda e: ("fld", ("var", e.res, 0), 0)
    for i, r in enumerate(reads):
        nxt = pos[id(reads[i + 1])] if i + 1 < len(reads) else len(evs)
        z = zero(st, n(r))
        if z is True:
            continue
        if any(k[0] == "variant" and k[1] != r.res and contains(k[1], lambda x: x == n(r)) for k in st.dec):
            continue        # the slice of the bytes read was itself looked up and not there
        here = [u for u in upds if pos[id(r)] < pos[id(u)] < nxt]
        if not here:
            if finals and i + 1 == len(reads) and not whole:
                bad(r, "short-hash", "the hash is finished although the last read may have returned data that was not hashed", st)
            elif upds or finals:
                bad(r, "unhashed-bytes", "the bytes returned by this read are not hashed before the next read", st)
            continue
        for u in here:
            a = u.args[1] if len(u.args) > 1 else None
            rng = [x for x in subterms(a) if x and x[0] == "agg" and isinstance(x[1], str) and "::range::Range" in x[1]] if a else []
            if a is None or not contains(a, lambda x: x == r.res or (x[0] == "mut" and x[2] == r.res[2])):
                continue
            if rng:
                g = rng[0]
                exact = (g[1].endswith("::RangeTo") and g[3] == (n(r),)) or (g[1].endswith("::Range") and g[3] == (("int", 0), n(r)))
                if not exact and not g[1].endswith("::RangeFull"):
                    bad(u, "wrong-bytes", "the hashed range is not exactly the bytes the read returned", st)
                elif not exact:
                    bad(u, "wrong-bytes", "bytes beyond those the read returned are hashed", st)
            elif not contains(a, lambda x: x == n(r)):
                bad(u, "wrong-bytes", "bytes beyond those the read returned are hashed", st)
    if reads and finals and not whole:
        last = reads[-1]
        if zero(st, n(last)) is not True and [u for u in upds if pos[id(u)] > pos[id(last)]]:
            bad(last, "short-hash", "the hash is finished before a read returned zero bytes", st)
    for e in evs:
        if re.search(r"Read>?::take$", e.name):
            bad(e, "short-hash", "only a limited part of the content is hashed", st)
    for e in ios:
        if e.name.endswith(("File::open", "fs::read")) and e.args and not contains(e.args[0], lambda x: x[0] == "arg" and x[1] == 2):
            bad(e, "wrong-file", "the file opened is not the one asked about", st)
    # keys
    hits = []
    for e in gets + [m for m in muts if mapop(m) == "insert"]:
        k = e.args[1]
        kind = "name" if nameterm(k) else "hash" if contains(k, lambda x: x[0] == "call" and FINAL.search(x[1])) else None
        if kind == "name":
            keys.setdefault("name", {}).setdefault(canon(k), (e, mapop(e)))
            keys.setdefault("name map", {}).setdefault(canon(e.args[0]), (e, mapop(e)))
        elif kind == "hash":
            kc = re.sub(r"'(mut|bin|upd)'.*", "", repr([x[1] for x in subterms(k) if x and x[0] == "call" and "blake3" in str(x[1]) and "update" not in x[1] and "new" not in x[1]][:1]))
            keys.setdefault("content", {}).setdefault(kc, (e, mapop(e)))
            keys.setdefault("content map", {}).setdefault(canon(e.args[0]), (e, mapop(e)))
        elif mapop(e) == "insert" and not contains(k, lambda x: x[0] in ("mut", "undef", "upd")):
            bad(e, "wrong-key", "an entry is stored under a key that is neither the file name nor the content hash", st)
        if mapop(e) in ("get", "get_mut", "get_key_value") and variant(st, e.res) == 1 or mapop(e) == "contains_key" and st.dec.get(e.res) == 1:
            hits.append((e, kind))
    # a name hit reads nothing, and the name is tried before reading
    names = [e for e in gets if nameterm(e.args[1])]
    for e, kind in hits:
        if kind == "name" and ios:
            bad(ios[0], "read-on-name-hit", f"{short(f.path)} reads the file although its name is known", st)
    if gets and ios:
        named = [t for t in st.dec if t[0] == "variant" and t[1][0] == "call" and nameterm(t[1])]
        some = named and all(variant(st, t[1]) == 1 for t in named)
        if some and not any(pos[id(e)] < pos[id(ios[0])] for e in names):
            bad(ios[0], "read-before-name", f"{short(f.path)} reads the file before trying its name", st)
    p = v[3][0] if v[3] else None
    if p is None:
        return
    from_hit = [e for e, kind in hits if contains(p, lambda x, e=e: x == e.res)]
    if hits and from_hit and "index" not in f.path.split("::")[-1]:
        for m in muts:
            if mapop(m) in ("insert",) and contains(m.args[2], lambda x: x in [e.res for e in from_hit]):
                continue
        return
    # a new entry must be remembered under both
    ins = [m for m in muts if mapop(m) == "insert"]
    other = [m for m in muts if mapop(m) not in ("insert", None)]
    if other or whole and not ins:
        return
    hn = [m for m in ins if contains(m.args[1], lambda x: x[0] == "call" and FINAL.search(x[1]))]
    nm = [m for m in ins if nameterm(m.args[1])]
    unk = [m for m in ins if m not in hn and m not in nm]
    named = [t for t in st.dec if t[0] == "variant" and t[1][0] == "call" and nameterm(t[1]) and not mapname(t[1])]
    some = len(named) >= 2 and all(variant(st, t[1]) == 1 for t in named)
    if not hn and not unk and (reads or finals or not evs):
        bad(None, "not-remembered", f"{short(f.path)} succeeds without remembering the song under its content hash", st)
    if some and not nm and not unk:
        bad(None, "not-remembered", f"{short(f.path)} succeeds without remembering the song under its name", st)
    for m in ins:
        if len(m.args) > 2 and m.args[2] != p and not contains(m.args[2], lambda x: x[0] in ("undef", "upd")):
            bad(m, "wrong-value", f"the entry stored is not the identifier {short(f.path)} returns", st)
    if not contains(p, lambda x: x[0] == "arg" and x[1] == 2) and not from_hit:
        bad(None, "wrong-value", f"the identifier {short(f.path)} returns does not come from its path", st)


def mapname(t):
    return bool(MAP.search(t[1]))
