"""Ambient inputs: everything a computation can observe that is not one of its arguments."""
import re
from .graph import walk_consts

SOURCE = re.compile(
    r"^(std::(env|time|thread|process|net|fs|io|random)::|rand::|rand_core::|getrandom|num_cpus::|std::hash::random|"
    r"std::collections::hash_map::RandomState|core::sync::atomic::Atomic\w*::<?.*(load|swap|fetch_\w+|compare_\w+)$|"
    r"core::sync::atomic::Atomic::<\w+>::(load|swap|fetch_\w+|compare_\w+|update)|"
    r"rayon(_core)?::(current_|max_num|broadcast|ThreadPool)|core::hash::BuildHasher|std::thread::local|"
    r"core::ptr::.*::(addr|expose_provenance|expose_addr)$)")
MAPITER = re.compile(r"(HashMap|HashSet)::<.*>::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if)$")
UNORDERED = re.compile(r"(rayon::iter::ParallelIterator::(reduce|reduce_with|sum|product|fold|fold_with|try_fold|try_reduce|try_reduce_with|"
                       r"find_any|find_map_any|min|max|any|for_each_with|for_each_init|map_with|map_init|try_for_each_with)|"
                       r"rayon::iter::.*::(reduce|reduce_with|sum|product|fold|find_any|find_map_any|position_any|try_fold|try_reduce))$")
FLOATS = re.compile(r"\bf(32|64)\b")


def source(prog, fn, c):
    """(kind, text) if this call reads something ambient"""
    n = c.callee or ""
    if SOURCE.search(n):
        return "ambient", n
    if MAPITER.search(n):
        return "map-order", n
    if n.endswith("IntoIterator::into_iter") and re.search(r"\|&?(mut )?(hashbrown::map|std::collections::hash::\w+)::Hash(Map|Set)<", (c.inst or "").replace("'_ ", "")):
        return "map-order", n
    if UNORDERED.search(n):
        args = " ".join(prog.tys[a[1]]["s"] for a in c.info.get("args", ()) if a[0] == "t")
        dst = prog.tys[fn.locals[c.term[3][0]][0]]["s"]
        if FLOATS.search(dst) or "Complex" in dst or "_any" in n or n.endswith(("_with", "_init")):
            return "unordered-reduction", n
    return None


def static_reads(prog, fn):
    for b in fn.blocks:
        if b["c"]:
            continue
        for c in walk_consts([b["s"], b["t"]]):
            if "static" in c:
                yield c["static"], c["ty"]


PLAIN = re.compile(r"^(bool|u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|\(\)|!)$")


def decision(prog, fn):
    """a function that can only tell its caller a number or a yes/no and takes no data buffer"""
    ret = prog.tys[fn.locals[0][0]]["s"]
    ret = re.sub(r"^core::option::Option<(.*)>$", r"\1", ret)
    if not PLAIN.match(ret) or ret == "()" and fn.argc:
        if not (ret == "()" and all(PLAIN.match(prog.tys[fn.locals[i][0]]["s"]) for i in range(1, fn.argc + 1))):
            return False
    for i in range(1, fn.argc + 1):
        t = prog.tys[fn.locals[i][0]]
        if t["k"] in ("ref", "ptr") and t.get("mut"):
            return False
        if FLOATS.search(t["s"]) and t["k"] in ("ref", "ptr", "adt"):
            return False
    return True
