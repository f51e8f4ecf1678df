"""Effect analysis over the call graph of the type-checked program: from every entry point documented as stack-only or as working in
caller-provided scratch, every reachable call is classified as allocating or not, from the resolved callee and its type arguments.
The first class of entry points must reach no allocating call at all; for the second class the caller's transform object, which owns
its own planner, and the planner's table lookups are outside the promise and not followed."""
import re
from kai.mir import Prog
from .graph import Graph, short
from .absint import configs

ASSUMPTIONS = ("functions of core and of the floating-point libraries do not allocate", "panicking paths are not normal completion")

ABSOLUTE = re.compile(r"(_stack|_stack_fft|goertzel::goertzel_f32|fft_kernels::fft\d+|num::copy_(from|to)_complex|SplitComplex::<'a, T>::\w+|"
                      r"num::Complex::<T>::\w+)$")
SCRATCH = re.compile(r"(stft::frame|stft::inverse_frame|stft::istft|StftStream::<'a, Fft>::(new|next_frame)|IstftStream::<'a, Fft>::flush|"
                     r"ndfft::fft[23]d_inplace|FftImpl<\w+>>::i?fft_strided|fft::FftImpl::i?fft_out_of_place|"
                     r"RfftPlanner::<T>::i?rfft_with_scratch|i?rfft_with_scratch_impl|rfft::i?rfft_packed|fft::TwiddleFactorBuffer::get|num::ComplexVec::(as_mut_slices|as_slices|len|is_empty)|"
                     r"visual::spectrogram::(map_color_u\d+|color_from_magnitude_u\d+|db_scale|magnitude_to_db|map_bin_to_pixel))$")
STOP = re.compile(r"(FftImpl<\w+>>::i?fft|FftPlanner::<T>::get_\w+|RfftPlanner::<T>::get_\w+|::load_precomputed)$")
GROWING = re.compile(r"Vec::<T, A>::(push|resize|resize_with|reserve|reserve_exact|extend_from_slice|insert|append|split_off|extend_from_within|"
                     r"push_within_capacity|shrink_to_fit|into_boxed_slice)$")
MAKING = re.compile(r"(Vec::<T>::with_capacity|vec::from_elem|boxed::Box::<.*>::(new|pin|new_uninit|new_zeroed|new_uninit_slice)|Arc::<.*>::new|Rc::<.*>::new|"
                    r"slice::<impl \[T\]>::(to_vec|into_vec|repeat|concat|join)|borrow::ToOwned::to_owned|string::ToString::to_string|"
                    r"fmt::format|String.*::(push|push_str|from|to_owned|with_capacity|insert|reserve)|str::<impl str>::(to_\w+|repeat|replace)|"
                    r"box_new|exchange_malloc|alloc::alloc::alloc\w*|std::env::var\w*|std::thread::\w+|HashMap::<.*>::(insert|entry|reserve|with_capacity)|"
                    r"rayon.*)$")
OWNED = re.compile(r"(alloc::vec::Vec<|alloc::string::String|alloc::boxed::Box<|std::collections|hashbrown|BTree|VecDeque)")


def allocating(c):
    """why this call may allocate, or None"""
    n = c.callee
    if n is None:
        return None
    if GROWING.search(n):
        return "grows a vector"
    if MAKING.search(n):
        return "allocates"
    inst = (c.inst or "")
    args = inst.split("|", 1)[1] if "|" in inst else ""
    if n.endswith(("Iterator::collect", "FromIterator::from_iter", "ParallelIterator::collect", "Iterator::partition", "Iterator::unzip")):
        return "collects into " + args.split(",")[-1] if OWNED.search(args) else None
    if n.endswith("Clone::clone") or n.endswith("Clone::clone_from"):
        recv = inst.split("|", 1)[0] + "|" + args
        if re.match(r"<alloc::(vec::Vec|string::String|boxed::Box)", recv) or re.match(r"<std::collections|<hashbrown", recv):
            return "clones an owned buffer"
        return None
    if n.endswith(("convert::From::from", "convert::Into::into")) and re.match(r"<alloc::(vec|string|boxed|sync|rc)", inst):
        return "converts into an owned buffer"
    if n.endswith("Extend::extend"):
        return "extends a collection"
    return None


def run(w, rep, tier):
    tot = {"entry_points": 0, "functions": set(), "call_sites": 0}
    for cfg, _ in configs(tier):
        prog = Prog(w.kofft(cfg))
        g = Graph(prog)
        for k, f in sorted(prog.fns.items()):
            if f.d.get("closure") or not f.d.get("exported"):
                continue
            p = f.path
            strict = bool(ABSOLUTE.search(p))
            if not strict and not SCRATCH.search(p):
                continue
            tot["entry_points"] += 1

            def stop(y):
                return not strict and bool(STOP.search(prog.fns[y].path))
            paths = g.reach(k, stop)
            for y, path in paths.items():
                tot["functions"].add((cfg, y))
                for c in g.calls(prog.fns[y]):
                    tot["call_sites"] += 1
                    why = allocating(c)
                    if why:
                        rep.viol(p, prog.fns[y].file, c.line, "allocation",
                                 f"{short(k)} must not allocate but reaches {c.callee} ({why})", path=[short(x) for x in path], config=cfg)
        if cfg in ("all", "nostd") and sum(1 for f in prog.fns.values() if ABSOLUTE.search(f.path)) < 12:
            raise RuntimeError("the stack-only entry points are no longer found under their documented names")
    rep.cov.update(entry_points=tot["entry_points"], functions_reached=len(tot["functions"]), call_sites_classified=tot["call_sites"])
