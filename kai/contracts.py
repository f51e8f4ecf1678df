"""Assume-guarantee summaries of kofft functions.  Each summary of a kofft function is verified at the
function's own root (specs.py); calls met elsewhere use the summary."""
from .poly import *
from .val import *
from .state import *
from .lib import need_slice, deref

ERRS = ("EmptyInput", "NonPowerOfTwoNoStd", "MismatchedLengths", "InvalidStride", "InvalidHopSize", "InvalidValue")
FE_PATH = "kofft::fft::FftError"


def errv(E, name):
    idx = E.memo.get("fftErr")
    if idx is None:
        idx = {}
        for t in E.tys:
            if t["k"] == "adt" and t.get("path") == FE_PATH:
                idx = {v["name"]: i for i, v in enumerate(t["variants"])}
        E.memo["fftErr"] = idx
    return Enum(FE_PATH, idx[name], ())


def fork(st, conds):
    """states satisfying all conds"""
    sts = [st]
    for c in conds:
        sts = [t for s in sts for t in assume(s.copy(), c)]
    return sts


def refresh_self(E, st, a):
    """the callee may leave any state in the instance behind &self"""
    v = a
    seen = 0
    while isinstance(v, Ref) and seen < 4:
        w = E.load(st, (v.base, v.path))
        if isinstance(w, Ref):
            v = w
            seen += 1
            continue
        if isinstance(w, Struct) and str(w.tag).endswith("ScalarFftImpl"):
            ty = E.memo.get(("self_ty", w.tag))
            E.uid += 1
            nv = rehist(E, st, w)
            E.store(st, (v.base, v.path), nv)
        return


def rehist(E, st, v):
    """fresh history value of the same shape"""
    if isinstance(v, Struct):
        return Struct(v.tag, tuple(rehist(E, st, x) for x in v.f))
    if isinstance(v, Vec):
        b = st.bufs.get(v.buf)
        if b is None:
            E.rd(st, v.buf, ZERO)
            b = st.bufs.get(v.buf)
        E.uid += 1
        n = E.fresh(f"hist{E.uid}.len", HIST, 0, LENMAX)
        root = b.root if b.root.startswith("hist") else "hist:scratch"
        return Vec(E.new_buf(st, b.ety, root, taint=frozenset({root}), length=n), n)
    if isinstance(v, MapV):
        return v
    return v


def twid_res(E, st, ety, n, label):
    bid = E.new_buf(st, ety, "table", taint=EMPTY, length=n)
    return BoxS(Slc(bid, ZERO, n))


def fft_inplace(E, st, cs, info, a, opaque=None):
    inst = info.get("inst")
    x = need_slice(E, st, a[1], True)
    if opaque is None:
        opaque = not (inst and inst in E.prog.fns)
    out = []
    E.event(st, cs, info, a)
    for s in fork(st, [("eq", x.len)]):
        out.append((s, err(errv(E, "EmptyInput"))))
    for s in fork(st, [("ge", x.len - 1)]):
        if opaque:
            s2 = s.copy()
            E.havoc_slice(s2, x, EMPTY, "fft")
            s2.note = s2.note | {"opaque_err"}
            out.append((s2, err(Top(0, "err", EMPTY, "input"))))
        elif not E.cfg.get("std", True):
            sp = fork(s, [("npow2", x.len)])
            for s2 in sp:
                E.havoc_slice(s2, x, EMPTY, "fft") if E.cfg.get("nostd_dirty") else None
                out.append((s2, err(errv(E, "NonPowerOfTwoNoStd"))))
            s_ = fork(s, [("pow2", x.len)])
            for s2 in s_:
                E.havoc_slice(s2, x, EMPTY, "fft")
                refresh_self(E, s2, a[0])
                out.append((s2, ok()))
            continue
        E.havoc_slice(s, x, EMPTY, "fft")
        refresh_self(E, s, a[0])
        out.append((s, ok()))
    return out


def fft_split_simd(E, st, cs, info, a):
    re, im = need_slice(E, st, a[1], True), need_slice(E, st, a[2], True)
    fr = cs.fr
    E.event(st, cs, info, a)
    out = []
    for s in fork(st, [("ne", re.len - im.len)]):       # not covered by the summary: its own body decides
        f = E.prog.fns.get(info.get("inst"))
        if f is None:
            return None
        out += E.exec_fn(f, a, s)
    for s in fork(st, [("eq", re.len - im.len)]):
        for s1 in fork(s, [("eq", re.len)]):
            out.append((s1, err(errv(E, "EmptyInput"))))
        for s1 in fork(s, [("ge", re.len - 1)]):
            t1 = E.range_of(s1, re)
            t2 = E.range_of(s1, im)
            sp = [s1] if E.cfg.get("std", True) else fork(s1, [("pow2", re.len)])
            if not E.cfg.get("std", True):
                for s2 in fork(s1, [("npow2", re.len)]):
                    out.append((s2, err(errv(E, "NonPowerOfTwoNoStd"))))
            for s2 in sp:
                E.havoc_slice(s2, re, t2, "fft")
                E.havoc_slice(s2, im, t1, "fft")
                refresh_self(E, s2, a[0])
                out.append((s2, ok()))
    return out


def get_twiddles(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    ety = E.tys[t["args"][0][1]]["e"]
    n = E.toint(a[1])
    h = E.mkdiv(st, n, P(2))
    E.event(st, cs, info, a)
    return [(st, twid_res(E, st, ety, h, "twiddles"))]


def rfft_get_twiddles(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    ety = E.tys[t["args"][0][1]]["e"]
    n = E.toint(a[1])
    E.event(st, cs, info, a)
    return [(st, twid_res(E, st, ety, n, "twiddles"))]


def get_bluestein(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    ety = E.tys[E.tys[t["f"][0]]["args"][0][1]]["e"]
    n = E.toint(a[1])
    E.event(st, cs, info, a)
    m = E.npot(st, n * 2 - 1)
    return [(st, Struct("tuple", (twid_res(E, st, ety, n, "chirp"), twid_res(E, st, ety, m, "bfft"))))]


def lookup(E, st, cs, info, a):
    t = E.tys[cs.dstty]
    arc = E.tys[t["args"][0][1]]
    ety = E.tys[arc["args"][0][1]]["e"]
    n = E.toint(a[0])
    s2 = st.copy()
    h = E.mkdiv(s2, n, P(2))
    return [(st, NONE), (s2, some(twid_res(E, s2, ety, h, "twiddles")))]


def opaque_method(E, st, cs, info, a):
    """a method of a caller-supplied FftImpl: may fail with any error, may write its &mut slices"""
    inst = info.get("inst")
    if inst and inst in E.prog.fns:
        return None
    E.event(st, cs, info, a)
    t = EMPTY
    for x in a[1:]:
        s = E.lib.as_slice(E, st, x) if isinstance(x, (Slc, Ref, Vec, Arr)) else None
        if s is not None:
            t = t | E.range_of(st, s)
    out = []
    s1 = st.copy()
    for q, r in ((s1, None), (st, ok())):
        for x in a[1:]:
            if isinstance(x, Slc) and x.mut or isinstance(x, Ref) and x.mut:
                E.havoc_arg(q, x, t)
        if r is None:
            q.note = q.note | {"opaque_err"}
            r = err(Top(0, "err", EMPTY, "input"))
        out.append((q, r))
    return out


SC = "kofft::<fft::ScalarFftImpl<T> as fft::FftImpl<T>>::"
TR = "kofft::fft::FftImpl::"
CONTRACTS = {
    SC + "fft": fft_inplace,
    SC + "ifft": fft_inplace,
    TR + "fft": fft_inplace,
    TR + "ifft": fft_inplace,
    **{TR + m: opaque_method for m in ("fft_strided", "ifft_strided", "fft_out_of_place_strided", "ifft_out_of_place_strided",
                                       "fft_with_strategy", "fft_out_of_place", "ifft_out_of_place", "fft_split", "ifft_split",
                                       "fft_strided_alloc", "ifft_strided_alloc")},
    **{"kofft::rfft::RealFftImpl::" + m: opaque_method for m in ("rfft_with_scratch", "irfft_with_scratch", "rfft", "irfft")},
    "kofft::fft::ScalarFftImpl::<f32>::fft_split_simd": fft_split_simd,
    "kofft::fft::ScalarFftImpl::<f64>::fft_split_simd": fft_split_simd,
    "kofft::fft::ScalarFftImpl::<T>::stockham_fft_with_threshold": fft_inplace,
    "kofft::fft::FftPlanner::<T>::get_twiddles": get_twiddles,
    "kofft::fft::FftPlanner::<T>::get_bluestein": get_bluestein,
    "kofft::fft::precomputed_twiddles::lookup_f32": lookup,
    "kofft::fft::precomputed_twiddles::lookup_f64": lookup,
}
