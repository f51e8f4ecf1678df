"""What the public calls promise: error conditions, preserved buffers, result shapes.
Arguments are addressed by position (0 = first parameter) so that renaming a parameter changes nothing."""
import re
from .poly import *
from .val import *

EMPTY_, MISM, STRIDE, HOP, INVAL, NP2 = ("EmptyInput", "MismatchedLengths", "InvalidStride", "InvalidHopSize", "InvalidValue", "NonPowerOfTwoNoStd")


def eq(p):
    return ("eq", P(p))


def ne(p):
    return ("ne", P(p))


def ge(a, b):
    return ("ge", P(a) - P(b))


def lt(a, b):
    return ("ge", P(b) - P(a) - 1)


def And(*c):
    r = c[0]
    for x in c[1:]:
        r = ("and", r, x)
    return r


def Or(*c):
    r = c[0]
    for x in c[1:]:
        r = ("or", r, x)
    return r


class X:
    """view of a root's arguments"""

    def __init__(self, E, st, fn, args):
        self.E, self.st, self.fn, self.args = E, st, fn, args

    def len(self, i):
        s = self.E.lib.as_slice(self.E, self.st, self.args[i])
        if s is None:
            raise LookupError(f"argument {i} is not a sequence")
        return s.len

    def int(self, i):
        v = self.args[i]
        if not isinstance(v, Poly):
            raise LookupError(f"argument {i} is not an integer")
        return v

    def field(self, i, *names):
        v = self.args[i]
        t = self.E.tys
        ty = self.fn.locals[i + 1][0]
        while isinstance(v, Ref):
            v = self.E.load(self.st, (v.base, v.path))
            ty = t[ty]["e"]
        for n in names:
            if not isinstance(v, Struct):
                raise LookupError(f"no field {n}")
            fs = t[ty]["variants"][0]["fields"]
            ix = [k for k, f in enumerate(fs) if f[0] == n]
            if not ix:
                raise LookupError(f"no field {n}")
            v = v.f[ix[0]]
            ty = fs[ix[0]][1]
            while isinstance(v, Ref):
                v = self.E.load(self.st, (v.base, v.path))
                ty = t[ty]["e"]
        return v

    def flen(self, i, *names):
        v = self.field(i, *names)
        s = self.E.lib.as_slice(self.E, self.st, v)
        if s is None:
            raise LookupError("not a sequence")
        return s.len

    def clen(self, i):
        """length of a fixed-size array behind argument i"""
        return self.len(i)

    def overflow(self, a, b):
        """a * b does not fit (for nonzero factors checked left to right)"""
        return ("ge", P(a) * P(b) - (1 << 64))

    def div(self, a, b):
        return self.E.mkdiv(self.st, P(a), P(b))


class Spec:
    """errs: [(variant, condition)] -- each error is returned exactly when its condition holds (earlier or later conditions may
    take precedence); loose: variants that may additionally be returned (conditions about elements); keep: argument positions
    that must not be modified when an error is returned; ret: expected length(s) of the returned value."""

    def __init__(self, errs=None, loose=(), keep=(), ret=None, scratch=(), out=(), inout=(), fallible=True, pre=(), nokeep=(), may=()):
        self.errs, self.loose, self.keep, self.ret = errs, set(loose), keep, ret
        self.scratch, self.out, self.inout, self.fallible, self.pre, self.nokeep, self.may = scratch, out, inout, fallible, pre, nokeep, may


def inplace(i=1):
    def f(x):
        return Spec([(EMPTY_, eq(x.len(i)))], keep=(i,), inout=(i,))
    return f


def s_outofplace(x):
    return Spec([(MISM, ne(x.len(1) - x.len(2))), (EMPTY_, eq(x.len(1)))], keep=(1, 2), out=(2,))


def s_strided(x):
    n, st, sc = x.len(1), x.int(2), x.len(3)
    return Spec([(STRIDE, eq(st)), (MISM, And(ge(sc, 1), lt(n, (sc - 1) * st + 1)))], keep=(1, 3), inout=(1,), scratch=(3,))


def s_strided_alloc(x):
    # scratch is derived from the input: only the stride can be wrong
    return Spec([(STRIDE, eq(x.int(2)))], keep=(1,), inout=(1,))


def s_oop_strided(x):
    n, si, m, so = x.len(1), x.int(2), x.len(3), x.int(4)
    q1, q2 = x.div(n, si), x.div(m, so)
    bad = Or(eq(si), eq(so), And(ge(si, 1), ne(n - q1 * si)), And(ge(so, 1), ne(m - q2 * so)))
    return Spec([(STRIDE, bad), (MISM, And(ge(si, 1), ge(so, 1), ne(q1 - q2))), (EMPTY_, Or(eq(n), eq(m)))], keep=(1, 3), out=(3,))


def s_split(a, b):
    def f(x):
        return Spec([(MISM, ne(x.len(a) - x.len(b))), (EMPTY_, Or(eq(x.len(a)), eq(x.len(b))))], keep=(a, b), inout=(a, b))
    return f


def s_split_complex(x):
    re_, im = x.flen(0, "re"), x.flen(0, "im")
    return Spec([(MISM, ne(re_ - im)), (EMPTY_, Or(eq(re_), eq(im)))], keep=(0,), inout=(0,))


def s_free_inplace(x):
    return inplace(0)(x)


def s_plan(x):
    n = x.field(0, "n")
    return Spec([(MISM, ne(x.len(1) - n)), (EMPTY_, eq(x.len(1)))], keep=(1,), inout=(1,))


def s_plan_oop(x):
    n = x.field(0, "n")
    return Spec([(MISM, Or(ne(x.len(1) - n), ne(x.len(2) - n))), (EMPTY_, Or(eq(x.len(1)), eq(x.len(2))))], keep=(1, 2), out=(2,))


def s_plan_split(x):
    n = x.field(0, "n")
    return Spec([(MISM, Or(ne(x.len(1) - n), ne(x.len(2) - n))), (EMPTY_, Or(eq(x.len(1)), eq(x.len(2))))], keep=(1, 2), inout=(1, 2))


def s_plan_vec(x):
    n = x.field(0, "n")
    a, b = x.flen(1, "re"), x.flen(1, "im")
    return Spec([(MISM, Or(ne(a - n), ne(b - n))), (EMPTY_, Or(eq(a), eq(b)))], keep=(1,), inout=(1,))


def s_vec_fft(x):
    return Spec([(EMPTY_, eq(x.len(1)))], ret={(): x.len(1)})


def s_inplace_stack(x):
    n = x.len(0)
    return Spec([(EMPTY_, eq(n)), (NP2, And(ge(n, 1), ("npow2", n)))], keep=(0,), inout=(0,))


def rfft_args(i_in, i_out, i_scratch, inverse):
    def f(x):
        n = x.len(i_out if inverse else i_in)
        m = x.len(i_in if inverse else i_out)
        h = x.div(n, 2)
        odd = ne(n - h * 2)
        bad = ne(m - h - 1)
        if i_scratch is not None:
            bad = Or(bad, lt(x.len(i_scratch), h))
        # "empty" and "odd" are about the real length; the complex side is reported as mismatched
        keep = (i_in, i_out) + ((i_scratch,) if i_scratch is not None else ())
        return Spec([(EMPTY_, eq(n)), (INVAL, odd), (MISM, bad)], keep=keep, out=(i_out,),
                    scratch=(i_scratch,) if i_scratch is not None else ())
    return f


def s_rfft_stack(x):
    n, m = x.len(0), x.len(1)
    h = x.div(n, 2)
    return Spec([(EMPTY_, eq(n)), (MISM, ne(m - h - 1)), (NP2, And(ge(n, 1), ("npow2", n)))], keep=(0, 1), out=(1,))


def s_irfft_stack(x):
    n, m = x.len(1), x.len(0)
    h = x.div(n, 2)
    return Spec([(EMPTY_, eq(n)), (MISM, ne(m - h - 1)), (NP2, And(ge(n, 1), ("npow2", n)))], keep=(0, 1), out=(1,))


def s_flatten(x):
    return Spec([], loose=(MISM,), keep=())


def s_fft2d(x):
    n, r, c, s = x.len(0), x.int(1), x.int(2), x.len(4)
    nz = And(ge(r, 1), ge(c, 1))
    return Spec([(MISM, Or(ne(n - r * c), And(nz, ne(s - r))))], keep=(0, 4), inout=(0,), scratch=(4,))


def s_fft3d(x):
    n, d, r, c = x.len(0), x.int(1), x.int(2), x.int(3)
    t, rw, cl = (x.flen(5, k) for k in ("tube", "row", "col"))
    nz = And(ge(d, 1), ge(r, 1), ge(c, 1))
    return Spec([(MISM, Or(ne(n - d * r * c), And(nz, Or(ne(t - d), ne(rw - r), ne(cl - c)))))], keep=(0, 5), inout=(0,), scratch=(5,), may=[(MISM, Or(x.overflow(d, r), x.overflow(r, c)))])


def s_goertzel(x):
    return Spec([(EMPTY_, eq(x.len(0)))], loose=(INVAL,))


def s_hilbert(x):
    n = x.len(0)
    return Spec([(EMPTY_, eq(n)), (NP2, And(ge(n, 1), ("npow2", n)))], ret={(): n})


def s_mfcc(x):
    n, mel, c = x.len(0), x.int(2), x.int(3)
    return Spec([(INVAL, lt(mel, c))], ret={(): c})


def s_mfcc_batch(x):
    return Spec([], loose=(INVAL,), ret={(): x.len(0)})


def s_stft(x):
    sig, hop, out = x.len(0), x.int(2), x.len(3)
    q = x.div(sig + hop - 1, hop)
    return Spec([(HOP, eq(hop)), (MISM, And(ge(hop, 1), lt(out, q))), (EMPTY_, And(eq(x.len(1)), ge(out, 1)))], keep=(3,))


def s_parallel(x):
    sig, hop, out, win = x.len(0), x.int(2), x.len(3), x.len(1)
    q = x.div(sig + hop - 1, hop)
    return Spec([(HOP, eq(hop)), (MISM, And(ge(hop, 1), lt(out, q))), (EMPTY_, And(eq(win), ge(out, 1)))], keep=(3,))


def s_istft(x):
    hop, out, scr = x.int(2), x.len(3), x.len(4)
    return Spec([(HOP, eq(hop)), (MISM, ne(out - scr))], loose=(MISM, EMPTY_), keep=(0, 3, 4), scratch=(4,))


def s_inverse_parallel(x):
    hop = x.int(2)
    return Spec([(HOP, eq(hop))], loose=(MISM, EMPTY_), keep=(3,))


def s_frame(x):
    win, fr = x.len(1), x.len(3)
    return Spec([(MISM, ne(win - fr)), (EMPTY_, eq(fr))], keep=(3,), out=(3,))


def s_inverse_frame(x):
    fr, win = x.len(0), x.len(1)
    return Spec([(MISM, ne(win - fr)), (EMPTY_, eq(fr))], keep=(0, 3), inout=(0, 3))


def s_stream_new(x):
    return Spec([(HOP, eq(x.int(2)))])


def s_next_frame(x):
    w = x.flen(0, "window")
    return Spec([(MISM, ne(x.len(1) - w))], loose=(EMPTY_,), keep=(0, 1), out=(1,))


def s_istream_new(x):
    return Spec([(HOP, eq(x.int(1))), (MISM, ne(x.len(2) - x.int(0)))])


def s_push_frame(x):
    w = x.field(0, "win_len")
    return Spec([(MISM, ne(x.len(1) - w))], loose=(EMPTY_,), keep=(0,), ret={(): x.field(0, "hop")})


def s_haar_fwd_stack(x):
    return Spec(fallible=False, out=(1, 2))


def same_len(i=0):
    def f(x):
        return Spec(fallible=False, ret={(): x.len(i)})
    return f


def int_len(i=0):
    def f(x):
        return Spec(fallible=False, ret={(): x.int(i)})
    return f


def half_len(x):
    h = x.div(x.len(0), 2)
    return Spec(fallible=False, ret={(0,): h, (1,): h})


def dbl_len(x):
    # the two halves come from one forward step and have equal lengths
    return Spec(fallible=False, ret={(): x.len(0) * 2}, pre=(eq(x.len(0) - x.len(1)),))


def s_tfb_get(x):
    n = x.field(0, "n")
    return Spec(fallible=False, pre=(ge(n, 2), eq(x.flen(0, "twiddles") - x.div(n, 2))))


def pre_vec(i=0):
    def f(x):
        return Spec(fallible=False, pre=(eq(x.flen(i, "re") - x.flen(i, "im")),))
    return f


def two_same(x):
    return Spec(fallible=False, ret={(0,): x.len(0), (1,): x.len(0)})


def s_mags(x):
    n, w, h = x.len(0), x.int(1), x.int(2)
    return Spec(fallible=False, ret={(0,): x.div(n + h - 1, h)})


def out_only(*pos):
    def f(x):
        return Spec(fallible=False, out=pos)
    return f


def s_conv(x):
    return Spec(fallible=False, ret={(): x.len(0)})


def s_vecnew(x):
    return Spec(fallible=False, ret={("re",): x.len(0), ("im",): x.len(0)})


T = [
    (r"fft::.*FftImpl.*::i?fft$", inplace(1)),
    (r"fft::ScalarFftImpl::<T>::(stockham_fft|fft_radix4)$", inplace(1)),
    (r"fft::ScalarFftImpl::<f32>::(fft_radix[24]_with_twiddles|fft_mixed_radix(_with_twiddles)?)$", inplace(1)),
    (r"fft::ScalarFftImpl::<f(32|64)>::fft_split_simd$", lambda x: Spec(fallible=False, pre=(eq(x.len(1) - x.len(2)),))),
    (r"fft::.*FftImpl.*::fft_with_strategy$", inplace(1)),
    (r"fft::.*FftImpl.*::i?fft_out_of_place$", s_outofplace),
    (r"fft::.*FftImpl.*::i?fft_strided$", s_strided),
    (r"fft::.*FftImpl.*::i?fft_strided_alloc$", s_strided_alloc),
    (r"fft::.*FftImpl.*::i?fft_out_of_place_strided$", s_oop_strided),
    (r"fft::.*FftImpl.*::i?fft_split$", s_split(1, 2)),
    (r"fft::ScalarFftImpl::<T>::i?fft_vec$", s_vec_fft),
    (r"fft::i?fft_parallel$", s_free_inplace),
    (r"fft::i?fft_split$", s_split(0, 1)),
    (r"fft::i?fft_split_complex$", s_split_complex),
    (r"fft::i?fft_complex_vec$", s_split_complex),
    (r"fft::FftPlan::<T>::i?fft$", s_plan),
    (r"fft::FftPlan::<T>::i?fft_out_of_place$", s_plan_oop),
    (r"fft::FftPlan::<T>::i?fft_split$", s_plan_split),
    (r"fft::FftPlan::<f32>::i?fft_complex_vec$", s_plan_vec),
    (r"fft::i?fft_inplace_stack$", s_inplace_stack),
    (r"rfft::rfft_packed$", rfft_args(2, 3, 4, False)),
    (r"rfft::irfft_packed$", rfft_args(2, 3, 4, True)),
    (r"rfft::RfftPlanner::<T>::rfft_with_scratch$", rfft_args(2, 3, 4, False)),
    (r"rfft::RfftPlanner::<T>::irfft_with_scratch$", rfft_args(2, 3, 4, True)),
    (r"rfft::RfftPlanner::<T>::rfft$", rfft_args(2, 3, None, False)),
    (r"rfft::RfftPlanner::<T>::irfft$", rfft_args(2, 3, None, True)),
    (r"rfft::RealFftImpl::rfft_with_scratch$", rfft_args(1, 2, 3, False)),
    (r"rfft::RealFftImpl::irfft_with_scratch$", rfft_args(1, 2, 3, True)),
    (r"rfft::RealFftImpl::rfft$", rfft_args(1, 2, None, False)),
    (r"rfft::RealFftImpl::irfft$", rfft_args(1, 2, None, True)),
    (r"rfft::rfft_stack$", s_rfft_stack),
    (r"rfft::irfft_stack$", s_irfft_stack),
    (r"ndfft::flatten_[23]d$", s_flatten),
    (r"ndfft::fft2d_inplace$", s_fft2d),
    (r"ndfft::fft3d_inplace$", s_fft3d),
    (r"goertzel::goertzel_f32$", s_goertzel),
    (r"hilbert::hilbert_analytic$", s_hilbert),
    (r"cepstrum::real_cepstrum$", s_hilbert),
    (r"cepstrum::mfcc$", s_mfcc),
    (r"cepstrum::mfcc_batch$", s_mfcc_batch),
    (r"stft::stft$", s_stft),
    (r"stft::istft$", s_istft),
    (r"stft::parallel$", s_parallel),
    (r"stft::inverse_parallel$", s_inverse_parallel),
    (r"stft::frame$", s_frame),
    (r"stft::inverse_frame$", s_inverse_frame),
    (r"stft::StftStream.*::new$", s_stream_new),
    (r"stft::StftStream.*::next_frame$", s_next_frame),
    (r"stft::IstftStream.*::new$", s_istream_new),
    (r"stft::IstftStream.*::push_frame$", s_push_frame),
    # infallible, shape only
    (r"dct::(slow::)?dct[1-4]$", same_len(0)),
    (r"dst::dst[1-4]$", same_len(0)),
    (r"hartley::dht$", same_len(0)),
    (r"window::(hann|hamming|blackman|kaiser)$", int_len(0)),
    (r"window_more::(tukey|bartlett|bohman|nuttall)$", int_len(0)),
    (r"czt::czt_f32$", int_len(1)),
    (r"wavelet::(haar|db2|db4|sym4|coif1)_forward$", half_len),
    (r"wavelet::(haar|db2|db4|sym4|coif1)_inverse$", dbl_len),
    (r"wavelet::(batch_forward|db2_forward_batch)$", two_same),
    (r"wavelet::(batch_inverse|db2_inverse_batch)$", same_len(0)),
    (r"visual::spectrogram::stft_magnitudes$", s_mags),
    (r"dct::DctPlanner::plan_dct2$", int_len(1)),
    (r"dst::DstPlanner::<T>::plan_dst[234]$", int_len(1)),
    (r"dst::DstPlanner::<T>::scratch$", int_len(1)),
    (r"cepstrum::mel_filterbank$", int_len(2)),
    (r"num::ComplexVec::from_complex_vec$", s_vecnew),
    (r"num::ComplexVec::to_complex_vec$", lambda x: Spec(fallible=False, ret={(): x.flen(0, "re")}, pre=(eq(x.flen(0, "re") - x.flen(0, "im")),))),
    (r"num::<impl core::convert::From<num::ComplexVec> for .*>::from$", pre_vec(0)),
    (r"fft::TwiddleFactorBuffer::get$", s_tfb_get),
    (r"(dct|dst)::d[cs]t[1-4]_inplace_stack(_fft)?$", out_only(1)),
    (r"window::\w+_inplace_stack$", out_only(0)),
    (r"wavelet::haar_forward_inplace_stack$", out_only(1, 2)),
    (r"wavelet::haar_inverse_inplace_stack$", out_only(2)),
]
TC = [(re.compile("^(?:.*?)" + r), f) for r, f in T]


def spec_for(path):
    p = path.replace("kofft::", "", 1)
    for r, f in TC:
        if r.match(p):
            return f
    return None


# documented argument assertions of infallible calls: (path regex, obligation kinds)
ASSERTS = [re.compile(r) for r in (
    r"kofft::fft_kernels::fft(2|4|8|16)$",
    r"kofft::num::(SplitComplex::<'a, T>::)?copy_(from|to)_complex$",
    r"kofft::num::(SplitComplex::<'a, T>|ComplexVec)::new$",
    r"kofft::fft::(complex32_to_split|split_to_complex32)$",
    r"kofft::wavelet::haar_(forward|inverse)_inplace_stack$",
    r"kofft::(dct|dst)::\w+_inplace_stack\w*$",
)]


def assert_allowed(path):
    return any(r.match(path) for r in ASSERTS)


# integer arguments that are strides, positions or dimensions and may take any value; every other integer argument is a
# count or an allocation size and is assumed to be at most poly.LENMAX
UNCAPPED = [(re.compile(r), set(p)) for r, p in (
    (r"kofft::fft::.*::i?fft_strided(_alloc)?$", (2,)),
    (r"kofft::fft::.*::i?fft_out_of_place_strided$", (2, 4)),
    (r"kofft::ndfft::fft2d_inplace$", (1, 2)),
    (r"kofft::ndfft::fft3d_inplace$", (1, 2, 3)),
    (r"kofft::stft::(stft|istft|parallel|inverse_parallel)$", (2,)),
    (r"kofft::stft::(frame|inverse_frame)$", (2,)),
    (r"kofft::stft::StftStream.*::new$", (2,)),
    (r"kofft::visual::spectrogram::stft_magnitudes$", (2,)),
    (r"kofft::fft::TwiddleFactorBuffer::get$", (1,)),
    (r"kofft::fft::set_parallel_.*$", (0,)),
    (r"kofft::visual::spectrogram::map_bin_to_pixel$", (0,)),
)]


def uncapped(path):
    for r, p in UNCAPPED:
        if r.match(path):
            return p
    return ()


# roots that are not analysed for panics: their preconditions are part of their (internal) contract
SKIP_ROOT = [re.compile(r) for r in (
    r".* as core::(fmt|clone|cmp|hash)::.*",
    r"kofft::<f(32|64) as rfft::RealFftNum>::.*_impl$",
    r"kofft::add$",
    r"kofft::wavelet::(db2_)?(batch_inverse|inverse_batch)$",
)]


def skip_root(path):
    return any(r.match(path) for r in SKIP_ROOT)
