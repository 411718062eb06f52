"""K01: synchrosqueezing does not depend on threads."""
import numpy as np
from .kbase import KProp, cplx, real, signal


def freqs_of(p):
    na, kind = p['na'], p['scale']
    if kind == 'lin':
        return 1.5 + .5 * np.arange(na)
    if kind == 'log':
        return .01 * 2. ** (np.arange(na) / p['nv'])
    i = min(max(2, na // 3), na - 2)              # low part: larger steps
    d = np.r_[np.full(i - 1, 3. / p['nv']), np.full(na - i, 1. / p['nv'])]
    return .01 * 2. ** np.r_[0, np.cumsum(d)]


def gen_plane(r, big, tier):
    p = dict(na=r.randint(2, 14), n=r.randint(1, 24), scale=r.choice(
             ['log', 'lin', 'logpw']), nv=r.choice([4, 8, 16, 32]),
             prec=r.choice(['single', 'double']), flipud=r.random() < .5,
             const=r.choice(['scalar', 'array']), prefill=r.random() < .25,
             hit=r.choice(['random', 'one_bin', 'near', 'two']), odd=r.random() < .2,
             exact=r.random() < .4)
    if big:
        p['na'], p['n'] = r.randint(20, 300), r.randint(50, 4000)
    if p['scale'] == 'logpw':
        p['na'] = max(p['na'], 8)
    return p


def plane(p, rng):
    na, n = p['na'], p['n']
    f = freqs_of(p)
    b = {'random': lambda: rng.integers(0, na, (na, n)),
         'one_bin': lambda: np.broadcast_to(rng.integers(0, na, (1, n)), (na, n)),
         'two': lambda: rng.integers(0, na, 2)[rng.integers(0, 2, (na, n))],
         'near': lambda: np.clip(np.arange(na)[:, None] + rng.integers(-2, 3, (na, n)),
                                 0, na - 1)}[p['hit']]().copy()
    # exact: frequencies of bins, so the same values come again and again
    jit = rng.uniform(-.4, .4, (na, n)) * (not p['exact'])
    if p['scale'] == 'lin':
        w = f[b] + jit * (f[1] - f[0])
    else:
        d = np.diff(np.log2(f))
        step = np.minimum(d[np.clip(b - 1, 0, na - 2)], d[np.clip(b, 0, na - 2)])
        w = f[b] * 2 ** (jit * step)
    out = rng.random((na, n))
    lo, hi = out < .04, out > .96
    w[lo], b[lo] = f[0] / (4 if p['scale'] != 'lin' else 2), 0
    w[hi], b[hi] = f[-1] * 4, na - 1
    Wx = cplx(rng, (na, n), p['prec'])
    Wx += (.5 * Wx / np.abs(Wx)).astype(Wx.dtype)     # |Wx| >= .5
    small = rng.random((na, n)) < .2
    Wx[small] *= 1e-3
    const = (float(rng.uniform(.1, 2)) if p['const'] == 'scalar' else
             rng.uniform(.1, 2, na))
    return f, b, w, Wx, const


def expect(b, Wx, const, keep, flip, out0):
    out = out0.astype('complex128')
    na, n = Wx.shape
    c = np.broadcast_to(np.asarray(const).reshape(-1, 1), (na, n))
    k = (na - 1 - b) if flip else b
    j = np.broadcast_to(np.arange(n), (na, n))
    np.add.at(out, (k[keep], j[keep]), (Wx * c)[keep])
    return out.astype(out0.dtype)


def fill(p, rng, shape, dtype):
    if p['prefill']:
        return cplx(rng, shape, p['prec']).astype(dtype)
    return np.zeros(shape, dtype)


def odd(p, rng, b, w):
    """Positions made NaN, and made huge (they belong to the last bin)."""
    nan, huge = [rng.random(w.shape) < .05 for _ in range(2)]
    if not p['odd']:
        nan[:] = huge[:] = False
    huge &= ~nan
    b[huge] = len(w) - 1
    return nan, huge


def guarded(out0, prefill):
    """The output with room on both sides, to see writes out of bounds."""
    if not prefill:
        return None, lambda T: T
    na = len(out0)
    buf = np.zeros((4 * na, out0.shape[1]), out0.dtype)
    buf[na:2 * na] = out0
    return buf[na:2 * na], lambda T: [buf[:na], buf[na:2 * na], buf[2 * na:]]


def guarded_model(T, prefill):
    na, n = T.shape
    z = lambda k: np.zeros((k, n), T.dtype)
    return [z(na), T, z(2 * na)] if prefill else T


class F:
    mtol = None

    def __init__(self, f, expect=None, mtol=None, cmp=None):
        self.f, self.mtol = f, mtol
        if cmp:
            self.cmp = cmp
        if expect:
            self.expect = expect

    def __call__(self, par):
        return self.f(par)


def binnable(p, f):
    """Is a piecewise-log axis recognized as such? (exactness of its spacing decides)"""
    if p['scale'] != 'logpw':
        return True
    from ssqueezepy.utils import logscale_transition_idx
    na = p['na']
    return logscale_transition_idx(f) == min(max(2, na // 3), na - 2)


def mtol(p):
    return 2e-5 if p['prec'] == 'single' else 1e-11


def make_fast(p, rng):
    f, b, w, Wx, const = plane(p, rng)
    gamma = .1
    Sfs = None
    if p['sfs'] and p['scale'] == 'lin':
        Sfs = np.linspace(0, 9, p['na']).astype(Wx.real.dtype)
        dWx = (2j * np.pi * (Sfs[:, None].astype('float64') - w) * Wx).astype(Wx.dtype)
    else:
        dWx = (2j * np.pi * w * Wx * (-1 if p['neg'] else 1)).astype(Wx.dtype)
    nan, huge = odd(p, rng, b, w)
    dWx[nan], dWx[huge] = np.nan, 1e30j * Wx[huge]
    out0 = fill(p, rng, Wx.shape, Wx.dtype)
    from ssqueezepy import algos

    def call(par):
        out, full = guarded(out0, p['prefill'])
        return full(algos.ssqueeze_fast(
            Wx, dWx, f, const, logscale=p['scale'] != 'lin', flipud=p['flipud'],
            gamma=gamma, out=out, Sfs=Sfs, parallel=None if p['env'] else par))
    return F(call, binnable(p, f) and (lambda: guarded_model(expect(
        b, Wx, const, (np.abs(Wx) > gamma) & ~nan, p['flipud'], out0), p['prefill'])),
        mtol(p))


def make_onfly(p, rng):
    f, b, w, Wx, const = plane(p, rng)
    inf = rng.random(Wx.shape) < .2
    nan, huge = odd(p, rng, b, w)
    w[nan], w[huge] = np.nan, 1e30
    w[inf] = np.inf
    w = w.astype(Wx.real.dtype)
    out0 = fill(p, rng, Wx.shape, Wx.dtype)
    from ssqueezepy import algos

    def call(par):
        out, full = guarded(out0, p['prefill'])
        return full(algos.indexed_sum_onfly(
            Wx, w, f, const, logscale=p['scale'] != 'lin', flipud=p['flipud'],
            out=out, parallel=None if p['env'] else par))
    return F(call, binnable(p, f) and (lambda: guarded_model(expect(
        b, Wx, const, ~inf & ~nan, p['flipud'], out0), p['prefill'])), mtol(p))


def gen_ssqueeze(r, big, tier):
    p = gen_plane(r, big, tier)
    p.update(squeezing=r.choice(['sum', 'sum', 'abs', 'lebesgue']), nb=r.choice([0, 0, 1, 2, 3]),
             odd=False, usew=r.random() < .5, prefill=False, const='scalar')
    p['transform'] = r.choice(['cwt', 'stft'])
    if p['transform'] == 'stft':
        p['scale'] = 'lin'
    if big and p['nb']:
        p['n'] = min(p['n'], 500)
    return p


def make_ssqueeze(p, rng):
    f, b, w, Wx, _ = plane(p, rng)
    if p['nb']:
        rest = [plane(dict(p), rng) for _ in range(p['nb'] - 1)]
        b, w, Wx = [np.stack([x] + [q[i] for q in rest])
                    for i, x in ((1, b), (2, w), (3, Wx))]
    gamma = .1
    na = p['na']
    kw = dict(ssq_freqs=f, flipud=p['flipud'], squeezing=p['squeezing'],
              transform=p['transform'])
    Sfs = None
    if p['transform'] == 'cwt':
        kw['scales'] = 2 ** (np.arange(na) / p['nv'])[:, None] * 3
        # ascending log `scales` of any step are accepted
    if p['usew']:
        ws = w.copy()
        ws[np.abs(Wx) <= gamma] = np.inf
        kw['w'] = ws.astype(Wx.real.dtype)
    else:
        if p['transform'] == 'stft':
            Sfs = np.linspace(0, 9, na).astype(Wx.real.dtype)
            kw['Sfs'] = Sfs
            dWx = 2j * np.pi * (Sfs[:, None].astype('float64') - w) * Wx
        else:
            dWx = 2j * np.pi * w * Wx
        kw.update(dWx=dWx.astype(Wx.dtype), gamma=gamma)
    from ssqueezepy.ssqueezing import ssqueeze

    def call(par):
        Tx, sf = ssqueeze(Wx, **kw)
        return [Tx, np.array(sf)]

    m = None
    if binnable(p, f):
        def m():
            # log: ln(2) / nv(scales); linear scales don't occur here
            c = (np.log(2) / p['nv'] if p['transform'] == 'cwt' else f[1] - f[0])
            what = {'sum': lambda v: v, 'abs': np.abs,
                    'lebesgue': lambda v: np.ones_like(v) / na}[p['squeezing']]
            fn = lambda bb, ww: expect(bb, what(ww), c, np.abs(ww) > gamma,
                                       p['flipud'], np.zeros_like(what(ww)))
            T = (fn(b, Wx) if not p['nb'] else
                 np.stack([fn(x, y) for x, y in zip(b, Wx)]))
            fl = (p['transform'] == 'cwt' and not p['flipud']) or p['flipud']
            return [T, f[::-1] if fl else f]
    return F(call, m, mtol(p))


WAVS = ['gmw', 'morlet', 'bump', 'cmhat', 'hhhat', ('gmw', dict(gamma=2, beta=20)),
        ('morlet', dict(mu=5))]


def gen_ssq_cwt(r, big, tier):
    # a few fixed lengths, so that wavelets' scale ranges are found quickly
    return dict(n=r.choice([33, 64, 96, 127] if not big else [256, 500, 1024]),
                nb=r.choice([0, 0, 0, 2]), nv=r.choice([4, 8, 16]),
                wavelet=r.choice([0, 0, 1, 2, 5, 6]),
                scales=r.choice(['log', 'log-piecewise', 'linear', 'log:maximal']),
                ssq_freqs=r.choice([None, None, 'log', 'linear']),
                maprange=r.choice(['peak', 'maximal', 'energy']),
                prec=r.choice(['single', 'double']), flipud=r.random() < .7,
                get_w=r.random() < .3, vectorized=r.random() < .6,
                difftype=r.choice(['trig', 'trig', 'phase', 'numeric']),
                squeezing=r.choice(['sum', 'sum', 'abs', 'lebesgue']))


def make_ssq_cwt(p, rng):
    x = signal(rng, (p['nb'], p['n']) if p['nb'] else (p['n'],), p['prec'])
    wv = WAVS[p['wavelet']]
    name, opts = wv if isinstance(wv, tuple) else (wv, {})
    import ssqueezepy as sp

    def call(par):
        w = (name, dict(opts, dtype='float32' if p['prec'] == 'single' else 'float64'))
        kw = dict(get_w=True) if p['get_w'] or p['difftype'] != 'trig' else {}
        mr, sf = p['maprange'], p['ssq_freqs']
        o = list(sp.ssq_cwt(
            x, w, scales=p['scales'], nv=p['nv'], ssq_freqs=sf, maprange=mr,
            flipud=p['flipud'], vectorized=p['vectorized'], difftype=p['difftype'],
            squeezing=p['squeezing'], **kw))
        f = np.sort(np.asarray(o[2]))
        if not (f[0] > 0 and np.diff(f).min() > 1e-9):
            # degenerate frequency axis (very few voices): bins have no width
            return [o[1], o[2], o[3]]
        return o
    return F(call)


def gen_ssq_stft(r, big, tier):
    return dict(n=r.choice([40, 64, 101] if not big else [512, 1000]),
                nb=r.choice([0, 0, 2]), n_fft=r.choice([16, 31, 32, 40]),
                win_len=r.choice([None, 16, 15]),
                hop=r.choice([1, 1, 2]), prec=r.choice(['single', 'double']),
                squeezing=r.choice(['sum', 'sum', 'abs', 'lebesgue']),
                flipud=r.random() < .3, get_w=r.random() < .4,
                modulated=r.random() < .8)


def make_ssq_stft(p, rng):
    x = signal(rng, (p['nb'], p['n']) if p['nb'] else (p['n'],), p['prec'])
    import ssqueezepy as sp

    def call(par):
        return list(sp.ssq_stft(
            x, n_fft=p['n_fft'], win_len=p['win_len'], hop_len=p['hop'],
            modulated=p['modulated'], squeezing=p['squeezing'], flipud=p['flipud'],
            get_w=p['get_w'], dtype='float32' if p['prec'] == 'single' else 'float64'))
    return F(call)


def gen_fast(r, big, tier):
    p = gen_plane(r, big, tier)
    p.update(sfs=r.random() < .6, neg=r.random() < .1, env=r.random() < .5)
    if p['sfs'] and p['scale'] == 'lin':
        p['neg'] = False
    return p


def gen_onfly(r, big, tier):
    p = gen_plane(r, big, tier)
    p.update(env=r.random() < .5)
    return p


class K01(KProp):
    ID = 'K01'
    OPS = dict(
        ssqueeze_fast=(4, gen_fast, make_fast),
        indexed_sum_onfly=(4, gen_onfly, make_onfly),
        ssqueeze=(3, gen_ssqueeze, make_ssqueeze),
        ssq_cwt=(2, gen_ssq_cwt, make_ssq_cwt),
        ssq_stft=(2, gen_ssq_stft, make_ssq_stft))
    TOL_SSQ = ('ssq_cwt', 'ssq_stft')
    REAL = ['ssqueezepy.algos (compiled kernels)', 'ssqueezepy.ssqueezing',
            'ssqueezepy.ssq_cwt', 'ssqueezepy.ssq_stft', 'ssqueezepy.wavelets',
            'ssqueezepy._cwt', 'ssqueezepy._stft', 'numba-generated code']


PROP = K01()
