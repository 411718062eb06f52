"""K02: elementwise kernels, thresholding, bin lookup do not depend on threads."""
import numpy as np
from sim import cmp
from .kbase import KProp, cplx, real
from .k01 import F, freqs_of


def dims(r, big, lo=1):
    return dict(na=r.randint(20, 300), n=r.randint(50, 3000)) if big else \
        dict(na=r.randint(lo, 16), n=r.randint(1, 30))


def layout(x, how):
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'strided':
        y = np.zeros((x.shape[0] * 2, x.shape[1] * 2), x.dtype)
        y[::2, ::2] = x
        return y[::2, ::2]
    if how == 'flipped':
        return x[::-1].copy()[::-1]
    return x


LAY = ['C', 'C', 'C', 'F', 'strided']


def special(rng, x, p):
    """Sprinkles zeros, tiny and huge values."""
    k = rng.random(x.shape)
    x = x.copy()
    x[k < .15] = 0
    t = np.finfo(x.real.dtype)
    x[(k > .15) & (k < .3)] *= t.tiny * 30
    x[(k > .9)] *= 1e6
    return x


def gen_phase(r, big, tier):
    return dict(dims(r, big), prec=r.choice(['single', 'double']), lay=r.choice(LAY),
                stft=r.random() < .5, env=r.random() < .5, via=r.random() < .4,
                gam=r.choice(['mid', 'none', 'edge']), nan=r.random() < .25)


def make_phase(p, rng):
    sh = (p['na'], p['n'])
    Wx = special(rng, cplx(rng, sh, p['prec']), p)
    dWx = cplx(rng, sh, p['prec'])
    rd = Wx.real.dtype
    if p['gam'] == 'edge':
        # magnitudes exactly at the threshold
        Wx[rng.random(sh) < .3] = .5
    gamma = {'mid': .3, 'edge': .5, 'none': 1e-30}[p['gam']]
    if p['nan']:
        for z in (Wx, dWx):
            for v in (np.nan, np.inf, complex(0, np.nan), complex(-np.inf, 1)):
                z[rng.random(sh) < .05] = v
    W, D = layout(Wx, p['lay']), layout(dWx, p['lay'])
    Sfs = np.linspace(0, .5, p['na']).astype(rd)
    from ssqueezepy import algos
    import ssqueezepy._ssq_cwt as A
    import ssqueezepy._ssq_stft as B

    def call(par):
        par = None if p['env'] else par
        if p['stft']:
            return (B.phase_stft if p['via'] else algos.phase_stft_cpu)(
                W, D, Sfs, gamma, parallel=par)
        if p['via']:
            return A.phase_cwt(W, D, 'trig', gamma, parallel=par)
        return algos.phase_cwt_cpu(W, D, gamma, parallel=par)

    def expect():
        g = rd.type(gamma)
        w, d = Wx.astype('complex128'), dWx.astype('complex128')
        v = (d.imag * w.real - d.real * w.imag) / (np.abs(w) ** 2 * 2 * np.pi)
        v = np.abs(Sfs[:, None] - v if p['stft'] else v)
        return np.where(np.abs(Wx) < g, np.inf, v).astype(rd)
    w, d = np.abs(Wx.astype('complex128')), np.abs(dWx.astype('complex128'))
    with np.errstate(all='ignore'):
        bound = 32 * np.finfo(rd).eps * (d / w / 6 + np.abs(Sfs[:, None]))
    return F(call, None if p['gam'] == 'none' else expect,
             cmp=lambda a, b: cmp.diff_bound(a, b, bound))


def gen_under(r, big, tier):
    return dict(dims(r, big), prec=r.choice(['single', 'double']), lay=r.choice(LAY),
                cplxref=r.random() < .6, nan=r.random() < .3, env=r.random() < .5, repl=r.choice(['inf', '0', '-3']))


def make_under(p, rng):
    sh = (p['na'], p['n'])
    ref = cplx(rng, sh, p['prec']) if p['cplxref'] else real(rng, sh, p['prec'])
    ref[rng.random(sh) < .3] = .5
    x = real(rng, sh, p['prec'])
    ref = layout(ref, p['lay'])
    from ssqueezepy import algos
    repl = float(p['repl'])

    def call(par):
        y = layout(x.copy(), p['lay'])
        algos.replace_under_abs(y, ref, value=.5, replacement=repl,
                                parallel=None if p['env'] else par)
        return np.array(y)
    if p['nan']:
        ref[rng.random(sh) < .1] = np.nan
        ref[rng.random(sh) < .1] = np.inf
        x[rng.random(sh) < .1] = np.nan
    return F(call, lambda: np.where(np.abs(ref) < .5, repl, x).astype(x.dtype),
             cmp=cmp.diff_exact)


def gen_denorm(r, big, tier):
    return dict(n=r.randint(1, 400) if not big else r.randint(1000, 100000),
                rows=r.choice([0, 0, 1, 3]), nan=r.random() < .2, prec=r.choice(['single', 'double']),
                env=r.random() < .5)


def make_denorm(p, rng):
    sh = (p['rows'], p['n']) if p['rows'] else (p['n'],)
    x = real(rng, sh, p['prec'])
    t = np.finfo(x.dtype).tiny
    k = rng.random(sh)
    x[k < .5] *= t * 600
    x[(k > .5) & (k < .55)] = 0
    x[(k > .55) & (k < .6)] = -1000 * t
    x[(k > .6) & (k < .65)] = 1000 * t
    from ssqueezepy import algos

    def call(par):
        y = x.copy()
        algos.zero_denormals(y, parallel=None if p['env'] else par)
        return y
    lim = x.dtype.type(1000) * t
    if p['nan']:
        x[rng.random(sh) < .1] = np.nan
        x[rng.random(sh) < .1] = -np.inf
    return F(call, lambda: np.where(np.abs(x) < lim, 0, x).astype(x.dtype),
             cmp=cmp.diff_exact)


def gen_closest(r, big, tier):
    d = dims(r, big, 2)
    d.update(prec=r.choice(['single', 'double']), lay=r.choice(LAY), nv=r.choice([4, 8, 32]),
             scale=r.choice(['log', 'lin', 'logpw']),
             fn=r.choice(['find_closest', 'direct', 'brute']))
    if d['scale'] == 'logpw':
        d['na'] = max(8, d['na'])
    if big:
        d['n'] = min(d['n'], 800)
    if d['fn'] == 'brute':
        d['na'], d['n'] = min(d['na'], 40), min(d['n'], 100)
    return d


def make_closest(p, rng):
    f = freqs_of(p)
    sh = (p['na'], p['n'])
    a = f[rng.integers(0, p['na'], sh)]
    d = np.diff(f)
    a = a * (1 + rng.uniform(-.3, .3, sh) * (d / f[1:]).min())
    k = rng.random(sh)
    a[k < .05] *= .1
    a[k > .95] *= 10
    if p['scale'] == 'lin':
        m = (k > .3) & (k < .5)                  # exactly between two bins
        a[m] = f[0] + .5 * (rng.integers(0, p['na'], m.sum()) + .5)
    a = a.astype('float32' if p['prec'] == 'single' else 'float64')
    if p['scale'] == 'logpw':
        a[(k > .1) & (k < .15)] = np.inf
    A = layout(a, p['lay'])
    from ssqueezepy import algos

    def call(par):
        if p['fn'] == 'brute':
            return algos.find_closest_brute(A, f.astype(a.dtype))
        if p['fn'] == 'find_closest':
            return algos.find_closest(A, f, logscale=p['scale'] != 'lin', parallel=par,
                                      smart=False)
        fn = algos.find_closest_lin if p['scale'] == 'lin' else algos.find_closest_log
        return fn(A, f, parallel=par)
    m = None
    if p['fn'] == 'brute':
        m = lambda: np.argmin(np.abs(a[..., None] - f.astype(a.dtype)), axis=-1
                              ).astype('int32')
    return F(call, m)


def gen_isum(r, big, tier):
    return dict(dims(r, big), dt=r.choice(['c8', 'c16', 'f4', 'f8']), lay=r.choice(LAY),
                env=r.random() < .5, hit=r.choice(['random', 'same']))


def make_isum(p, rng):
    sh = (p['na'], p['n'])
    a = rng.standard_normal(sh).astype(p['dt'])
    if p['dt'][0] == 'c':
        a = a * np.exp(1j * rng.random(sh)).astype(p['dt'])
    k = (rng.integers(0, p['na'], sh) if p['hit'] == 'random' else
         np.broadcast_to(rng.integers(0, p['na'], (1, p['n'])), sh).copy())
    A, K = layout(a, p['lay']), layout(k, p['lay'])
    from ssqueezepy import algos

    def call(par):
        return algos.indexed_sum(A, K, parallel=None if p['env'] else par)

    def expect():
        out = np.zeros(sh, 'complex128')
        np.add.at(out, (k, np.broadcast_to(np.arange(sh[1]), sh)), a)
        return (out if p['dt'][0] == 'c' else out.real).astype(p['dt'])
    return F(call, expect, 2e-5 if p['dt'] in ('c8', 'f4') else 1e-11)


class K02(KProp):
    ID = 'K02'
    OPS = dict(phase=(4, gen_phase, make_phase),
               replace_under_abs=(2, gen_under, make_under),
               zero_denormals=(2, gen_denorm, make_denorm),
               find_closest=(4, gen_closest, make_closest),
               indexed_sum=(2, gen_isum, make_isum))
    REAL = ['ssqueezepy.algos (compiled kernels)', 'ssqueezepy._ssq_cwt.phase_cwt',
            'ssqueezepy._ssq_stft.phase_stft', 'numba-generated code']


PROP = K02()
