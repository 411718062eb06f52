"""Catalogue of public calls, as data: generated from a seed, executed by name.

An argument is plain JSON, or one of
  {"$w": i}   the i-th shared wavelet        {"$t": [..]}  tuple
  {"$s": i}   the i-th shared array          {"$x": {..}}  an array made anew
  {"$o": i}   the i-th shared options dict   {"$f": name}  a callable
"""
import os
import numpy as np
from sim import mem

DEBUG = os.environ.get('SSQSIM_DEBUG')


# ---- arrays -------------------------------------------------------------------
def layout(a, how):
    if how == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if how == 'reversed':
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'offset':
        b = np.zeros(a.size + 3, a.dtype)
        b[3:] = a.reshape(-1)
        return b[3:].reshape(a.shape)
    if how == 'readonly':
        a = a.copy()
        a.flags.writeable = False
        return a
    return a


def array(s):
    g = np.random.default_rng(s['seed'])
    sh = tuple(s['shape'])
    k = s['kind']
    if k == 'noise':
        a = g.standard_normal(sh)
    elif k == 'cplx':
        a = g.standard_normal(sh) + 1j * g.standard_normal(sh)
    elif k == 'pos':
        a = g.uniform(.02, .5, sh)
    elif k == 'chirp':
        n = sh[-1]
        t = np.arange(n) / n
        a = np.cos(2 * np.pi * (2 + 6 * g.random()) * t + n / 9 * np.pi * t**2)
        a = np.broadcast_to(a, sh) * (1 + np.arange(sh[0])[:, None] if len(sh) > 1 else 1)
    elif k == 'nan':
        a = g.standard_normal(sh)
        a[..., g.integers(sh[-1])] = [np.nan, np.inf, -np.inf][g.integers(3)]
    elif k == 'window':
        n = sh[0]
        a = np.hanning(n + 2)[1:-1] + .01 * g.random(n)
        if s.get('tiny'):
            a[[0, -1]] = 1e-40 if s.get('dtype') == 'float32' else 1e-310
    elif k == 'logscales':
        a = 2 ** (1 + np.arange(sh[0]) / s['nv'])
    elif k == 'linscales':
        a = np.linspace(2, 2 + .5 * (sh[0] - 1), sh[0])
    elif k == 'logfreqs':
        a = np.logspace(np.log10(.02), np.log10(.45), sh[0])
    elif k == 'linfreqs':
        a = np.linspace(0 if s.get('zero') else .01, .5, sh[0])
    elif k == 'time':
        a = np.linspace(0, s['T'], sh[0], endpoint=False)
    elif k == 'bothfreqs':
        a = np.linspace(-3, 9, sh[0])
    elif k == 'ints':
        a = g.integers(0, s['hi'], sh)
    else:
        raise KeyError(k)
    a = np.array(a)
    if 'tweak' in s and a.size and a.dtype.kind in 'fc':
        # like before in all but one element
        a.reshape(-1)[int(s['tweak'] * a.size)] *= 1.01
    if s.get('dtype'):
        a = a.astype(s['dtype'])
    if s.get('col'):
        a = a.reshape(-1, 1)
    return layout(a, s.get('lay'))


def ten(v):
    return v * 10


FUNCS = {'square': lambda W: W * np.abs(W), 'real': lambda W: W.real + 0j * W}


def gauss(c=4, im=0):
    def gauss(w):
        p = np.exp(-(w - c) ** 2)
        return p * np.exp(1j * im * w) if im else p
    return gauss


class Env:
    """Shared objects of a session."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.wav, self.arr, self.opt = {}, {}, {}

    def w(self, i):
        if i not in self.wav:
            s = self.ctx['wavelets'][i]
            self.wav[i] = make_wavelet(s)
        return self.wav[i]

    def a(self, i):
        if i not in self.arr:
            self.arr[i] = array(self.ctx['arrays'][i])
        return self.arr[i]

    def o(self, i):
        if i not in self.opt:
            self.opt[i] = dict(self.ctx['opts'][i])
        return self.opt[i]

    def res(self, v):
        if isinstance(v, list):
            return [self.res(x) for x in v]
        if not isinstance(v, dict):
            return v
        (k, x), = v.items()
        if k == '$w':
            return self.w(x)
        if k == '$s':
            return self.a(x)
        if k == '$o':
            return self.o(x)
        if k == '$t':
            return tuple(self.res(y) for y in x)
        if k == '$x':
            return array(x)
        if k == '$f':
            return FUNCS[x]
        if k == '$ws':
            return wavelet_arg(x, self)
        raise KeyError(k)


def wavelet_arg(s, env=None):
    """str or (str, dict)"""
    return (s['name'], dict(s['cfg'])) if s.get('cfg') else s['name']


def make_wavelet(s):
    from ssqueezepy import Wavelet
    kw = {}
    if s.get('dtype'):
        kw['dtype'] = s['dtype']
    if s['name'] == 'gauss':
        return Wavelet(gauss(**s['cfg']), N=s['N'])
    return Wavelet(wavelet_arg(s), N=s['N'], **kw)


def resolve(op, env):
    return ([env.res(v) for v in op.get('a', [])],
            {k: env.res(v) for k, v in op.get('k', {}).items()})


def call(op, env, resolved=None):
    """Runs one operation: ('ok', value) or ('raise', type name)."""
    import ssqueezepy as sp
    args, kw = resolved or resolve(op, env)
    return ('ok', invoke(sp, op['f'], list(args), dict(kw)))


def invoke(sp, f, args, kw):
    if f == 'Wavelet()':
        return args[0](*args[1:], **kw)
    if f.startswith('@'):                     # property of a wavelet
        return getattr(args[0], f[1:])
    if f == '.info':
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()) as o:
            args[0].info(*args[1:], **kw)
        # not the progress of planning FFTs
        return ''.join(q for q in o.getvalue().splitlines(True)
                       if not q.startswith('Planning'))
    if f.startswith('.'):                     # method
        return getattr(args[0], f[1:])(*args[1:], **kw)
    if f == 'N=':
        args[0].N = args[1]
        return None
    if f == 'setN':
        args[0].N = args[1]
        try:
            args[0].reset_properties()
        except Exception:
            return 'raised'             # the caller gets rid of it
        return None
    if f == 'new':
        w = sp.Wavelet(*args, **kw)
        return [w.N, w.dtype, w.name, w.xi, w.fn(np.linspace(0, 9, 16).astype(w.dtype))]
    if f == 'gmwfn':
        return getattr(sp._gmw, args[0])(*args[2:], **kw)(args[1])
    if f == 'wavfn':
        return getattr(sp.wavelets, args[0])(*args[2:], **kw)(args[1])
    if f == 'vis':
        return vis(sp, args[0], args[1:], kw)
    if f == 'signal':
        return sp.TestSignals(N=args[1], seed=args[2], warn_alias=False).make_signals(
            [args[0], ('sine:am-cosine', args[3])])
    if f == 'patience':
        sp.FFT_GLOBAL.patience = args[0]
        return None
    if f == 'cachefft':
        sp.FFT_GLOBAL.cache_fft_objects = args[0]
        return None
    if f == 'env':
        import os
        if args[0] is None:
            os.environ.pop('SSQ_PARALLEL', None)
        else:
            os.environ['SSQ_PARALLEL'] = args[0]
        return None
    o = sp
    for p in f.split('.'):
        o = getattr(o, p)
    return o(*args, **kw)


def vis(sp, name, args, kw):
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        getattr(sp.visuals, name)(*args, show=0, **kw)
        fig = plt.gcf()
        out = [fig.get_size_inches()]
        for ax in fig.axes:
            t = ax.title
            out += [t.get_text(), float(t.get_fontsize()), str(t.get_fontweight()),
                    [ax.get_title(loc=q) for q in ('left', 'center', 'right')],
                    [np.array(q.get_ydata()) for q in ax.lines],
                    [np.array(q.get_array()) for q in ax.images], len(ax.patches),
                    [float(q.get_window_extent().x0) for q in ax.texts]]
        return out
    finally:
        plt.close('all')


def attempt(op, env, resolved=None):
    try:
        v = call(op, env, resolved)
        if op['f'] == 'setN' and v[1] == 'raised':
            i, n = op['a'][0]['$w'], op['a'][1]
            env.wav[i] = make_wavelet(dict(env.ctx['wavelets'][i], N=n))
            v = ('ok', None)
        return v
    except Exception as e:
        if DEBUG:
            import sys
            import traceback
            sys.stderr.write(f"RAISED {op['f']} {type(e).__name__}: {str(e)[:99]} @"
                             f"{traceback.extract_tb(e.__traceback__)[-1].name} {op}\n")
        return ('raise', type(e).__name__)


SETTINGS = ('patience', 'cachefft', 'env')

# ---- generation ---------------------------------------------------------------
LAYS = [None, None, None, 'strided', 'reversed', 'offset', 'fortran', 'readonly']


def wavelet_spec(r, gpu=False):
    name = r.choice(['gmw', 'gmw', 'gmw', 'morlet', 'morlet', 'bump', 'cmhat', 'hhhat',
                     'gauss'])
    cfg = {}
    if name == 'gmw':
        cfg = r.choice([{}, {}, {'beta': 12}, {'gamma': 3, 'beta': 30}, {'norm': 'energy'},
                        {'order': 1}, {'order': 2, 'norm': 'energy'},
                        {'centered_scale': True}])
    elif name == 'morlet':
        cfg = r.choice([{}, {'mu': 6}])
    elif name == 'bump':
        cfg = r.choice([{}, {'mu': 4, 's': 1}, {'om': 1}, {'s': .8}])
    elif name == 'hhhat':
        cfg = r.choice([{}, {'mu': 6}])
    elif name == 'gauss':
        cfg = r.choice([{}, {'c': 5}, {'c': 3}, {'im': 1}])
    return dict(name=name, cfg=cfg, N=r.choice([64, 128, 100, 256]),
                dtype=r.choice([None, None, 'float32', 'float64', 'float64'])
                if name != 'gauss' else None)


def twin(r, s):
    """Another wavelet, differing in one respect."""
    k = r.choice(['cfg', 'cfg', 'cfg', 'N', 'dtype', 'nothing'])
    for _ in range(200):
        t = wavelet_spec(r)
        if t['name'] == s['name'] and (k == 'nothing' or t[k] != s[k]):
            return dict(s, **({} if k == 'nothing' else {k: t[k]}))
    return dict(s)


def context(r, lays=True):
    n = r.choice([64, 75, 96, 128])
    mk = lambda kind, shape, **k: dict(kind=kind, shape=shape, seed=r.getrandbits(24),
                                       lay=r.choice(LAYS) if lays else None,
                                       dtype=r.choice(['float64', 'float64', 'float32'])
                                       if kind not in ('cplx',) else
                                       r.choice(['complex128', 'complex64']), **k)
    ws = [wavelet_spec(r) for _ in range(3)]
    if r.random() < .6:
        ws[1] = twin(r, ws[0])
    return dict(
        mem=r.sample(mem.BYTES, 2), n=n, wavelets=ws,
        arrays=[mk('chirp', [n]), mk('noise', [n]), mk('noise', [2, n]),
                mk('chirp', [r.choice([64, 80])]),
                dict(kind='logscales', shape=[r.choice([12, 16, 20])], nv=4, seed=0,
                     dtype=None, lay=None),
                mk('window', [16], tiny=r.random() < .4), mk('cplx', [9, n])],
        opts=[dict(mu=6), dict(beta=20, norm='bandpass'), dict(gamma=3, beta=12),
              dict(f=3, snr=2.), dict(amin=.2), dict(fontsize=9), dict(left=.1),
              dict(color='k')])


class Gen:
    """Generates operations over a context."""

    def __init__(self, r, ctx, patience=True, settings=True, methods=True):
        self.r, self.ctx = r, ctx
        self.with_patience, self.with_settings = patience, settings
        fs = [(getattr(self, 'g_' + n), w) for n, w in self.WEIGHTS.items()
              if (settings or n != 'setting') and (methods or n not in ('method', 'setN'))]
        self.fs, self.ws = zip(*fs)

    WEIGHTS = dict(cwt=14, icwt=6, ssq_cwt=10, issq_cwt=3, stft=6, istft=4, ssq_stft=6,
                   issq_stft=2, ridges=4, method=14, setN=3, resolution=5, fft=5, phase=4,
                   ssqueeze=3, padding=3, buffers=4, windows=3, scales=6, adm=3, gmwx=4,
                   signals=2, kernels=4, experimental=3, tools=1, setting=5, vis=1)

    def op(self, kinds=None):
        self.odd = False
        if kinds:
            return getattr(self, 'g_' + self.r.choices(list(kinds), kinds.values())[0])()
        return self.r.choices(self.fs, self.ws)[0]()

    def lay(self):
        """Mostly at most one array of unusual layout per call: every combination of
        layouts has the kernels compiled once more."""
        if self.odd and self.r.random() < .9:
            return None
        how = self.r.choice(LAYS)
        self.odd |= how is not None
        return how

    def seed(self):
        return self.r.getrandbits(20)

    # arguments
    def wav(self):
        r = self.r
        if r.random() < .75:
            return {'$w': r.randrange(len(self.ctx['wavelets']))}
        s = wavelet_spec(r)
        while s['name'] == 'gauss':
            s = wavelet_spec(r)
        if r.random() < .15:
            return {'$t': ['gmw', {'$o': r.choice([1, 2])}]}
        if not s['cfg']:
            return s['name']
        return {'$ws': s}

    def sig(self, batch=True):
        r = self.r
        if r.random() < .6:
            return {'$s': r.choice([0, 0, 1, 1, 3] + ([2] if batch else []))}
        n = r.choice([self.ctx['n'], self.ctx['n'], 60, 81, 128])
        sh = [n] if not batch or r.random() < .8 else [2, n]
        return {'$x': dict(kind=r.choice(['noise', 'chirp', 'chirp', 'nan']), shape=sh,
                           seed=self.seed(), dtype=r.choice(['float64', 'float32']),
                           lay=self.lay())}

    def siglen(self, s):
        d = self.ctx['arrays'][s['$s']] if '$s' in s else s['$x']
        return d['shape'][-1]

    def batched(self, s):
        d = self.ctx['arrays'][s['$s']] if '$s' in s else s['$x']
        return len(d['shape']) > 1

    def family(self, w):
        """Name and norm of a wavelet argument."""
        if isinstance(w, str):
            return w, 'bandpass'
        (k, x), = w.items()
        if k == '$t':
            return 'gmw', 'bandpass'
        s = x if k == '$ws' else self.ctx['wavelets'][x]
        return s['name'], s['cfg'].get('norm', 'bandpass')

    def wav_kw(self, w):
        """Options a wavelet needs, most of the time."""
        name, norm = self.family(w)
        if name == 'gmw':
            return {'l1_norm': False} if (norm == 'energy') ^ (self.r.random() < .04) else {}
        return self.maybe(.1, l1_norm=[False])

    def cplx(self, sh, dtype=None):
        return {'$x': dict(kind='cplx', shape=list(sh), seed=self.seed(),
                           dtype=dtype or self.r.choice(['complex128', 'complex64']),
                           lay=self.lay())}

    def freqs(self):
        r = self.r
        return {'$x': dict(kind='bothfreqs', shape=[r.choice([13, 24])], seed=0,
                           dtype=r.choice(['float64', 'float32']), lay=self.lay())}

    def scales(self):
        r = self.r
        return r.choice(['log', 'log', 'log-piecewise', 'log-piecewise', 'linear',
                         'log:maximal', 'log:minimal', {'$s': 4}, {'$s': 4},
                         {'$x': dict(kind='linscales', shape=[r.choice([10, 14])],
                                     seed=0, dtype=r.choice([None, 'float32']))}])

    def timing(self, n):
        r = self.r
        k = r.random()
        if k < .6:
            return {}
        if k < .85:
            return {'fs': r.choice([1., 2., 100., 400])}
        return {'t': {'$x': dict(kind='time', shape=[n], T=r.choice([1, 2.5]), seed=0)}}

    def patience(self):
        if not self.with_patience:
            return {}
        r = self.r
        return {'patience': r.choice([1, 2, {'$t': [1, 3]}, {'$t': [2, 1]}])
                } if r.random() < .25 else {}

    def maybe(self, p=.5, **opts):
        """Some of the options, each present with probability p."""
        out = {}
        for k, v in opts.items():
            if self.r.random() < p:
                out[k] = self.r.choice(v)
        return out

    PADS = ['reflect', 'symmetric', 'replicate', 'wrap', 'zero', None]

    # operations
    def g_cwt(self):
        x, w = self.sig(), self.wav()
        sc = self.scales()
        k = dict(scales=sc, nv=4 if sc == {'$s': 4} else self.r.choice([4, 4, 6, 8]),
                 **self.timing(self.siglen(x)), **self.patience(),
                 **self.maybe(.3, derivative=[True, True, False], padtype=self.PADS,
                              rpadded=[True, False], vectorized=[False, True],
                              cache_wavelet=[True, True, False],
                              astensor=[False], nan_checks=[True, False]))
        k.update(self.wav_kw(w))
        if self.r.random() < (.2 if self.family(w)[0] == 'gmw' else .01):
            k['order'] = self.r.choice([1, 2, {'$t': [0, 1]}, [0, 1]])
            if self.r.random() < .3:
                k['average'] = self.r.choice([True, False])
        return dict(f='cwt', a=[x, w], k=k)

    def g_icwt(self):
        r = self.r
        n = r.choice([40, 64])
        if r.random() < .6:
            na, sc = self.ctx['arrays'][4]['shape'][0], {'$s': 4}
        else:
            na = 12
            sc = {'$x': dict(kind=r.choice(['logscales', 'linscales']), shape=[na], nv=4,
                             seed=0)}
        k = dict(scales=sc, **self.maybe(.3, one_int=[False, False, True], nv=[4],
                                         x_mean=[0, 1.5], padtype=['reflect', 'zero'],
                                         rpadded=[False]))
        w = self.wav()
        k.update(self.wav_kw(w))
        sh = [na, n] if k.get('one_int', True) is False or r.random() < .9 else [2, na, n]
        return dict(f='icwt', a=[self.cplx(sh), w], k=k)

    def g_ssq_cwt(self):
        r = self.r
        x, w = self.sig(), self.wav()
        while self.family(w)[1] == 'energy' and r.random() < .95:
            w = self.wav()
        sc = self.scales()
        k = dict(scales=sc, nv=4 if sc == {'$s': 4} else r.choice([4, 6, 8]),
                 **self.timing(self.siglen(x)), **self.patience(),
                 **self.maybe(.25, padtype=self.PADS,
                              squeezing=['sum', 'lebesgue', 'abs', {'$f': 'square'}],
                              maprange=['peak', 'energy', 'maximal', {'$t': [.02, .4]}],
                              ssq_freqs=['log', 'linear', 'log-piecewise'],
                              gamma=[1e-3, .1], preserve_transform=[True, False],
                              astensor=[False], vectorized=[False],
                              flipud=[False, True], cache_wavelet=[True, False]))
        c = r.random()
        if c < .2 and not self.batched(x):
            k.update(get_w=True, **self.maybe(.5, difftype=['trig', 'phase', 'numeric'],
                                              get_dWx=[True]))
            if k.get('difftype') == 'numeric':
                k.update(self.maybe(.5, difforder=[1, 2, 4]))
        elif c < .3:
            k['get_dWx'] = True
        if r.random() < (.12 if self.family(w)[0] == 'gmw' else .01):
            k['order'] = r.choice([1, {'$t': [0, 1]}])
        return dict(f='ssq_cwt', a=[x, w], k=k)

    def g_issq_cwt(self):
        r = self.r
        na, n = 12, 30
        k = {}
        if r.random() < .5:
            k = {q: {'$x': dict(kind='ints', shape=[n, r.choice([1, 2])], hi=na // 2,
                                seed=self.seed())} for q in ('cc', 'cw')}
            k['cw']['$x']['shape'] = k['cc']['$x']['shape']
        return dict(f='issq_cwt', a=[self.cplx([na, n]), self.wav()], k=k)

    def stft_kw(self, inv=False):
        r = self.r
        nf = r.choice([16, 16, 20, 17] if not inv else [16, 20])
        k = dict(n_fft=nf)
        w = r.random()
        if w < .3:
            k['window'] = r.choice(['hann', 'hamming', 'boxcar'])
            if r.random() < .3:
                k['win_len'] = 12
        elif w < .6:
            k['window'] = {'$s': 5}
            if inv:
                k['n_fft'] = 16
        elif w < .7:
            k['window'] = {'$x': dict(kind='window', shape=[nf], seed=self.seed(),
                                      tiny=r.random() < .4, dtype=r.choice(['float64', 'float32']),
                                      lay=self.lay())}
        return k

    def g_stft(self):
        x = self.sig()
        k = dict(self.stft_kw(), **self.timing(self.siglen(x)),
                 **self.maybe(.3, hop_len=[1, 2, 5], padtype=self.PADS[:5],
                              derivative=[True], dtype=['float32', 'float64'],
                              modulated=[False]))
        return dict(f='stft', a=[x], k=k)

    def g_istft(self):
        k = self.stft_kw(True)
        sh = [k['n_fft'] // 2 + 1, self.r.choice([24, 32])]
        k.update(self.maybe(.3, N=[sh[1]], win_exp=[0, 1, 2], hop_len=[1, 2],
                            modulated=[False]))
        if k.get('hop_len', 1) != 1:
            k.pop('N', None)
        return dict(f='istft', a=[self.cplx(sh)], k=k)

    def g_ssq_stft(self):
        x = self.sig()
        k = dict(self.stft_kw(), **self.timing(self.siglen(x)),
                 **self.maybe(.25, padtype=self.PADS[:5],
                              squeezing=['sum', 'lebesgue', 'abs', {'$f': 'square'}],
                              gamma=[1e-3, .1], preserve_transform=[True, False],
                              dtype=['float32', 'float64'], flipud=[True], get_dWx=[True], astensor=[False], modulated=[False]))
        if not self.batched(x):
            k.update(self.maybe(.2, get_w=[True]))
        return dict(f='ssq_stft', a=[x], k=k)

    def g_issq_stft(self):
        k = self.stft_kw(True)
        return dict(f='issq_stft', a=[self.cplx([k['n_fft'] // 2 + 1, 28])], k=k)

    def g_ridges(self):
        r = self.r
        na, n = 12, r.choice([20, 31])
        return dict(f='extract_ridges',
                    a=[self.cplx([na, n]),
                       {'$x': dict(kind=r.choice(['logscales', 'linscales']), shape=[na],
                                   nv=4, seed=0, lay=self.lay())}],
                    k=self.maybe(.4, penalty=[.5, 5., 40], n_ridges=[2, 3], bw=[1, 2, 4],
                                 transform=['stft', 'cwt'], get_params=[True],
                                 parallel=[False, True]))

    def g_method(self):
        r = self.r
        w = {'$w': r.randrange(len(self.ctx['wavelets']))}
        c = r.randrange(9)
        sc = r.choice([2., 5., 10, {'$s': 4},
                       {'$x': dict(kind='logscales', shape=[6], nv=r.choice([2, 4]),
                                   seed=0)}])
        N = r.choice([None, None, 64, 50, 51])
        if c == 0:
            return dict(f='Wavelet()', a=[w, self.freqs()],
                        k=self.maybe(.4, nohalf=[False]))
        if c == 1:
            return dict(f='Wavelet()', a=[w], k=dict(scale=sc, N=N, **self.maybe(
                .5, nohalf=[False, True])))
        if c == 2:
            return dict(f='.psifn', a=[w], k=dict(scale=sc, N=N))
        if c == 3:
            return dict(f='.xifn', a=[w], k=dict(scale=sc, N=N))
        if c in (4, 5, 6):
            if isinstance(sc, (int, float)) and r.random() < .9:
                sc = {'$s': 4}
            return dict(f='.Psih', a=[w], k=dict(scale=sc, N=N, **self.maybe(
                .5, nohalf=[False, True])))
        if c == 7:
            return dict(f=r.choice(['@wc', '@wc_ct', '@scalec_ct', '@std_t', '@std_w',
                                    '@std_t_d', '@std_w_d', '@std_f', '@harea', '@N', '@xi',
                                    '@dtype', '@name', '@config_str', '@_desc'][:-1]), a=[w])
        return dict(f='.info', a=[w], k=self.maybe(.5, nondim=[False], reset=[True]))

    def g_setN(self):
        return dict(f='setN', a=[{'$w': self.r.randrange(len(self.ctx['wavelets']))},
                                 self.r.choice([128, 256, 200, 201])])

    def g_resolution(self):
        r = self.r
        f = r.choice(['center_frequency', 'freq_resolution', 'time_resolution'])
        k = dict(scale=r.choice([6., 10, 14]), N=r.choice([128, 256]))
        if f == 'center_frequency':
            k.update(self.maybe(.5, kind=['energy', 'peak', 'peak-ct'],
                                force_int=[True, False]))
        else:
            k.update(self.maybe(.4, nondim=[False], force_int=[False]))
        return dict(f='wavelets.' + f, a=[self.wav()], k=k)

    def g_fft(self):
        r = self.r
        f = r.choice(['fft', 'ifft', 'rfft', 'irfft'])
        two = r.random() < .3
        sh = [r.choice([2, 3]), r.choice([8, 12])] if two else [r.choice([8, 12, 13])]
        ax = r.choice([0, 1, -1]) if two else -1
        k = dict(axis=ax, **self.patience())
        if f == 'irfft':
            k['n'] = r.choice([None, 2 * (sh[ax] - 1) or None, 2 * sh[ax] - 1])
            if 'patience' in k and k['n'] is None and sh[ax] < 2:
                k['n'] = 2
        if f == 'rfft':
            x = {'$x': dict(kind='noise', shape=sh, seed=self.seed(), lay=self.lay(),
                            dtype=r.choice(['float64', 'float32']))}
        else:
            x = self.cplx(sh)
        return dict(f=f, a=[x], k=k)

    def g_phase(self):
        r = self.r
        c = r.randrange(4)
        sh, dt = [10, r.choice([16, 21])], r.choice(['complex128', 'complex64'])
        if c == 0:
            return dict(f='_ssq_cwt.phase_cwt', a=[self.cplx(sh, dt), self.cplx(sh, dt)],
                        k=self.maybe(.5, gamma=[.5, 1e-3], difftype=['trig', 'phase'],
                                     parallel=[True, False]))
        if c == 1:
            rd = {'complex128': 'float64', 'complex64': 'float32'}[dt]
            return dict(f='_ssq_stft.phase_stft',
                        a=[self.cplx(sh, dt), self.cplx(sh, dt),
                           {'$x': dict(kind='linfreqs', shape=[sh[0]], seed=0, dtype=rd)}],
                        k=self.maybe(.5, gamma=[.5, 1e-3], parallel=[True, False]))
        if c == 2:
            return dict(f='_ssq_cwt.phase_cwt_num', a=[self.cplx(sh, dt), .5],
                        k=self.maybe(.5, difforder=[1, 2, 4], gamma=[.5]))
        return dict(f='utils.trigdiff', a=[self.cplx(sh, dt)],
                    k=self.maybe(.4, fs=[2., 100.], padtype=['reflect', 'zero']))

    def g_ssqueeze(self):
        r = self.r
        na = self.ctx['arrays'][4]['shape'][0]
        sh, dt = [na, 24], r.choice(['complex128', 'complex64'])
        k = dict(scales={'$s': 4}, gamma=1e-3, dWx=self.cplx(sh, dt), wavelet=self.wav(),
                 maprange=r.choice(['maximal', 'peak', {'$t': [.02, .4]}]),
                 **self.maybe(.4, ssq_freqs=['log', 'linear', {'$x': dict(
                     kind='logfreqs', shape=[na], seed=0)}], flipud=[True],
                     squeezing=['lebesgue', 'abs'], fs=[2., 50.]))
        if r.random() < .3:
            k['w'] = {'$x': dict(kind='pos', shape=sh, seed=self.seed(), dtype='float64')}
        return dict(f='ssqueeze', a=[self.cplx(sh, dt)], k=k)

    def g_padding(self):
        r = self.r
        return dict(f='utils.padsignal', a=[self.sig()],
                    k=self.maybe(.6, padtype=self.PADS[:5], padlength=[130, 200],
                                 get_params=[True]))

    def g_buffers(self):
        r = self.r
        c = r.randrange(3)
        n = r.choice([30, 41])
        if c == 0:
            seg = r.choice([6, 7, 8])
            x = {'$x': dict(kind='noise', shape=r.choice([[n], [2, n]]), seed=self.seed(),
                            dtype=r.choice(['float64', 'float32']), lay=self.lay())}
            return dict(f='utils.buffer', a=[x, seg, r.randrange(1, seg)],
                        k=self.maybe(.5, modulated=[True], parallel=[True, False]))
        hop, nfft = r.choice([1, 2]), 8
        N = 24
        win = {'$x': dict(kind='window', shape=[nfft], seed=self.seed(), lay=self.lay())}
        if c == 1:
            nh = (N - 1) // hop + 1
            return dict(f='utils.unbuffer',
                        a=[{'$x': dict(kind='noise', shape=[nfft, nh], seed=self.seed(),
                                       dtype='float64', lay=self.lay())}, win, hop, nfft, N],
                        k=self.maybe(.4, win_exp=[0, 1, 2]))
        return dict(f='utils.window_norm', a=[win, hop, nfft, N],
                    k=self.maybe(.4, win_exp=[0, 1, 2]))

    def g_windows(self):
        r = self.r
        c = r.randrange(3)
        win = r.choice([{'$s': 5}, {'$x': dict(kind='window', shape=[r.choice([15, 16, 24])],
                                               seed=self.seed(), lay=self.lay())}])
        if c == 0:
            return dict(f='_stft.get_window', a=[r.choice([None, 'hann', {'$s': 5}]), 16],
                        k=self.maybe(.5, n_fft=[16, 20, 21], derivative=[True],
                                     dtype=['float32', 'float64']))
        if c == 1:
            return dict(f='utils.window_resolution', a=[win])
        return dict(f='utils.window_area', a=[win], k=self.maybe(.5, frequency=[True]))

    def g_scales(self):
        r = self.r
        c = r.randrange(8)
        w, n = self.wav(), r.choice([64, 100])
        if c == 0:
            return dict(f='utils.cwt_scalebounds', a=[w, n], k=self.maybe(
                .5, preset=['maximal', 'minimal', 'naive', 'minimal'],
                use_padded_N=[False]))
        if c == 1:
            return dict(f='utils.make_scales', a=[n], k=dict(nv=r.choice([4, 8]), wavelet=w,
                        **self.maybe(.6, scaletype=['log', 'log-piecewise', 'linear'],
                                     min_scale=[2.], max_scale=[20.], downsample=[2, 3])))
        if c == 2:
            return dict(f='utils.process_scales', a=[self.scales(), n], k=dict(
                wavelet=w, **self.maybe(.5, nv=[4, 8], get_params=[True])))
        if c == 3:
            return dict(f='utils.infer_scaletype', a=[{'$x': dict(
                kind=r.choice(['logscales', 'linscales']), shape=[15], nv=8, seed=0)}])
        if c == 4:
            return dict(f='utils.cwt_utils.find_min_scale', a=[w], k=self.maybe(
                .4, cutoff=[.5]))
        if c == 5:
            return dict(f='utils.cwt_utils.find_max_scale', a=[w, n])
        if c == 6:
            return dict(f='utils.cwt_utils.find_downsampling_scale', a=[w, {'$x': dict(
                kind='logscales', shape=[24], nv=4, seed=0)}], k=self.maybe(.5, span=[3],
                                                                          N=[128]))
        return dict(f='utils.cwt_utils.nv_from_scales', a=[{'$x': dict(
            kind='logscales', shape=[15], nv=8, seed=0, col=True)}])

    def g_adm(self):
        return dict(f=self.r.choice(['utils.adm_ssq', 'utils.adm_cwt']), a=[self.wav()])

    def g_gmwx(self):
        r = self.r
        c = r.randrange(6)
        if c == 0:
            return dict(f='_gmw.compute_gmw', a=[r.choice([64, 65]), r.choice([5., 8.])],
                        k=self.maybe(.4, gamma=[2, 3], beta=[12, 60], time=[True],
                                     norm=['energy'], order=[1, 2], centered_scale=[True]))
        if c == 1:
            return dict(f='_gmw.morsewave', a=[32, r.choice([.5, .3, -.4])],
                        k=self.maybe(.5, K=[1, 3], norm=['energy'], beta=[12, 60]))
        if c == 2:
            return dict(f='gmwfn', a=[r.choice(['gmw_l1', 'gmw_l2', 'gmw']), self.freqs(), 3.,
                                      r.choice([12., 60.])],
                        k=self.maybe(.5, centered_scale=[True], dtype=['float64', 'float32']))
        if c == 3:
            return dict(f='gmwfn', a=[r.choice(['gmw_l1_k', 'gmw_l2_k']), self.freqs(), 3., 12.,
                                      r.choice([1, 2])],
                        k=self.maybe(.5, centered_scale=[True], dtype=['float64', 'float32']))
        if c == 4:
            return dict(f='wavfn', a=[r.choice(['morlet', 'bump', 'cmhat', 'hhhat']),
                                      self.freqs()],
                        k=self.maybe(.5, dtype=['float64', 'float32']))
        if r.random() < .5:
            return dict(f='new', a=[{'$t': ['gmw', {'$o': r.choice([1, 2])}]}],
                        k=self.maybe(.5, dtype=['float32', 'float64'], N=[32, 77]))
        return dict(f='_gmw.morsefreq', a=[3, r.choice([12, 60])], k=self.maybe(
            .5, n_out=[1, 3, 4]))

    def g_signals(self):
        r = self.r
        return dict(f='signal', a=[r.choice(['lchirp', 'echirp', 'hchirp', 'sine', 'am-cosine',
                                             'jumps', '#echirp', 'par-lchirp']),
                                   r.choice([64, 100]), r.choice([0, 1]),
                                   {'$t': [{'$o': 3}, {'$o': 4}]}])

    def g_kernels(self):
        r = self.r
        c = r.randrange(5)
        na, n, dt = 9, r.choice([14, 17]), r.choice(['complex128', 'complex64'])
        rd = {'complex128': 'float64', 'complex64': 'float32'}[dt]
        par = self.maybe(.6, parallel=[True, False])
        fr = {'$x': dict(kind=r.choice(['logfreqs', 'linfreqs']), shape=[na], seed=0)}
        log = fr['$x']['kind'] == 'logfreqs'
        if c == 0:
            return dict(f='algos.indexed_sum_onfly', a=[
                self.cplx([na, n], dt), {'$x': dict(kind='pos', shape=[na, n], dtype=rd,
                                                    seed=self.seed(), lay=self.lay())}, fr],
                k=dict(logscale=log, **self.maybe(.5, flipud=[True], const=[.3]), **par))
        if c == 1:
            return dict(f='algos.ssqueeze_fast', a=[self.cplx([na, n], dt),
                                                    self.cplx([na, n], dt), fr,
                                                    r.choice([.2, 1.])],
                        k=dict(logscale=log, gamma=1e-3, **self.maybe(.4, flipud=[True]), **par))
        if c == 2:
            return dict(f='algos.find_closest', a=[
                {'$x': dict(kind='pos', shape=[na, n], seed=self.seed(), dtype=rd,
                            lay=self.lay())}, fr],
                k=dict(logscale=log, **self.maybe(.5, smart=[True]), **par))
        if c == 3:
            return dict(f='algos.indexed_sum', a=[self.cplx([na, n], dt), {'$x': dict(
                kind='ints', shape=[na, n], hi=na, seed=self.seed(), lay=self.lay())}], k=par)
        return dict(f='utils.est_riskshrink_thresh', a=[self.cplx([na, n], dt), 4])

    def g_experimental(self):
        r = self.r
        c = r.randrange(3)
        if c == 0:
            return dict(f='experimental.freq_to_scale', a=[{'$x': dict(
                kind='logfreqs', shape=[6], seed=0, lay=self.lay())}, self.wav(), 64],
                k=self.maybe(.5, fs=[1], kind=['peak', 'energy']))
        if c == 1:
            return dict(f='experimental.scale_to_freq', a=[{'$s': 4}, self.wav(), 64],
                        k=self.maybe(.5, fs=[100], padtype=[None]))
        na = self.ctx['arrays'][4]['shape'][0]
        dt = r.choice(['complex128', 'complex64'])
        return dict(f='experimental.phase_ssqueeze', a=[self.cplx([na, 24], dt)],
                    k=dict(dWx=self.cplx([na, 24], dt), scales={'$s': 4}, wavelet=self.wav(),
                           difftype='trig', **self.maybe(.5, get_w=[True], flipud=[True],
                                                         fs=[50.])))

    def g_tools(self):
        r = self.r
        if r.random() < .5:
            return dict(f='toolkit.mad_rms', a=[{'$s': 0}, {'$s': 0}])
        return dict(f='toolkit.cos_f', a=[[1, 3], r.choice([32, 50])])

    def g_vis(self):
        r = self.r
        x = {'$s': r.choice([0, 1])}
        title = {'$t': ['a', {'$o': 5}]}
        c = r.randrange(5)
        k = self.maybe(.7, title=[title, title, 'b'])
        if c == 0:
            k.update(self.maybe(.3, abs=[1], vlines=[{'$t': [3, {'$o': 7}]}], hlines=[.5],
                                xlabel=['x'], w=[.5], xlims=[[0, 9]], ticks=[0]))
            return dict(f='vis', a=['plot', x], k=k)
        if c == 1:
            k.update(self.maybe(.3, abs=[1], norm=[[0, 2]], ridge=[1], borders=[0],
                                norm_scaling=[.5]))
            if 'ridge' in k:
                k['abs'] = 1
            return dict(f='vis', a=['imshow', {'$x': dict(
                kind='noise', shape=[9, 12], seed=self.seed(), lay=self.lay())}], k=k)
        if c == 2:
            k = self.maybe(.6, tight=[{'$o': 6}], pkw=[[{'$o': 7}, {'$o': 7}]])
            return dict(f='vis', a=['plots', [x, x], [x, x]], k=dict(nrows=2, ncols=1, **k))
        if c == 3:
            return dict(f='vis', a=['hist', x], k=dict(bins=9, **k))
        return dict(f='vis', a=['scat', x], k=k)

    def g_setting(self):
        r = self.r
        c = r.random()
        if c < .4:
            return dict(f='patience', a=[r.choice([0, 0, 1, {'$t': [1, 4]}])])
        if c < .7:
            return dict(f='cachefft', a=[r.choice([True, False])])
        return dict(f='env', a=[r.choice(['0', '1', None])])


def refs(op):
    """Indices of the shared wavelets an operation uses."""
    out = []

    def walk(v):
        if isinstance(v, dict):
            for k, x in v.items():
                if k == '$w':
                    out.append(x)
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    walk([op.get('a', []), op.get('k', {})])
    return out


def same(op, a, b, cmp):
    """None, or how outcome `b` differs from the expected `a`."""
    if a[0] != b[0]:
        return f"{b[0]} {b[1] if b[0] == 'raise' else ''}, expected {a[0]} " \
               f"{a[1] if a[0] == 'raise' else ''}"
    if a[0] == 'raise':
        return None if a[1] == b[1] else f"raised {b[1]}, expected {a[1]}"
    fa, fb = cmp.flat(a[1]), cmp.flat(b[1])
    if len(fa) != len(fb):
        return f"{len(fb)} values, expected {len(fa)}"
    ssq = 'ssq' in op['f'] or 'indexed_sum' in op['f']
    for (n, x), (_, y) in zip(fa, fb):
        d = cmp.diff1(x, y)
        if d and ssq and isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            d = cmp.diff_ssq(x, y)
        if d:
            return f"{n}: {d}"
    return None
