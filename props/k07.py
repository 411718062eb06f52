"""K07: dividing the work otherwise - by signal, by scale, in one pass or two - does not
change results. One way serially, the other under simulated threads and with garbage
memory."""
import numpy as np
from sim import cmp
from .kbase import KProp, cplx, real
from .k01 import F
from .k05 import pick, rounding, wavelet


def noisy(rng, shape, prec):
    """A broadband signal: its transforms are nowhere near zero."""
    t = np.arange(shape[-1])
    x = rng.standard_normal(shape) + np.cos(.3 * t + .002 * t ** 2)
    return x.astype('float32' if prec == 'single' else 'float64')


def dt(p):
    return 'float32' if p['prec'] == 'single' else 'float64'


class W(F):
    """one(): the reference; other(): must equal it. `ssq`: positions of values
    compared up to rounding across bins."""

    def __init__(self, p, one, other, ssq=(), swap=False, total=True):
        self.fs = (other, one) if swap else (one, other)
        self.total = total      # both ways need an axis of frequencies
        self.single, self.ssq = p['prec'] == 'single', ssq
        self.extra = rounding(p, inverse=True) if 'wav' in p else 0

    def __call__(self, par):
        return self.fs[bool(par)]()

    def cmp(self, ref, out):
        if isinstance(ref, str) or isinstance(out, str):
            if not self.total and any('`ssq_freqs`' in v for v in (ref, out)
                                      if isinstance(v, str)):
                return None             # no axis for these scales
            e = [v.split(':')[0] if isinstance(v, str) else v for v in (ref, out)]
            return None if e[0] == e[1] else cmp.diff(ref, out)
        fr, fo = cmp.flat(ref), cmp.flat(out)
        if len(fr) != len(fo):
            return f"{len(fo)} values returned, expected {len(fr)}"
        for k, ((n, a), (_, b)) in enumerate(zip(fr, fo)):
            if n.split('[')[1][:-1] in self.ssq:
                d = cmp.diff_ssq(a, b, (1e-4 if self.single else 1e-9)
                                 + self.extra)
            else:
                d = cmp.diff1(a, b, (5e-5 if self.single else 1e-9) + self.extra)
            if d:
                return f"{n}: {d}"
        return None


def stack(rs):
    """[[a0, b0], [a1, b1]] -> [stack(a), stack(b)]"""
    return [np.stack([np.asarray(r[i]) for r in rs]) for i in range(len(rs[0]))]


def scales_of(p):
    k = p['scales']
    if k == 'given':
        return 2 ** (1 + np.arange(p['ns']) / 4.)
    if k == 'lin':
        return np.linspace(2, 2 + p['ns'] / 2, p['ns'])
    return k


def gen_cwt(r, big, tier):
    return dict(wav=pick(r), n=r.choice([33, 64, 100]) if not big else r.choice([256, 500]),
                nb=r.choice([1, 2, 3]), prec=r.choice(['single', 'double']),
                ns=r.choice([4, 6, 9]), scales=r.choice(
                    ['given', 'given', 'lin', 'log', 'log-piecewise', 'log:maximal']),
                nv=r.choice([None, 4, 8]), vectorized=r.random() < .5, derivative=r.random() < .5,
                dl1=r.random() < .7, order=r.choice([0, 0, 0, 1, 2]),
                padtype=r.choice(['reflect', 'zero', 'symmetric', 'wrap', 'none']),
                fs=r.choice([None, None, 4., 100.]), rpadded=r.random() < .15,
                how=r.choice(['batch', 'batch', 'loop', 'loop', 'derivative', 'cache',
                              'scale', 'rpadded', 'orders', 'orders', 'icwt', 'mean', 'units',
                              'named', 'scales', 'unpad', 'linear', 'invlinear']),
                byt=r.random() < .5,
                swap=r.random() < .5, average=r.choice([None, True, False]),
                orders=r.choice([[0], [0, 1], [0, 2], [1, 2, 3], [2]]))


def make_cwt(p, rng):
    import ssqueezepy as sp
    how = p['how']
    name, o = p['wav']
    o = dict(o)
    if how == 'orders':
        name = 'gmw'
        o = {k: v for k, v in o.items() if k in ('gamma', 'beta', 'norm')}
    p = dict(p, wav=[name, o])
    gmw0 = name == 'gmw' and not o.get('order')
    order = p['order'] if gmw0 and how != 'orders' else 0
    l1 = o.get('norm') != 'energy' and (name == 'gmw' or p['dl1'])
    pad = None if p['padtype'] == 'none' else p['padtype']
    if how == 'rpadded':
        pad = pad or 'reflect'
    batch = how == 'batch' or (p['nb'] > 1 and how not in ('scale',))
    shape = (p['nb'], p['n']) if batch else (p['n'],)
    x = noisy(rng, shape, p['prec'])
    base = dict(scales=scales_of(p), l1_norm=l1, padtype=pad, order=order)
    if p['nv'] and isinstance(base['scales'], str):
        base['nv'] = p['nv']
    elif isinstance(base['scales'], str):
        base['nv'] = 8
    if p['fs']:
        base['fs'] = p['fs']
    der = p['derivative']

    def t(x=x, wav=None, **kw):
        kw = dict(base, vectorized=p['vectorized'], derivative=der,
                  rpadded=p['rpadded'] and pad is not None) | kw
        return [np.array(v) for v in sp.cwt(x, wav or wavelet(p), **kw)]

    def no_scales(r):
        return [r[0]] + r[2:]
    if how == 'batch':
        return W(p, lambda: stack([no_scales(t(y)) for y in x]),
                 lambda: no_scales(t()), swap=p['swap'])
    if how == 'loop':
        return W(p, lambda: t(vectorized=True), lambda: t(vectorized=False), swap=p['swap'])
    if how == 'derivative':
        return W(p, lambda: t(derivative=False), lambda: t(derivative=True)[:2],
                 swap=p['swap'])
    if how == 'cache':
        def one():
            w = wavelet(p)
            return [np.array(v) for k in range(2) for v in sp.cwt(
                x * (k + 1), w, **base, derivative=der, cache_wavelet=True)]

        def other():
            return t(vectorized=True, rpadded=False) + t(x * 2, vectorized=True,
                                                         rpadded=False)
        return W(p, one, other, swap=p['swap'])
    tup = (name, dict(o, dtype=dt(p)))
    if how == 'named':
        return W(p, t, lambda: t(wav=tup), swap=p['swap'])
    if how == 'scales':             # automatic, or the same given as an array
        def other():
            sc = np.array(t()[1])
            return t(scales=sc, nv=None)
        return W(p, t, other, swap=p['swap'])
    if how == 'units':
        # a sampling rate only names frequencies; it may be given by times
        base['derivative'] = True

        def u(k, r):
            return [r[0], r[1]] + [a / k for a in r[2:]]
        k = 4 if not p['fs'] else p['fs'] * 4
        tm = dict(fs=None, t=np.arange(p['n']) / k) if p['byt'] else dict(fs=k)
        return W(p, lambda: u(base.get('fs', 1), t(derivative=not order)),
                 lambda: u(k, t(derivative=not order, **tm)), swap=p['swap'])
    if how == 'linear':         # a sum of signals
        y = noisy(rng, shape, p['prec'])
        u, v = 1.5, -.75
        return W(p, lambda: [u * a + v * b for a, b in zip(no_scales(t()), no_scales(t(y)))],
                 lambda: no_scales(t(u * x + v * y)), swap=p['swap'])
    if how == 'scale':
        if order or isinstance(base['scales'], str):
            base['scales'], base['order'] = 2 ** (1 + np.arange(p['ns']) / 4.), 0
            base.pop('nv', 0)
        sc = base['scales']

        def other():      # a few scales at a time
            r = [no_scales(t(scales=sc[i:i + 4])) for i in range(0, len(sc) - 3, 4)]
            r = [np.concatenate([q[i] for q in r], -2) for i in range(len(r[0]))]
            return r
        k = len(sc) // 4 * 4
        return W(p, lambda: [a[..., :k, :] for a in no_scales(t())], other, swap=p['swap'])
    if how == 'rpadded':
        from ssqueezepy.utils import p2up
        n1 = p2up(p['n'])[1]
        cut = lambda r: [a[..., n1:n1 + p['n']] for a in no_scales(r)]
        return W(p, lambda: no_scales(t(rpadded=False)), lambda: cut(t(rpadded=True)),
                 swap=p['swap'])
    if how == 'orders':
        ks = tuple(p['orders'])
        av = p['average']

        def one():
            if isinstance(base['scales'], str):     # zeroth order's
                base['scales'] = np.array(t(order=0)[1])
            rs = [no_scales(t(order=k)) for k in ks]
            if len(ks) == 1:
                return rs[0]
            if av is False:
                return stack(rs)
            return [a.mean(axis=0).astype(rs[0][0].dtype) for a in stack(rs)]

        base0 = dict(base)

        def other():
            o = sp.cwt(x, wavelet(p), **dict(base0, order=ks), average=av, derivative=der,
                       vectorized=p['vectorized'],
                       rpadded=p['rpadded'] and pad is not None)
            o = [o[0]] + list(o[2:])
            return [np.stack(a) if isinstance(a, list) else np.array(a) for a in o]
        return W(p, one, other, swap=p['swap'])
    if how == 'unpad':          # a transform's inverse, its padding kept or not
        base['order'], order = 0, 0
        pad = base['padtype'] = pad or 'reflect'
        one_int = p['average'] is not False or batch

        def inv(rpadded):
            Tx, sc, *_ = sp.cwt(x, wavelet(p), **base, rpadded=rpadded)
            o = dict(scales=base['scales'], nv=base.get('nv')) if p['byt'] else dict(scales=sc)
            if not one_int:         # padding is made anew, or was kept
                return sp.icwt(Tx, wavelet(p), **o, l1_norm=l1, x_len=p['n'], padtype=pad,
                               one_int=False, rpadded=rpadded)[:p['n']]
            return sp.icwt(Tx, wavelet(p), **o, l1_norm=l1, x_len=p['n'], rpadded=rpadded)
        if one_int:
            return W(p, lambda: [inv(False)], lambda: [inv(True)], swap=p['swap'])
        from ssqueezepy.utils import padsignal

        def anew():
            Tx, sc, *_ = sp.cwt(x, wavelet(p), **base)
            o = dict(scales=base['scales'], nv=base.get('nv')) if p['byt'] else dict(scales=sc)
            o.update(l1_norm=l1, x_len=p['n'], one_int=False)
            return [lambda: sp.icwt(Tx, wavelet(p), **o, padtype=pad),
                    lambda: sp.icwt(padsignal(Tx, pad), wavelet(p), **o, rpadded=True)]
        return W(p, lambda: [anew()[0]()], lambda: [anew()[1]()], swap=p['swap'])
    # inverse: of a batch, and of a signal with a mean
    na = 12
    sc = 2 ** (1 + np.arange(na) / 4.) if p['scales'] != 'lin' else np.linspace(2, 8, na)
    if p['scales'] == 'log-piecewise':
        sc = 2 ** (1 + np.r_[0, np.cumsum(np.r_[np.full(6, .125), np.full(5, .25)])])
    T = cplx(rng, (p['nb'], na, p['n']), p['prec'])
    m = rng.standard_normal(p['nb']) * 3
    kw = dict(l1_norm=l1)

    def inv(T, **k):
        return np.asarray(sp.icwt(T, wavelet(p), sc, **kw, **k))
    if how == 'icwt':
        return W(p, lambda: [np.stack([inv(t_, x_mean=v) for t_, v in zip(T, m)])],
                 lambda: [inv(T, x_mean=m)], swap=p['swap'])
    if how == 'invlinear':
        u, v = cplx(rng, 1, 'double')[0] * 2, -.75
        U = cplx(rng, T.shape, p['prec'])
        u = float(u.real)
        return W(p, lambda: [u * inv(T) + v * inv(U)], lambda: [inv(u * T + v * U)],
                 swap=p['swap'])
    one_int = p['derivative']
    kw['one_int'] = one_int
    return W(p, lambda: [inv(T[0]) + float(m[0])],
             lambda: [inv(T[0], x_mean=float(m[0]))])


def gen_ssq(r, big, tier):
    p = gen_cwt(r, big, tier)
    p.update(how=r.choice(['batch', 'batch', 'loop', 'fused', 'fused', 'keep', 'keep',
                           'dwx', 'forward', 'forward', 'orders', 'again', 'units',
                           'named']),
             squeezing=r.choice(['sum', 'sum', 'abs', 'lebesgue']),
             freqs=r.choice([None, None, 'log', 'linear']),
             mr=r.choice(['peak', 'maximal', 'energy']), flipud=r.random() < .6,
             get_w=r.random() < .4, keep=r.choice([None, True, False]),
             padtype=r.choice(['reflect', 'zero', 'symmetric', 'none']),
             order=r.choice([0, 0, 0, 1]), difftype=r.choice(['trig', 'phase', 'numeric']),
             difforder=r.choice([1, 2, 4]))
    if p['how'] == 'forward' and r.random() < .6:
        # ways of deriving that have code of their own
        if r.random() < .5:
            p.update(wav=['gmw', dict(gamma=3, beta=r.choice([12, 60]))], order=1)
        else:
            p.update(get_w=True, nb=1, difftype='numeric')
    return p


def make_ssq(p, rng):
    import ssqueezepy as sp
    how = p['how']
    name, o = p['wav']
    o = {k: v for k, v in o.items() if k != 'norm'}
    if how == 'orders':
        name = 'gmw'
        o = {k: v for k, v in o.items() if k in ('gamma', 'beta')}
    p = dict(p, wav=[name, o])
    order = p['order'] if name == 'gmw' and not o.get('order') else 0
    batch = p['nb'] > 1 and how not in ('fused', 'again') or how == 'batch'
    x = noisy(rng, (p['nb'], p['n']) if batch else (p['n'],), p['prec'])
    sc = scales_of(p)
    mr = p['mr']
    pad = None if p['padtype'] == 'none' else p['padtype']
    base = dict(scales=sc, padtype=pad, order=order, maprange=mr,
                ssq_freqs=p['freqs'], flipud=p['flipud'], squeezing=p['squeezing'],
                vectorized=p['vectorized'], preserve_transform=p['keep'])
    if isinstance(sc, str):
        base['nv'] = p['nv'] or 8
    if p['scales'] == 'log-piecewise':
        base['maprange'] = 'peak'
    if p['fs']:
        base['fs'] = p['fs']
    getw = p['get_w'] and not batch

    def t(x=x, **kw):
        kw = dict(base, get_w=getw, get_dWx=False) | kw
        wav = kw.pop('wav', None) or wavelet(p)
        o = [np.array(v) for v in sp.ssq_cwt(x, wav, **kw)]
        f = np.sort(o[2])
        if not (f[0] > 0 and np.diff(f).min() > 1e-9):
            o[0] = np.zeros(x.shape[:-1] + (0,))      # a degenerate axis: bins have no width
        if kw['get_w']:             # ill-conditioned where the transform is small
            o[4] = np.where(np.isfinite(o[4]), o[4], 0) * np.abs(o[1])
        return o
    S = ('0',)
    if how == 'named':
        tup = (name, dict(o, dtype=dt(p)))
        return W(p, t, lambda: t(wav=tup), S, p['swap'])
    if how == 'batch':
        def one():
            rs = [t(y) for y in x]
            T = stack([r[:2] for r in rs])
            return T + rs[0][2:]
        return W(p, one, t, S, p['swap'])
    if how == 'loop':
        return W(p, lambda: t(vectorized=True), lambda: t(vectorized=False), S, p['swap'])
    if how == 'fused':
        return W(p, lambda: t(get_w=True)[:4], lambda: t(get_w=False), S, p['swap'])
    if how == 'keep':
        # the transform may be overwritten if not preserved
        k = {'sum': False}.get(p['squeezing'], None)
        return W(p, lambda: drop(t(preserve_transform=True), 1),
                 lambda: drop(t(preserve_transform=False), 1), S, p['swap'])
    if how == 'units':
        k = 4 if not p['fs'] else p['fs'] * 4
        tm = dict(fs=None, t=np.arange(p['n']) / k) if p['byt'] else dict(fs=k)

        def u(k, r):
            r[2] = r[2] / k
            r[4:] = [a / k for a in r[4:]]
            return r
        return W(p, lambda: u(base.get('fs', 1), t(get_dWx=True)),
                 lambda: u(k, t(get_dWx=True, **tm)), S, p['swap'])
    if how == 'dwx':
        return W(p, lambda: t(get_dWx=False), lambda: t(get_dWx=True)[:5 if getw else 4],
                 S, p['swap'])
    if how == 'forward':
        def fwd():
            kw = {k: base[k] for k in ('scales', 'padtype', 'order', 'vectorized', 'nv', 'fs')
                  if k in base}
            o = sp.cwt(x, wavelet(p), derivative=True, **kw)
            return [np.array(o[0]), np.squeeze(o[1])] + [np.array(a) for a in o[2:]]
        dif = {} if getw is False else dict(difftype=p['difftype'])
        if dif == dict(difftype='numeric'):
            dif['difforder'] = p['difforder']

        def other():
            o = t(get_dWx=True, preserve_transform=True, **dif)
            return [o[1], o[3], o[-1]]
        return W(p, fwd, other, swap=p['swap'], total=False)
    if how == 'orders':
        # ssq of one order in a tuple, and of it alone
        k = p['orders'][0] or 1
        return W(p, lambda: t(order=k), lambda: t(order=(k,)), S, p['swap'])

    # step by step: `ssqueeze` of what was returned
    base['order'] = 0

    def steps():
        from ssqueezepy.ssqueezing import ssqueeze
        o = t(get_dWx=True, preserve_transform=True)
        kw = dict(fs=p['fs']) if p['fs'] else {}
        if not o[0].size:
            return o[:1] + [o[2]]
        from ssqueezepy.utils import infer_scaletype
        f = o[2] if p['flipud'] else o[2]
        T, fr = ssqueeze(o[1], ssq_freqs=p['freqs'], scales=o[3], wavelet=wavelet(p),
                         dWx=o[-1], gamma=10 * np.finfo(o[1].dtype).eps,
                         squeezing=p['squeezing'], maprange=base['maprange'],
                         was_padded=pad is not None, flipud=p['flipud'], transform='cwt', **kw)
        return [T, np.array(fr)]
    return W(p, steps, lambda: drop(drop(t(get_w=False), 1), -1), S, p['swap'])


def drop(l, i):
    l = list(l)
    del l[i]
    return l


def gen_stft(r, big, tier):
    return dict(n=r.choice([40, 64, 101] if not big else [300, 512]), nb=r.choice([1, 2, 3]),
                nfft=r.choice([8, 15, 16, 31]), win=r.choice([None, 'hann', 'own']),
                wl=r.choice([0, 0, 1, 3]), hop=r.choice([1, 1, 2, 3]),
                prec=r.choice(['single', 'double']), derivative=r.random() < .5,
                mod=r.random() < .7, fs=r.choice([None, 8.]), flipud=r.random() < .5,
                squeezing=r.choice(['sum', 'sum', 'abs', 'lebesgue']),
                padtype=r.choice(['reflect', 'zero', 'symmetric', 'wrap']),
                how=r.choice(['batch', 'batch', 'derivative', 'ssq_batch', 'ssq_batch',
                              'fused', 'keep', 'forward', 'dsx', 'units', 'units', 'hop',
                              'hop', 'modulated', 'modulated', 'linear']),
                byt=r.random() < .5,
                swap=r.random() < .5, get_w=r.random() < .4)


def make_stft(p, rng):
    import ssqueezepy as sp
    how = p['how']
    batch = how in ('batch', 'ssq_batch') or (
        p['nb'] > 1 and how in ('derivative', 'keep', 'forward', 'dsx', 'hop',
                                'modulated', 'linear'))
    x = noisy(rng, (p['nb'], p['n']) if batch else (p['n'],), p['prec'])
    wl = max(4, p['nfft'] - p['wl'])
    win = p['win']
    if win == 'own':
        win = (np.hanning(wl + 2)[1:-1] + .01 * rng.random(wl))
    kw = dict(window=win, n_fft=p['nfft'], win_len=wl, padtype=p['padtype'], dtype=dt(p))
    if p['fs']:
        kw['fs'] = p['fs']
    hop = dict(hop_len=p['hop'], modulated=p['mod'])

    def t(x=x, **k):
        o = sp.stft(x, **(dict(kw, **hop, derivative=p['derivative']) | k))
        return [np.array(a) for a in (o if isinstance(o, tuple) else [o])]

    def s(x=x, **k):
        o = sp.ssq_stft(x, **(dict(kw, hop_len=1, modulated=True, flipud=p['flipud'],
                                   squeezing=p['squeezing'],
                                   get_w=p['get_w'] and not batch) | k))
        return [np.array(a) for a in o]
    S = ('0',)
    if how == 'batch':
        return W(p, lambda: stack([t(y) for y in x]), t, swap=p['swap'])
    if how == 'derivative':
        return W(p, lambda: t(derivative=False), lambda: t(derivative=True)[:1],
                 swap=p['swap'])
    if how == 'ssq_batch':
        def one():
            rs = [s(y) for y in x]
            return stack([r[:2] for r in rs]) + rs[0][2:4]
        return W(p, one, lambda: s(get_w=False), S, p['swap'])
    if how == 'fused':
        return W(p, lambda: s(get_w=True)[:4], lambda: s(get_w=False), S, p['swap'])
    if how == 'keep':
        return W(p, lambda: drop(s(preserve_transform=True), 1),
                 lambda: drop(s(preserve_transform=False), 1), S, p['swap'])
    if how == 'dsx':
        return W(p, lambda: s(get_dWx=True)[:4], lambda: s(get_dWx=False)[:4], S, p['swap'])

    if how == 'units':
        fs = kw.get('fs', 1)
        tm = dict(fs=None, t=np.arange(p['n']) / fs)
        if p['byt']:                # given by times
            return W(p, s, lambda: s(**tm), S, p['swap'])

        def u(k, r):
            return r[:1] + [a / k for a in r[1:]]
        return W(p, lambda: u(fs, t(derivative=True)),
                 lambda: u(4 * fs, t(derivative=True, fs=4 * fs)), swap=p['swap'])

    if how == 'hop':            # some of the columns
        h = p['hop'] + 1
        return W(p, lambda: [a[..., ::h] for a in t(hop_len=1)], lambda: t(hop_len=h),
                 swap=p['swap'])
    if how == 'modulated':      # differs in phase only
        n_fft = p['nfft']
        turn = np.exp(2j * np.pi * (n_fft // 2) / n_fft * np.arange(n_fft // 2 + 1))[:, None]
        return W(p, lambda: t(modulated=True),
                 lambda: [(a * turn).astype(a.dtype) for a in t(modulated=False)],
                 swap=p['swap'])
    if how == 'linear':
        y = noisy(rng, x.shape, p['prec'])
        u, v = 1.5, -.75
        return W(p, lambda: [u * a + v * b for a, b in zip(t(), t(y))],
                 lambda: t(u * x + v * y), swap=p['swap'])

    def fwd():
        return t(derivative=True, hop_len=1, modulated=True)

    def other():
        o = s(get_dWx=True, preserve_transform=True)
        return [o[1], o[-1]]
    return W(p, fwd, other, swap=p['swap'])


def gen_misc(r, big, tier):
    return dict(wav=pick(r), n=r.randint(4, 70) if not big else r.randint(100, 2000),
                nb=r.choice([1, 2, 3]), ns=r.choice([2, 3, 5]),
                prec=r.choice(['single', 'double']), swap=r.random() < .5,
                how=r.choice(['psih', 'psih', 'buffer', 'pad', 'fft', 'ssqueeze',
                              'ssqueeze', 'sparse', 'ridges', 'components', 'components', 'freqs', 'Psih',
                              'removed', 'trigdiff', 'stated']),
                seg=r.randint(2, 20), ov=r.randint(0, 19), mod=r.random() < .5,
                padtype=r.choice(['reflect', 'zero', 'symmetric', 'wrap', 'replicate']),
                na=r.randint(3, 12), squeezing=r.choice(['sum', 'abs', 'lebesgue']),
                usew=r.random() < .5, nohalf=r.random() < .5, flipud=r.random() < .5,
                stft=r.random() < .5, axis=r.choice([0, -1]), what=r.choice(
                    ['fft', 'ifft', 'rfft', 'irfft']), nr=r.choice([2, 3]),
                bw=r.choice([0, 1, 4]), penalty=r.choice([0, .5, 2, 20]))


def make_misc(p, rng):
    import ssqueezepy as sp
    from ssqueezepy.utils import buffer, padsignal
    how, n = p['how'], p['n']
    if how in ('psih', 'Psih'):
        sc = np.sort(2 ** rng.uniform(0, 5, p['ns'])).astype(dt(p)).reshape(-1, 1)
        if how == 'Psih':
            def one():
                return [np.array(wavelet(p)(scale=sc, N=n, nohalf=p['nohalf']))]

            def other():
                w = wavelet(p)
                return [np.array(w.Psih(sc, N=n, nohalf=p['nohalf'])) for _ in range(2)][:1]
        else:
            def one():
                w = wavelet(p)
                return [np.concatenate([np.atleast_2d(w(
                    scale=sc[i:i + 1], N=n, nohalf=p['nohalf'])) for i in range(len(sc))])]

            def other():
                return [np.array(wavelet(p)(scale=sc, N=n, nohalf=p['nohalf']))]
        # whether negligible imaginary parts are dropped is decided per call
        c = lambda f: lambda: [a + 0j for a in f()]
        return W(p, c(one), c(other), swap=p['swap'])
    x = noisy(rng, (p['nb'], n), p['prec'])
    if how == 'buffer':
        seg = min(p['seg'], n)
        ov = min(p['ov'], seg - 1)
        b = lambda x: buffer(x, seg, ov, modulated=p['mod'])
        return W(p, lambda: [np.stack([b(y) for y in x])], lambda: [b(x)], swap=p['swap'])
    if how == 'pad':
        pl = rng.integers(0, 2) * (n + 7) or None
        b = lambda x: padsignal(x, p['padtype'], padlength=pl)
        return W(p, lambda: [np.stack([b(y) for y in x])], lambda: [b(x)], swap=p['swap'])
    if how == 'fft':
        from ssqueezepy.utils import fft_utils as fu
        f = getattr(fu, p['what'])
        if p['what'] in ('ifft', 'irfft'):
            x = cplx(rng, (p['nb'], n), p['prec'])
        kw = dict(n=2 * (n - 1)) if p['what'] == 'irfft' else {}
        y = np.ascontiguousarray(x.T) if p['axis'] == 0 else x

        def other():
            o = np.array(f(y, axis=p['axis'], **kw))
            return [o.T if p['axis'] == 0 else o]
        return W(p, lambda: [np.stack([np.array(f(q, axis=-1, **kw)) for q in x])], other,
                 swap=p['swap'])
    na = p['na']
    if how == 'components':     # a component, and the inverse of its part of the plane
        T = cplx(rng, (na, n), p['prec'])
        K = rng.integers(1, 4)
        cc = rng.integers(0, na + 1, (n, K))
        cc[rng.random((n, K)) < .2] = -1
        cw = rng.integers(0, 4, (n, K))
        if K == 1 and p['usew']:
            cc, cw = cc[:, 0], cw[:, 0]
        inv = (lambda T, **k: np.asarray(sp.issq_cwt(T, wavelet(p), **k), 'float64')) \
            if not p['stft'] else (lambda T, **k: np.asarray(sp.issq_stft(
                T, n_fft=16, **k), 'float64'))

        def one():
            c, v = cc.reshape(n, -1), cw.reshape(n, -1)
            i = np.arange(na)[:, None]
            ms = [(np.abs(i - c[:, k]) <= v[:, k]) & (c[:, k] != -1)
                  for k in range(c.shape[1])]
            ms.append(~np.any(ms, axis=0))
            return [np.stack([inv(T * m) for m in ms])]
        return W(p, one, lambda: [inv(T, cc=cc, cw=cw)])
    if how == 'ridges':
        T = cplx(rng, (na, n), p['prec']) + 1
        sc = 2 ** (np.arange(na) / 8.) * 2 if not p['stft'] else np.linspace(0, .5, na)

        def rid(k):
            return [np.array(a)[:, :p['nr'] - 1] for a in sp.extract_ridges(
                T.copy(), sc, penalty=p['penalty'], n_ridges=k, bw=p['bw'],
                transform='stft' if p['stft'] else 'cwt', get_params=True)]
        return W(p, lambda: rid(p['nr'] - 1), lambda: rid(p['nr']), swap=p['swap'])

    if how == 'removed':        # the next ridge is that of the plane without the first
        T = cplx(rng, (na, n), p['prec']) + 1
        sc = 2 ** (np.arange(na) / 8.) * 2 if not p['stft'] else np.linspace(0, .5, na)
        bw = p['bw']

        def rid(T, k):
            return [np.array(a) for a in sp.extract_ridges(
                T.copy(), sc, penalty=p['penalty'], n_ridges=k, bw=bw,
                transform='stft' if p['stft'] else 'cwt', get_params=True)]

        def each():
            out, Tr = [], T.copy()
            for _ in range(p['nr']):
                out.append(rid(Tr, 1))
                for t, i in enumerate(out[-1][0][:, 0]):
                    Tr[max(i - bw, 0):i + bw, t] = 0
            return [np.hstack([o[i] for o in out]) for i in range(3)]
        return W(p, each, lambda: rid(T, p['nr']), swap=p['swap'])
    if how == 'trigdiff':
        from ssqueezepy.utils import padsignal, p2up, trigdiff
        A = cplx(rng, (na, n), p['prec'])
        fs = p['seg'] * .5
        n1 = p2up(n)[1]
        pad = p['padtype']
        fs2 = np.float64(fs)                # as if derived from time
        ways = [lambda: trigdiff(A, fs2, pad, N=n),
                lambda: trigdiff(padsignal(A, pad), fs2, rpadded=True, N=n),
                lambda: trigdiff(padsignal(A, pad), fs, rpadded=True, N=n, n1=n1)]
        k = p['nr'] + p['usew'] - 2         # 0..2
        return W(p, lambda: [np.array(trigdiff(A, fs, pad))], lambda: [np.array(ways[k]())],
                 swap=p['swap'])
    if how == 'stated':         # what would be inferred
        m = p['seg'] + 3
        x = noisy(rng, (max(n, 2 * m),), p['prec'])
        hop = 1 + p['ov'] % 3
        win = [None, 'hann', 'hamming'][p['nr'] - 2 + p['usew']]
        kw = dict(n_fft=m, hop_len=hop, window=win, modulated=p['mod'])

        def one():
            Sx = sp.stft(x, dtype=dt(p), **kw)
            return [np.array(a) for a in (Sx, sp.istft(Sx, **kw))]

        def other():
            Sx = sp.stft(x, fs=1., win_len=m, dtype=dt(p), **kw)
            return [np.array(a) for a in (Sx, sp.istft(Sx, win_len=m, **kw,
                                                       N=hop * Sx.shape[1]))]
        return W(p, one, other, swap=p['swap'])

    # reassigning planes
    Wx = cplx(rng, (p['nb'], na, n), p['prec'])
    Wx += (.5 * Wx / np.abs(Wx)).astype(Wx.dtype)
    f = np.linspace(1, 9, na) if p['stft'] else .02 * 2. ** (np.arange(na) / 8)
    b = rng.integers(0, na, Wx.shape)
    w = f[b] * (1 + .01 * rng.uniform(-1, 1, Wx.shape))
    from ssqueezepy.ssqueezing import ssqueeze
    Sfs = np.linspace(0, 9, na).astype(dt(p)) if p['stft'] else None
    dWx = (2j * np.pi * ((Sfs[:, None] - w) if p['stft'] else w) * Wx).astype(Wx.dtype)
    small = rng.random(Wx.shape) < .2
    Wx[small] *= 1e-3
    dWx[small] *= 1e-3
    gamma = .1
    wi = np.where(np.abs(Wx) > gamma, w, np.inf).astype(dt(p))
    kw = dict(ssq_freqs=f, squeezing=p['squeezing'], flipud=p['flipud'],
              transform='stft' if p['stft'] else 'cwt')
    if not p['stft']:
        kw['scales'] = 3 * 2 ** (np.arange(na) / 8.)

    def sq(Wx, w, dWx, usew=p['usew']):
        k = dict(w=w) if usew else dict(dWx=dWx, gamma=gamma, Sfs=Sfs)
        return [np.array(o) for o in ssqueeze(Wx.copy(), **k, **kw)]
    if how == 'sparse':         # columns are independent
        cut = rng.integers(1, n) if n > 1 else 1
        c = slice(cut, None)
        return W(p, lambda: [sq(Wx[0], wi[0], dWx[0])[0][:, c]],
                 lambda: [sq(np.ascontiguousarray(Wx[0][:, c]), np.ascontiguousarray(
                     wi[0][:, c]), np.ascontiguousarray(dWx[0][:, c]))[0]],
                 ('0',), p['swap'])
    if how == 'freqs':          # with the phase transform, or the derivative
        return W(p, lambda: sq(Wx[0], wi[0], dWx[0], True),
                 lambda: sq(Wx[0], wi[0], dWx[0], False), ('0',), p['swap'])

    def one():
        rs = [sq(*a) for a in zip(Wx, wi, dWx)]
        return [np.stack([r[0] for r in rs]), rs[0][1]]
    return W(p, one, lambda: sq(Wx, wi, dWx), ('0',), p['swap'])


class K07(KProp):
    ID = 'K07'
    OPS = dict(cwt=(5, gen_cwt, make_cwt), ssq_cwt=(5, gen_ssq, make_ssq),
               stft=(3, gen_stft, make_stft), parts=(4, gen_misc, make_misc))
    REAL = ['ssqueezepy.algos (compiled kernels)', 'ssqueezepy.ssqueezing',
            'ssqueezepy.ssq_cwt', 'ssqueezepy.ssq_stft', 'ssqueezepy.wavelets',
            'ssqueezepy._cwt', 'ssqueezepy._stft', 'ssqueezepy.ridge_extraction',
            'numba-generated code']


PROP = K07()
