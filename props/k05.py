"""K05: wavelets and the CWT do not depend on threads or on mode switches."""
import os
import numpy as np
from scipy.special import eval_genlaguerre
from .kbase import KProp, real, cplx, signal
from .k01 import F

WAV = [('gmw', {}), ('gmw', dict(gamma=2, beta=20)), ('gmw', dict(norm='energy')),
       ('gmw', dict(order=1)), ('gmw', dict(order=2, norm='energy')),
       ('gmw', dict(centered_scale=True)), ('morlet', {}), ('morlet', dict(mu=5)),
       ('bump', {}), ('bump', dict(mu=4, s=.8)), ('cmhat', {}), ('cmhat', dict(mu=2, s=.7)),
       ('hhhat', {}), ('hhhat', dict(mu=3))]


def gen_wav(r, big, tier):
    return dict(wav=pick(r), n=r.randint(2, 80) if not big else
                r.randint(200, 5000), ns=r.choice([0, 1, 2, 5]) if not big else
                r.choice([1, 5, 30]), prec=r.choice(['single', 'double']),
                what=r.choice(['psih', 'psih', 'psi', 'w', 'fn', 'switch', 'xi']),
                nohalf=r.random() < .5)


def pick(r):
    """Built-in wavelets: usual parameters, or any within their range."""
    if r.random() < .4:
        name, o = r.choice(WAV)
        return [name, dict(o)]
    u = lambda a, b: round(r.uniform(a, b), r.choice([0, 1, 3]))
    name = r.choice(['gmw', 'gmw', 'morlet', 'bump', 'cmhat', 'hhhat'])
    if name == 'gmw':
        o = dict(gamma=max(1, u(1, 6)), beta=max(1, u(1, 80)))
        if r.random() < .4:
            o['norm'] = 'energy'
        if r.random() < .3:
            o['order'] = r.choice([1, 2, 3])
        if r.random() < .2:
            o['centered_scale'] = True
    elif name == 'morlet':
        o = dict(mu=max(.1, u(.2, 15)))
    elif name == 'bump':
        o = dict(mu=u(2, 8), s=max(.2, u(.2, 3)))
        if r.random() < .3:
            o['om'] = u(-1, 1)
    elif name == 'cmhat':
        o = dict(mu=u(0, 4), s=max(.2, u(.2, 3)))
    else:
        o = dict(mu=u(0, 8))
    return [name, o]


def wavelet(p):
    from ssqueezepy import Wavelet
    name, o = p['wav']
    return Wavelet((name, dict(o)), dtype='float32' if p['prec'] == 'single' else
                   'float64')


def rounding(p, inverse=False):
    """What to add to the tolerance: samples of higher-order GMWs are differences of
    larger terms, and so are their admissibility constants."""
    name, o = p['wav']
    k = max([o.get('order', 0), p.get('order') or 0, *p.get('orders', [])])
    if name != 'gmw' or not k:
        return 0
    g, b = o.get('gamma', 3), o.get('beta', 60)
    r = (2 * b + 1) / g
    amp = max(1, r) ** (k / 2)
    if inverse and o.get('order'):
        # w**g = t; integral of psi(w) / w and of its magnitude
        t = np.linspace(0, 4 * r + 60, 20001)[1:]
        f = np.exp(b / g * np.log(t) - t - (b / g * np.log(b / g) - b / g))
        f = f * eval_genlaguerre(o['order'], r - 1, 2 * t) / t
        amp *= np.abs(f).sum() / max(abs(f.sum()), 1e-300)
    return min(.05, (1e-6 if p["prec"] == "single" else 2e-15) * amp)


def make_wav(p, rng):
    n = p['n']
    dt = 'float32' if p['prec'] == 'single' else 'float64'
    sc = (np.sort(2 ** rng.uniform(0, 5, p['ns'])).reshape(-1, 1).astype(dt)
          if p['ns'] else float(2 ** rng.uniform(0, 4)))
    wv = (rng.uniform(-6, 12, (max(1, p['ns']), n)) if p['what'] == 'w' else None)
    # wavelets capture the mode at construction; mode switches afterwards
    flip = rng.integers(0, 2)

    def call(par):
        wavelet_ = wavelet(p)
        if p['what'] == 'switch' and flip:
            os.environ['SSQ_PARALLEL'] = '1' if not par else '0'
        what = p['what']
        if what in ('psih', 'switch'):
            return wavelet_(scale=sc, N=n, nohalf=p['nohalf'])
        if what == 'psi':
            return wavelet_.psifn(scale=sc, N=n)
        if what == 'w':
            return wavelet_(wv.astype(dt))
        if what == 'xi':
            return wavelet_.xifn(scale=1, N=n)
        return wavelet_.Psih(sc if p['ns'] else np.array([[sc]], dt), N=n,
                             nohalf=p['nohalf'])
    return F(call)


def gen_cwt(r, big, tier):
    return dict(wav=pick(r), n=r.choice([20, 33, 64, 100]) if not big else
                r.choice([256, 777]), nb=r.choice([0, 0, 0, 2]),
                prec=r.choice(['single', 'double']), ns=r.choice([4, 5, 9]),
                vectorized=r.random() < .6, derivative=r.random() < .5,
                dl1=r.random() < .5, cache=r.choice(['no', 'yes']),
                order=r.choice([0, 0, 0, 1]), inverse=r.random() < .3,
                padtype=r.choice(['reflect', 'zero', 'none']),
                kind=r.choice(['given', 'given', 'mixed_mode']))


def make_cwt(p, rng):
    x = signal(rng, (p['nb'], p['n']) if p['nb'] else (p['n'],), p['prec'])
    sc = 2 ** (1 + np.arange(max(4, p['ns'])) / 3.)
    import ssqueezepy as sp
    name, o = p['wav']
    flips = rng.integers(0, 2, 3)

    def call(par):
        res = []

        def flip(i):
            if p['kind'] == 'mixed_mode' and flips[i]:
                os.environ['SSQ_PARALLEL'] = \
                    '0' if os.environ['SSQ_PARALLEL'] == '1' else '1'
        w = wavelet(p)
        flip(0)
        l1 = o.get('norm') != 'energy' and (name == 'gmw' or p['dl1'])
        kw = dict(scales=sc, l1_norm=l1, vectorized=p['vectorized'])
        pad = None if p['padtype'] == 'none' else p['padtype']
        order = p['order'] if name == 'gmw' and not o.get('order') else 0
        d = sp.cwt(x, w, **kw, padtype=pad, derivative=p['derivative'] and not order,
                   order=order, cache_wavelet=p['cache'] == 'yes')
        res += [np.array(v) for v in d]
        flip(1)
        if p['cache'] == 'yes':
            res += [np.array(v) for v in sp.cwt(x * 2, w, **kw, padtype=pad,
                                                cache_wavelet=True)]
        flip(2)
        if p['inverse'] and p['ns'] > 1 and not p['nb']:
            inv = sp.icwt(res[0], w, sc, l1_norm=l1)
            # the sum, and the constant it's divided by, may cancel: differences
            # are relative to their terms
            adm = sp.utils.adm_ssq(w)
            mag = sp.icwt(np.abs(res[0]).astype(res[0].dtype), w, sc, l1_norm=l1)
            res.append((np.append(inv, np.abs(mag).max()) * adm).astype(inv.dtype))
            res.append(np.array([adm, 1], inv.dtype))
        return res
    return F(call)


class K05(KProp):
    ID = 'K05'

    def extra_tol(self, sc):
        return rounding(sc['p'])

    OPS = dict(wavelet=(5, gen_wav, make_wav), cwt=(3, gen_cwt, make_cwt))
    REAL = ['ssqueezepy.wavelets', 'ssqueezepy._gmw', 'ssqueezepy._cwt',
            'numba-generated code']


PROP = K05()
