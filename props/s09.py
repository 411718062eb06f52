"""S09: a call that fails leaves the session as it was."""
import copy
import hashlib
import os
import random
import sys
import numpy as np
from sim import cmp, engine, pymon
from . import ops
from .hist import HistProp, gen_hist, pristine, quiet
from .s08 import base, same_plain, walk, wsettings

EXC = dict(memory=MemoryError, interrupt=KeyboardInterrupt, io=OSError,
           runtime=RuntimeError)


def spoil(r, op):
    """The operation with one argument made invalid."""
    op = copy.deepcopy(op)
    a, k = op.get('a', []), op.setdefault('k', {})
    c = r.randrange(5)
    if c == 0 and k:
        q = r.choice(sorted(k))
        k[q] = r.choice(['nonsense', -7, {'$t': [1, 2, 3]}, [], 1e300])
    elif c == 1 and a:
        i = r.randrange(len(a))
        a[i] = r.choice([None, 'nonsense', -3, [], {'$x': dict(
            kind='noise', shape=[2, 2, 2], seed=0)}, {'$x': dict(kind='noise', shape=[0],
                                                             seed=0)}])
    elif c == 2:
        k[r.choice(['patience', 'nv', 'N', 'scale', 'scales', 'dtype', 'padtype', 'order'])] = \
            r.choice(['nonsense', -7, 0, 2.5, None])
    elif c == 3 and a:
        a[r.randrange(len(a))] = {'$x': dict(kind='nan', shape=[r.choice([1, 2, 5])], seed=1)}
    else:
        k['wavelet'] = 'nonsense'
    return op


RESETS = ('N=', '.reset_properties', '.info')
PROPS = ['wc', 'wc_ct', 'scalec_ct', 'std_t', 'std_w', 'std_t_d', 'std_w_d']


def glob():
    import ssqueezepy as sp
    F = sp.FFT_GLOBAL
    return dict(patience=F.patience, planning_timelimit=F.planning_timelimit,
                cache_fft_objects=F.cache_fft_objects, threads=F.threads,
                verbose=F.verbose, numpy_errors=np.geterr(), stdout=id(sys.stdout),
                environ={k: v for k, v in os.environ.items() if k.startswith('SSQ')},
                cwd=os.getcwd())


def known(w, names=None):
    """Time-frequency properties already computed (of those given)."""
    out = {}
    for p in PROPS:
        if (p in names if names is not None else getattr(w, '_' + p, None) is not None):
            out[p] = float(getattr(w, p))
    return out


def places(job):
    """How many places the call has where it could fail, in a process of its own."""
    ctx, prefix, op, where = job
    env = ops.Env(ctx)
    for p in prefix:
        ops.attempt(p, env)
    args = resolved(op, env)
    with pymon.Striker(None, -1, where) as s:
        if args is not None:
            ops.attempt(op, env, args)
    return s.n


def resolved(op, env):
    try:
        return ops.resolve(op, env)
    except Exception:
        return None


class S09(HistProp):
    ID = 'S09'
    RULE = ('distinct runs in which a call failed because of an injected error or an '
            'invalid argument; identified by place, error and the digest of all outcomes')
    ASSUME = ['an error strikes at a call about to be made by package code (memory, I/O, '
              'runtime error, interrupt), or at a function entry or backward jump '
              '(interrupt); one error per failing call',
              'arrays the caller passed may have NaN and inf of the signal zeroed, as '
              'documented',
              'the later calls are compared with the same calls in a new session']

    def scenario(self, seed, tier):
        r = random.Random(seed)
        ctx = ops.context(r)
        g = ops.Gen(r, ctx)
        if r.random() < .12:
            return self.resetting(r, ctx, g)
        if r.random() < .1:
            return self.planning(r, ctx, g)
        prefix = gen_hist(r, g, r.randint(0, 3))
        fails = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            while True:
                op = r.choice(prefix) if prefix and r.random() < .3 else g.op()
                if op['f'] not in ops.SETTINGS + ('setN', 'vis'):
                    break
            if r.random() < .25:
                fails.append(dict(op=spoil(r, op), exc=None))
            else:
                e = r.choice(['memory', 'memory', 'interrupt', 'interrupt', 'io', 'runtime'])
                fails.append(dict(op=op, exc=e, at=r.random(), where='any' if e == 'interrupt'
                                  and r.random() < .6 else 'call'))
        after = []
        for f in fails:
            if f['exc'] and r.random() < .8:
                after.append(f['op'])
        while not after or r.random() < .45:
            after.append(r.choice(prefix) if prefix and r.random() < .4 else g.op())
        after = [op for op in after if op['f'] not in ops.SETTINGS + ('setN',)]
        return dict(seed=r.getrandbits(40), threads=r.choice([1, 1, 2, 3]), ctx=ctx,
                    prefix=prefix, fails=fails, after=after)

    def resetting(self, r, ctx, g):
        """A failure to change the length of a wavelet, or to recompute its properties."""
        w = {'$w': r.randrange(len(ctx['wavelets']))}
        prefix = gen_hist(r, g, r.randint(0, 1))
        prefix += [dict(f='@' + p, a=[w], k={}) for p in r.sample(PROPS, r.randint(1, 4))]
        ns = [128, 200, 201, 256]
        prefix.append(dict(f='N=', a=[w, r.choice(ns)], k={}))
        fails = []
        for _ in range(r.randint(1, 2)):
            op = r.choice([dict(f='N=', a=[w, r.choice(ns)], k={}),
                           dict(f='.reset_properties', a=[w], k={}),
                           dict(f='.info', a=[w], k=dict(reset=True))])
            if op['f'] == 'N=' and r.random() < .3:
                op['a'] = [w, r.choice([0, -1, 'nonsense', None, 2.5])]
                fails.append(dict(op=op, exc=None))
            else:
                e = r.choice(['memory', 'interrupt', 'io', 'runtime'])
                fails.append(dict(op=op, exc=e, at=r.random(), where='any'
                                  if e == 'interrupt' else 'call'))
        return dict(seed=r.getrandbits(40), threads=r.choice([1, 2]), ctx=ctx,
                    prefix=prefix, fails=fails, after=[])

    def planning(self, r, ctx, g):
        """A failure to plan a transform, plans being kept."""
        f = r.choice([g.g_fft, g.g_fft, g.g_cwt, g.g_stft])
        g.odd = False
        op = f()
        if 'patience' in op['k'] or f == g.g_fft:
            op['k']['patience'] = r.choice([1, 1, 2, {'$t': [1, .01]}])
        prefix = [dict(f='cachefft', a=[True])] + [f() for _ in range(r.randint(0, 2))]
        e = r.choice(['memory', 'interrupt', 'io', 'runtime'])
        fails = [dict(op=op, exc=e, at=r.random(), where='any' if e == 'interrupt'
                      and r.random() < .6 else 'call')]
        return dict(seed=r.getrandbits(40), threads=r.choice([1, 2]), ctx=ctx,
                    prefix=prefix, fails=fails, after=[op, op])

    def run(self, sc):
        quiet()
        self.threads(sc)
        ctx, prefix = sc['ctx'], sc['prefix']
        want = [pristine(ctx, prefix, op) for op in sc['after']]
        ks = []
        for f in sc['fails']:
            if f['exc'] is None or 'k' in f:
                ks.append(f.get('k'))
                continue
            st, n = engine.isolated(places, (ctx, prefix, f['op'], f['where']), 60)
            n = n if st == 'ok' else 0
            # half of them among the first few, the others anywhere
            ks.append(int(f['at'] * n))
        env = ops.Env(ctx)
        for p in prefix:
            ops.attempt(p, env)
        viol = sig = None
        h = hashlib.sha1()
        counts = dict(failed_calls=0, survived=0, later_calls=0)
        failed = []

        def bad(s, text):
            nonlocal viol, sig
            if viol is None:
                viol, sig = text, s
        for f, k in zip(sc['fails'], ks):
            op = f['op']
            args = resolved(op, env)
            if args is None:
                continue
            arrs = [(p, base(v)) for p, v in walk(args) if isinstance(v, np.ndarray)]
            arrs += [(f'array {q}', base(v)) for q, v in env.arr.items()]
            abefore = [a.copy() for _, a in arrs]
            dicts = [(f'arg {j}', v) for j, v in enumerate(
                list(args[0]) + list(args[1].values())) if isinstance(v, (dict, list, tuple))]
            dicts += [(f'options {q}', v) for q, v in env.opt.items()]
            dbefore = [copy.deepcopy(d) for _, d in dicts]
            ws = [(q, w, wsettings(w), known(w)) for q, w in env.wav.items()]
            g0 = glob()
            at = None
            if f['exc']:
                with pymon.Striker(EXC[f['exc']]('injected'), k, f['where']) as s:
                    try:
                        got = ops.attempt(op, env, args)
                    except KeyboardInterrupt:
                        got = ('raise', 'KeyboardInterrupt')
                at = s.at
                name = f"{op['f']}, struck by {f['exc']} error {k} at {at}"
            else:
                got = ops.attempt(op, env, args)
                name = f"{op['f']}, with invalid arguments"
            h.update(repr((at, f['exc'], got[0])).encode())
            if got[0] == 'raise':
                counts['failed_calls'] += 1
                key = f"failure: {f['exc'] or 'invalid arguments'}"
                counts[key] = counts.get(key, 0) + 1
                failed.append(at)
            else:
                counts['survived'] += 1
            for (p, a), b in zip(arrs, abefore):
                if a.tobytes() != b.tobytes():
                    x, e = a.copy(), b.copy()
                    if op['f'] in ('cwt', 'ssq_cwt') and x.dtype.kind in 'fc':
                        x[~np.isfinite(x)] = e[~np.isfinite(e)] = 0
                    if x.tobytes() != e.tobytes():
                        bad('input: ' + op['f'], f'{name}: {p} changed: {cmp.diff1(b, a)}')
            for (p, d), b in zip(dicts, dbefore):
                if not same_plain(d, b):
                    bad('options: ' + op['f'], f'{name}: {p} changed: {b} became {d}')
            for q, w, b, kn in ws:
                try:
                    n = wsettings(w)
                    if got[0] == 'raise':
                        now = known(w, kn)
                        if op['f'] == '.info' and now != kn:
                            # also fine: all recomputed, and then printing failed
                            w.reset_properties()
                            if now == known(w, kn):
                                kn = now
                        b, n = {**b, **kn}, {**n, **now}
                except Exception as e:
                    n = dict(error=f'{type(e).__name__}: {e}')
                if n != b and (got[0] == 'raise' or op['f'] not in RESETS):
                    bad('wavelet: ' + op['f'], f'{name}: wavelet {q} changed: ' + str(
                        {y: (b.get(y), n.get(y)) for y in {*b, *n} if b.get(y) != n.get(y)}))
            g1 = glob()
            if g1 != g0:
                bad('settings: ' + op['f'], f'{name}: settings changed: ' + str(
                    {y: (g0[y], g1[y]) for y in g0 if g0[y] != g1[y]}))
            if viol:
                break
        for i, op in enumerate(sc['after'] if not viol else []):
            got = ops.attempt(op, env)
            counts['later_calls'] += 1
            h.update(repr((op['f'], got[0], cmp.digest(got[1]))).encode())
            d = ops.same(op, want[i], got, cmp)
            if d:
                bad('later: ' + op['f'], f"after the failure of "
                    f"{[(f['op']['f'], f['exc']) for f in sc['fails']]} at {failed}, "
                    f"{op['f']} differs from the same call in a new session: {d}")
                break
        hx = h.hexdigest()[:16]
        rec = sc
        if viol:
            rec = copy.deepcopy(sc)
            for f, k in zip(rec['fails'], ks):
                if k is not None:
                    f['k'] = k
        return dict(viol=viol, sig=sig, hash=hx, counts=counts, sc=rec,
                    key=hx if failed else None)

    def shrink(self, sc):
        yield from self.shrink_ops(sc, 'prefix')
        if len(sc['fails']) > 1:
            for i in range(len(sc['fails'])):
                c = copy.deepcopy(sc)
                del c['fails'][i]
                yield c
        if len(sc['after']) > 1:
            for i in range(len(sc['after'])):
                c = copy.deepcopy(sc)
                del c['after'][i]
                yield c

    def extra_evidence(self, c):
        return dict(faults_injected={k[9:]: v for k, v in sorted(c.items())
                                     if k.startswith('failure: ')})


PROP = S09()
