"""S08: calls modify neither the caller's inputs nor results handed out earlier."""
import copy
import hashlib
import random
import numpy as np
from sim import cmp
from . import ops
from .hist import HistProp, gen_hist, pristine, quiet

# results that are the caller's to modify
TRANSFORMS = ('cwt', 'icwt', 'ssq_cwt', 'issq_cwt', 'stft', 'istft', 'ssq_stft',
              'issq_stft', 'fft', 'ifft', 'rfft', 'irfft', 'ssqueeze', 'utils.buffer',
              'utils.unbuffer', 'utils.trigdiff', '_ssq_cwt.phase_cwt',
              '_ssq_stft.phase_stft', '_ssq_cwt.phase_cwt_num', 'extract_ridges',
              'experimental.phase_ssqueeze', 'algos.indexed_sum_onfly',
              'algos.ssqueeze_fast', 'algos.indexed_sum', 'signal')
# positions, among results, of frequencies and scales, which may be shared
AXES = {'cwt': [1], 'ssq_cwt': [2, 3], 'ssq_stft': [2, 3], 'ssqueeze': [1],
        'experimental.phase_ssqueeze': [2, 3]}


def base(a):
    """The buffer behind a view: gaps of strided inputs belong to the caller too."""
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def walk(v, path='arg'):
    if isinstance(v, dict):
        for k in v:
            yield from walk(v[k], f'{path}[{k!r}]')
    elif isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            yield from walk(x, f'{path}[{i}]')
    else:
        yield path, v


def wsettings(w):
    xi = w.xi
    return dict(name=w.name, N=w.N, dtype=str(w.dtype), config=copy.deepcopy(
        getattr(w, 'config', None)), config_str=w.config_str, xi=cmp.digest(xi),
        fn=cmp.digest(w.fn(np.linspace(0, 9, 12).astype(w.dtype))))


class S08(HistProp):
    ID = 'S08'
    RULE = ('distinct histories of at least two returning calls; identified by the '
            'digest of all outcomes')
    ASSUME = ['results modified by the simulated caller: transforms, inverses, FFTs, '
              'frames and ridges; wavelet samples, axes and scales are not modified, '
              'as the package documents caching or passing on some of them',
              'NaN and inf of the signal given to cwt and ssq_cwt may become 0']

    def scenario(self, seed, tier):
        r = random.Random(seed)
        ctx = ops.context(r)
        hist = gen_hist(r, ops.Gen(r, ctx), r.randint(2, 8 if tier == 'quick' else 14))
        return dict(seed=r.getrandbits(40), threads=r.choice([1, 1, 2, 3]), ctx=ctx,
                    ops=hist, scribble=[int(r.random() < .5) for _ in hist])

    def run(self, sc):
        quiet()
        self.threads(sc)
        ctx, hist, scr = sc['ctx'], sc['ops'], sc['scribble']
        want = {i: pristine(ctx, hist[:i], op) for i, op in enumerate(hist)
                if any(scr[:i]) and op['f'] not in ops.SETTINGS + ('setN',)}
        env = ops.Env(ctx)
        counts = dict(calls=len(hist), inputs_compared=0, earlier_results_compared=0,
                      results_overwritten=0)
        h = hashlib.sha1()
        kept = []                       # (call, name, array, digest)
        viol = sig = None
        nok = 0

        def bad(s, text):
            nonlocal viol, sig
            if viol is None:
                viol, sig = text, s
        for i, op in enumerate(hist):
            f = op['f']
            args = ops.resolve(op, env)
            ins = [(p, v) for p, v in walk(args)]
            arrs = [(p, base(v)) for p, v in ins if isinstance(v, np.ndarray)]
            arrs += [(f'array {k}', base(v)) for k, v in env.arr.items()]
            before = [a.copy() for _, a in arrs]
            dicts = [(f'arg {j}', v) for j, v in enumerate(
                list(args[0]) + list(args[1].values()))
                if isinstance(v, (dict, list, tuple))]
            dicts += [(f'options {k}', v) for k, v in env.opt.items()]
            dbefore = [copy.deepcopy(d) for _, d in dicts]
            ws = [] if f in ('setN',) else [(k, w, wsettings(w))
                                            for k, w in env.wav.items()]
            got = ops.attempt(op, env, args)
            h.update(repr((f, got[0], cmp.digest(got[1]))).encode())
            nok += got[0] == 'ok'
            for (p, a), b in zip(arrs, before):
                counts['inputs_compared'] += 1
                if a.tobytes() != b.tobytes():
                    e = b.copy()
                    if f in ('cwt', 'ssq_cwt') and e.dtype.kind in 'fc':
                        e[~np.isfinite(e)] = 0
                    x = a.copy()
                    if f in ('cwt', 'ssq_cwt') and x.dtype.kind in 'fc':
                        x[~np.isfinite(x)] = 0
                    if x.tobytes() != e.tobytes():
                        bad('input: ' + f, f'call {i}, {f}, modified its input {p}: '
                            f'{cmp.diff1(b, a)}')
            for (p, d), b in zip(dicts, dbefore):
                if not same_plain(d, b):
                    bad('options: ' + f, f'call {i}, {f}, modified {p}: {b} became {d}')
            for k, w, b in ws:
                n = wsettings(w)
                if n != b:
                    bad('wavelet: ' + f, f'call {i}, {f}, changed wavelet {k}: ' + str(
                        {q: (b[q], n[q]) for q in b if b[q] != n[q]}))
            for j, name, a, dg in kept:
                counts['earlier_results_compared'] += 1
                if cmp.digest(a) != dg:
                    bad('result: ' + hist[j]['f'], f"call {i}, {f}, changed {name} that "
                        f"call {j}, {hist[j]['f']}, had returned")
            if i in want and viol is None:
                d = ops.same(op, want[i], got, cmp)
                if d:
                    bad('overwritten: ' + f, f"after the caller overwrote results of "
                        f"earlier calls, call {i}, {f}, differs from the same call in "
                        f"a new session: {d}")
            if viol:
                break
            if got[0] != 'ok':
                continue
            mine = [(n, a) for n, a in cmp.flat(got[1]) if isinstance(a, np.ndarray)]
            kept += [(i, n, a, cmp.digest(a)) for n, a in mine]
            if scr[i] and f in TRANSFORMS:
                self.scribble(sc, env, i, f, mine, kept, args, counts, bad)
                kept = [k if k[0] != i else (*k[:3], cmp.digest(k[2])) for k in kept]
            if viol:
                break
        return dict(viol=viol, sig=sig, hash=h.hexdigest()[:16], counts=counts,
                    key=h.hexdigest()[:16] if nok > 1 else None)

    def scribble(self, sc, env, i, f, mine, kept, args, counts, bad):
        own = list(env.arr.values()) + [v for _, v in walk(args)
                                        if isinstance(v, np.ndarray)]
        for q, (n, a) in enumerate(mine):
            if a.ndim == 0 or not a.flags.writeable or q in AXES.get(f, ()) and \
                    len(mine) > 1 or any(np.shares_memory(a, o) for o in own):
                continue
            a[...] = np.nan if a.dtype.kind in 'fc' else 7
            counts['results_overwritten'] += 1
        for j, name, a, dg in kept:
            if j != i and cmp.digest(a) != dg:
                bad('shared: ' + f, f"overwriting what call {i}, {f}, returned changed "
                    f"{name} that call {j}, {sc['ops'][j]['f']}, had returned")

    def shrink(self, sc):
        for c in self.shrink_ops(sc, least=1, also='scribble'):
            yield c
        for i, v in enumerate(sc['scribble']):
            if v:
                c = copy.deepcopy(sc)
                c['scribble'][i] = 0
                yield c


def same_plain(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(
            same_plain(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_plain, a, b))
    if isinstance(a, (int, float, str, bool, type(None))):
        return type(a) is type(b) and a == b
    return True                         # arrays are compared separately


PROP = S08()
