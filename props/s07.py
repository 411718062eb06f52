"""S07: a call's result depends only on its arguments, not on earlier calls."""
import random
from sim import cmp
from . import ops
from .hist import HistProp, gen_hist, pristine, quiet
import hashlib


class S07(HistProp):
    ID = 'S07'
    RULE = ('distinct histories of at least two calls of which two share a wavelet '
            'object, an array or a setting; identified by the digest of all outcomes')
    ASSUME = ['the reference for each call is the same call made alone in a process '
              'forked from one that imported the package and called nothing',
              'compared up to rounding (1e-9, 2e-5 in single precision, of the largest '
              'magnitude)']

    def scenario(self, seed, tier):
        r = random.Random(seed)
        ctx = ops.context(r)
        hist = gen_hist(r, ops.Gen(r, ctx), r.randint(2, 9 if tier == 'quick' else 16))
        return dict(seed=r.getrandbits(40), threads=r.choice([1, 1, 2, 3, 4]), ctx=ctx,
                    ops=hist)

    def run(self, sc):
        quiet()
        self.threads(sc)
        ctx, hist = sc['ctx'], sc['ops']
        want = [None if op['f'] in ops.SETTINGS + ('setN',) else
                pristine(ctx, hist[:i], op) for i, op in enumerate(hist)]
        env = ops.Env(ctx)
        viol = sig = None
        h = hashlib.sha1()
        counts = {'calls': len(hist)}
        for i, op in enumerate(hist):
            got = ops.attempt(op, env)
            h.update(repr((op['f'], got[0], cmp.digest(got[1]))).encode())
            counts['raised' if got[0] == 'raise' else 'returned'] = counts.get(
                'raised' if got[0] == 'raise' else 'returned', 0) + 1
            if want[i] is None:
                if got[0] == 'raise':
                    raise RuntimeError(f'harness: {op}: {got}')
                continue
            d = ops.same(op, want[i], got, cmp)
            if d:
                viol = (f"call {i}, {op['f']}, differs from the same call in a new "
                        f"session: {d}")
                sig = 'history: ' + op['f']
                break
        shared = [x for op in hist for x in ops.refs(op)]
        return dict(viol=viol, sig=sig, hash=h.hexdigest()[:16], counts=counts,
                    key=h.hexdigest()[:16] if len(shared) > len(set(shared)) or
                    any(op['f'] in ops.SETTINGS for op in hist) else None)

    def shrink(self, sc):
        yield from self.shrink_ops(sc, least=1)


PROP = S07()
