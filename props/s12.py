"""S12: concurrent callers get the results they would get alone."""
import copy
import hashlib
import random
from sim import cmp, engine, mem, parfor, pymon
from . import ops
from .hist import HistProp, pristine, quiet
from .s08 import wsettings

LEAVE = ('.info', 'vis', 'signal', 'setN') + ops.SETTINGS


def policy(p, nthreads):
    """Where to switch: an explicit list, or drawn from a seed."""
    if p['kind'] == 'list':
        at = {int(n): j for n, j in p['at']}

        def f(n, i, code, alive):
            j = at.get(n, i)
            return j if j in alive else i
        return f
    r = random.Random(p['seed'])
    pick = lambda i, alive: r.choice([j for j in alive if j != i])
    if p['kind'] == 'rate':
        return lambda n, i, code, alive: pick(i, alive) if r.random() < p['p'] else i
    if p['kind'] == 'points':
        at = {int(10 ** (r.random() * p['len'])) for _ in range(p['d'])}
        return lambda n, i, code, alive: pick(i, alive) if n in at else i
    # inside certain functions, chosen by name
    salt = p['seed']
    chosen = {}

    def g(n, i, code, alive):
        c = chosen.get(code)
        if c is None:
            c = chosen[code] = int(hashlib.sha1(
                f"{salt}{code.co_filename.rsplit('/', 1)[-1]}{code.co_qualname}".encode()
            ).hexdigest()[:4], 16) < 65536 * p['share']
        return pick(i, alive) if c and r.random() < p['p'] else i
    return g


class S12(HistProp):
    ID = 'S12'
    RUNS = dict(quick=2800, thorough=300000)
    COOP_LOCKS = True
    CAP = dict(quick=50, thorough=1800)
    RULE = ('distinct runs with at least one switch between unfinished calls; identified '
            'by the digest of the outcomes and of the sequence of switches')
    REAL = ['all of ssqueezepy on CPU, in real Python threads of which one at a time '
            'advances', 'compiled kernels']
    STUB = ['the thread scheduler: switches only before bytecode instructions of the '
            'package, where the schedule says', "numba's threading layer", 'pyfftw',
            'threading.Lock and RLock, if used: waiting passes the baton']
    ASSUME = ['a switch happens between bytecode instructions of the package, not within '
              'a call to numpy, scipy or a compiled kernel',
              'FFT objects are not cached (the default)',
              'functions changing global settings, plotting, printing and making test '
              'signals are not called concurrently']

    def scenario(self, seed, tier):
        r = random.Random(seed)
        ctx = ops.context(r)
        g = ops.Gen(r, ctx, settings=False)
        nt = r.choice([2, 2, 2, 3])

        def gen():
            while True:
                op = g.op()
                if op['f'] not in LEAVE:
                    return op
        lists = [[gen() for _ in range(r.randint(1, 3))] for _ in range(nt)]
        c = r.random()
        if c < .5:
            # the same kind of call, on the same wavelet, with different data
            for l in lists[1:]:
                op = copy.deepcopy(lists[0][0])
                new = gen()
                for _ in range(40):
                    if new['f'] == op['f']:
                        break
                    new = gen()
                if new['f'] == op['f'] and r.random() < .8:
                    w = [v for v in op['a'] if isinstance(v, dict) and '$w' in v]
                    if w:
                        new['a'] = [w[0] if isinstance(v, dict) and '$w' in v else v
                                    for v in new['a']]
                    op = new
                l[0] = op
        s = r.getrandbits(32)
        pol = r.choice([dict(kind='rate', p=r.choice([.3, .05, .01, .002]), seed=s),
                        dict(kind='points', d=r.choice([1, 2, 3, 5]), len=r.choice([3.5, 4.5]),
                             seed=s),
                        dict(kind='func', p=r.choice([.5, .1, .02]), share=r.choice([.02, .1]),
                             seed=s),
                        dict(kind='func', p=r.choice([.5, .1]), share=.05, seed=s)])
        return dict(seed=r.getrandbits(40), threads=r.choice([1, 2, 3]), ctx=ctx, lists=lists,
                    policy=pol, first=r.randrange(nt), used=r.random() < .4)

    def run(self, sc):
        quiet()
        self.threads(sc)
        ctx = sc['ctx']
        want = [[pristine(ctx, [], op) for op in l] for l in sc['lists']]
        base = ops.Env(ctx)
        shared = sorted({i for l in sc['lists'] for op in l for i in ops.refs(op)})
        for i in shared:
            base.w(i)
        if sc['used']:                      # the shared wavelets have been used before
            for i in shared:
                w = base.w(i)
                w.Psih(scale=ops.array(ctx['arrays'][4]))
        before = {i: wsettings(base.w(i)) for i in shared}
        import ssqueezepy as sp
        F = sp.FFT_GLOBAL
        glob = lambda: (F.patience, F.planning_timelimit, F.cache_fft_objects, F.threads)
        gbefore = glob()

        def caller(l):
            env = ops.Env(ctx)
            env.wav = base.wav

            def f():
                mem.here()
                return [ops.attempt(op, env) for op in l]
            return f
        b = pymon.Baton([caller(l) for l in sc['lists']], policy(sc['policy'], len(sc['lists'])),
                        sc['first'])
        viol = sig = None
        try:
            out = b.run()
        except pymon.Deadlock as e:
            out, viol, sig = None, f'deadlock: {e}', 'deadlock'
        h = hashlib.sha1(repr(b.switches).encode())
        counts = dict(calls=sum(map(len, sc['lists'])), instructions=b.n,
                      switches=len(b.switches), switch_points=len(b.seen))
        for t, l in enumerate(sc['lists'] if out else []):
            if out[t] and out[t][0] == 'harness':
                raise RuntimeError(out[t][1])
            for i, op in enumerate(l):
                h.update(repr((op['f'], out[t][i][0], cmp.digest(out[t][i][1]))).encode())
                d = viol is None and ops.same(op, want[t][i], out[t][i], cmp)
                if d:
                    viol = f"thread {t}, call {i}, {op['f']}, differs from the call made " \
                           f"alone: {d}"
                    sig = 'result: ' + op['f']
        for i in shared:
            n = wsettings(base.w(i))
            if n != before[i] and viol is None:
                viol = f"shared wavelet {i} changed: " + str(
                    {q: (before[i][q], n[q]) for q in n if n[q] != before[i][q]})
                sig = 'wavelet'
        if glob() != gbefore and viol is None:
            viol, sig = f"FFT settings changed: {gbefore} became {glob()}", 'settings'
        if viol is None and out:
            # the shared wavelets still serve later calls
            for t, l in enumerate(sc['lists']):
                env = ops.Env(ctx)
                env.wav = base.wav
                for i, op in enumerate(l):
                    if ops.refs(op) and viol is None:
                        d = ops.same(op, want[t][i], ops.attempt(op, env), cmp)
                        if d:
                            viol = f"after the threads ended, {op['f']} on a wavelet they " \
                                   f"shared differs from the call made alone: {d}"
                            sig = 'later: ' + op['f']
        rec = sc
        if viol and sc['policy']['kind'] != 'list':
            rec = copy.deepcopy(sc)
            rec['policy'] = dict(kind='list', at=[list(s) for s in b.switches])
        hx = h.hexdigest()[:16]
        return dict(viol=viol, sig=sig, hash=hx, counts=counts, sc=rec,
                    key=hx if b.switches else None)

    def shrink(self, sc):
        from sim.engine import ddmin_lists
        p = sc['policy']
        if p['kind'] == 'list':
            for keep in ddmin_lists(p['at']):
                c = copy.deepcopy(sc)
                c['policy']['at'] = keep
                yield c
        for t, l in enumerate(sc['lists']):
            for i in range(len(l)):
                if len(l) > 1:
                    c = copy.deepcopy(sc)
                    del c['lists'][t][i]
                    yield c
        if sc['used']:
            yield dict(copy.deepcopy(sc), used=False)


PROP = S12()
