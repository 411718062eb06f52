"""Stage 2: the process every simulated run is forked from."""
import glob
import importlib
import json
import os
import sys
import time


def kernels():
    """(module, name) -> numba dispatcher, for every jitted function loaded."""
    from numba.core.dispatcher import Dispatcher
    out, seen = {}, set()
    for m in sorted(k for k in sys.modules if k.split('.')[0] == 'ssqueezepy'):
        for n, v in sorted(vars(sys.modules[m]).items()):
            if isinstance(v, Dispatcher) and id(v) not in seen:
                seen.add(id(v))
                out[m, n] = v
    return out


def signatures():
    return {k: [tuple(s) for s in d.signatures] for k, d in kernels().items()
            if d.signatures}


def load_signatures(sigs):
    ks = kernels()
    n = 0
    for k, ss in sigs.items():
        if k in ks:
            for s in ss:
                try:
                    ks[k].compile(s)
                    n += 1
                except Exception:
                    pass       # compiled on first use instead
    return n


def import_deps(pyfftw='stub', gpu=False):
    import multiprocessing
    multiprocessing.cpu_count = lambda: 1   # simulated machine, for FFT libraries
    import numpy, scipy.fft, scipy.signal, scipy.integrate, scipy.stats  # noqa
    import scipy.interpolate, scipy.optimize, scipy.special  # noqa
    import numba  # noqa
    import matplotlib.pyplot, matplotlib.animation  # noqa
    if pyfftw == 'stub':
        from sim import simfftw
        simfftw.install()
    elif pyfftw == 'both':
        import pyfftw as real
        from sim import simfftw
        simfftw.REAL = real
        simfftw.install()
    elif pyfftw == 'none':
        sys.modules['pyfftw'] = None
    from sim import mem, parfor
    mem.install(os.environ['SSQSIM_MEM'])
    parfor.install(os.environ['SSQSIM_VSCHED'])
    parfor.configure()
    if gpu:
        from sim import simgpu
        simgpu.install()


def quiet():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')


def import_ssq():
    import ssqueezepy
    quiet()
    root = os.environ['SSQSIM_REPO'] + '/'
    f = os.path.realpath(ssqueezepy.__file__)
    if not f.startswith(os.path.realpath(root)):
        raise RuntimeError("wrong ssqueezepy: " + f)
    # every module, so that no run imports
    for m in ('algos', '_cwt', '_stft', '_ssq_cwt', '_ssq_stft', 'experimental',
              'ridge_extraction', 'ssqueezing', 'wavelets', '_gmw', 'toolkit',
              'visuals', '_test_signals', 'utils.cwt_utils', 'utils.stft_utils'):
        try:
            importlib.import_module('ssqueezepy.' + m)
        except ImportError:
            pass
    import scipy.stats  # noqa


def warm(prop):
    from sim.engine import pmap
    jobs = prop.warm()

    def job(f):
        import_ssq()
        try:
            f()
        except Exception:
            pass         # the runs will meet it again and judge it
        return signatures()
    allsigs = {}
    for i, status, s in pmap(job, jobs, timeout=300):
        if status == 'ok':
            for k, ss in s.items():
                have = allsigs.setdefault(k, [])
                have.extend(x for x in ss if x not in have)
    return allsigs


def main(a, verif):
    from sim import engine
    t0 = time.time()
    mod = importlib.import_module('props.' + a.property.lower())
    prop = mod.PROP
    prop.VERIF = verif
    if a.runs:
        prop.RUNS = {a.tier: a.runs}
    if a.cap:
        prop.CAP = {a.tier: a.cap}
    work = os.environ['SSQSIM_WORK']
    import_deps(prop.PYFFTW, prop.GPU)
    if prop.COOP_LOCKS:
        from sim import pymon
        pymon.install_locks()
    quiet()
    if a.replay:
        rec = json.load(open(a.replay))
        prop.WARMED = {}
        if prop.IMPORT_SSQ:
            import_ssq()
        st, r = engine.isolated(lambda s: engine.run_one(prop, s),
                                rec['scenario'], 600)
        if engine.match(st, r, rec['sig']):
            same = isinstance(r, dict) and r.get('hash') == rec['hash']
            print("REPLAYED:", r['viol'] if isinstance(r, dict) else st)
            print("history identical to the recorded one:",
                  bool(same or rec['hash'] is None))
            print(f"VIOLATION property={prop.ID} replay={a.replay}")
            return 1
        print("replay did not violate:", st, r if st != 'ok' else r['viol'])
        return 0
    sigs = warm(prop)
    nk = 0
    if prop.IMPORT_SSQ:
        import_ssq()
        nk = load_signatures(sigs)
    prop.WARMED = sigs
    t_warm = time.time() - t0
    if a.only is not None:
        sc = prop.scenario(engine.subseed(a.seed, prop.ID, a.only), a.tier)
        print(json.dumps(sc, default=str))
        r = engine.run_one(prop, sc)
        print({k: v for k, v in r.items() if k != 'sc'})
        return 0
    viols, ev, notes = engine.search(prop, a.tier, a.seed, work, verif=verif)
    ev['coverage']['warmup_s'] = round(t_warm, 1)
    ev['coverage']['kernels_loaded'] = nk
    ev['wall_s'] = round(time.time() - t0, 2)
    known = known_findings(verif)
    new = []
    for v in viols:
        k = next((k for k in known if k['property'] == prop.ID and
                  k['sig'] == v['sig']), None)
        if k:
            print(f"KNOWN-FINDING: property={prop.ID} {k['what']}")
        else:
            new.append(v)
    ev['violations'] = len(new)
    os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
    p = os.path.join(verif, 'evidence', prop.ID + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
    c = ev['coverage']
    print(f"{prop.ID} {a.tier} seed={a.seed}: {c['evaluations']} runs, "
          f"{c['distinct_nontrivial']} distinct non-trivial, warm-up {t_warm:.0f} s, "
          f"total {ev['wall_s']:.0f} s, counts {c['counts']}")
    for n in notes:
        print("note:", n)
    for v in new:
        print(f"  {v['sig']}: {v['text']}")
        print(f"VIOLATION property={prop.ID} replay={v['path']}")
    return 1 if new else 0


def known_findings(verif):
    p = os.path.join(verif, 'known_findings.jsonl')
    if not os.path.exists(p):
        return []
    out = []
    for line in open(p):
        line = line.strip()
        if line.startswith('{'):
            d = json.loads(line)
            if d.get('status') == 'open':
                out.append(d)
    return out
