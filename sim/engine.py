"""Seeded search: forks one process per simulated run, collects violations,
minimises the first of each kind, confirms it replays, and writes the evidence."""
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

NPROC = min(8, os.cpu_count() or 1)


def subseed(*parts):
    h = hashlib.sha256('/'.join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:7], 'big')


class Died(Exception):
    pass


def _child(fn, arg, w):
    try:
        try:
            out = ('ok', fn(arg))
        except BaseException as e:
            out = ('err', f"{type(e).__name__}: {e}\n{traceback.format_exc()}")
        b = pickle.dumps(out)
        sys.stdout.flush()
        mv = memoryview(b)
        while mv:
            mv = mv[os.write(w, mv):]
    finally:
        os._exit(0)


def pmap(fn, args, nproc=None, timeout=120, deadline=None):
    """Yields (index, status, value): 'ok' value | 'err' text | 'died' text |
    'timeout' None. Each item runs in its own forked process. Stops starting new
    ones past `deadline` or if closed."""
    nproc = nproc or NPROC
    it = enumerate(args)
    live = {}
    more = True
    try:
        while more or live:
            while more and len(live) < nproc:
                if deadline and time.time() > deadline:
                    more = False
                    break
                try:
                    i, a = next(it)
                except StopIteration:
                    more = False
                    break
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    os.setpgid(0, 0)
                    for rr in live:
                        os.close(rr)
                    _child(fn, a, w)
                os.close(w)
                live[r] = [i, pid, [], time.time()]
            if not live:
                break
            rs, _, _ = select.select(list(live), [], [], 1.0)
            for r in rs:
                b = os.read(r, 1 << 20)
                if b:
                    live[r][2].append(b)
                    continue
                i, pid, chunks, _ = live.pop(r)
                os.close(r)
                _, st = os.waitpid(pid, 0)
                _killpg(pid)
                try:
                    status, val = pickle.loads(b''.join(chunks))
                except Exception:
                    status, val = 'died', (
                        f"killed by signal {os.WTERMSIG(st)}"
                        if os.WIFSIGNALED(st) else f"exit status {st}")
                yield i, status, val
            now = time.time()
            for r in [r for r, v in live.items() if now - v[3] > timeout]:
                i, pid, _, _ = live.pop(r)
                _killpg(pid)
                os.close(r)
                os.waitpid(pid, 0)
                yield i, 'timeout', None
    finally:
        for r, (i, pid, _, _) in live.items():
            _killpg(pid)
            os.close(r)
            os.waitpid(pid, 0)


def _killpg(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except OSError:
            pass


def isolated(fn, arg, timeout=120):
    for _, status, val in pmap(fn, [arg], 1, timeout):
        return status, val


class Result(dict):
    """viol: None | text; sig: kind of violation; hash: of the run's history;
    key: what distinguishes runs (or None if trivial); counts: {name: int};
    sc: scenario with everything needed for exact replay."""


def run_one(prop, sc):
    r = prop.run(sc)
    r.setdefault('viol', None)
    r.setdefault('sc', sc)
    r.setdefault('counts', {})
    return r


def search(prop, tier, base_seed, workdir, out=print, verif='/verif'):
    t0 = time.time()
    n = prop.RUNS[tier]
    cap = prop.CAP[tier]
    deadline = t0 + cap
    scs = ((i, prop.scenario(subseed(base_seed, prop.ID, i), tier))
           for i in range(n))
    cache = {}

    def gen():
        for i, sc in scs:
            cache[i] = sc
            yield sc

    counts, keys, hashes, samples, bad, odd = {}, {}, {}, [], [], []
    done = 0
    for i, status, r in pmap(lambda sc: run_one(prop, sc), gen(),
                             timeout=prop.TIMEOUT, deadline=deadline):
        sc = cache.pop(i)
        if status != 'ok':
            odd.append((i, sc, status, r))
            if len(odd) >= 6:
                break
            continue
        done += 1
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        if r.get('key') is not None:
            keys[r['key']] = keys.get(r['key'], 0) + 1
        hashes[i] = r.get('hash')
        if len(samples) < 3 or (len(samples) < 6 and i % 97 == 0):
            samples.append(dict(run=i, scenario=brief(sc), hash=r.get('hash'),
                                counts=r['counts']))
        if r['viol']:
            bad.append((i, r))
            if len(bad) >= prop.MAXBAD:
                break
    t_search = time.time() - t0

    # a run that died or hung: reproduce before believing it
    notes = []
    for i, sc, status, val in odd[:4]:
        again = [isolated(lambda s: run_one(prop, s), sc, prop.TIMEOUT)
                 for _ in range(2)]
        st = [a[0] for a in again]
        if status == 'err' or 'err' in st:
            # the harness itself raised: never a verdict on the code under test
            raise RuntimeError(f"harness error in run {i}: {sc}\n"
                               + str(val if status == 'err' else again))
        if st == [status, status]:
            v = dict(viol=f"the process {'hung' if status == 'timeout' else 'died'}"
                     f" ({val})", sig=status, hash=None, sc=sc, counts={})
            bad.append((i, v))
        else:
            ok = [a[1] for a in again if a[0] == 'ok']
            if ok and ok[0]['viol']:
                bad.append((i, ok[0]))
            else:
                notes.append(f"run {i} ended with {status} once, not again")

    # determinism self-test: repeat some runs, histories must be identical
    rep = [i for i in sorted(hashes) if hashes[i] is not None][:prop.REPEAT[tier]]
    nrep, ndiff = 0, 0
    if not bad:
        again = [prop.scenario(subseed(base_seed, prop.ID, i), tier) for i in rep]
        for j, status, r in pmap(lambda sc: run_one(prop, sc), again,
                                 timeout=prop.TIMEOUT):
            if status == 'ok':
                nrep += 1
                if r.get('hash') != hashes[rep[j]]:
                    ndiff += 1
                    notes.append(f"run {rep[j]} did not repeat exactly: "
                                 f"{hashes[rep[j]]} then {r.get('hash')}")

    viols = []
    if bad:
        seen = {}
        for i, r in bad:
            seen.setdefault(r['sig'], (i, r))
        for sig, (i, r) in list(seen.items())[:prop.MAXREPORT]:
            v = confirm(prop, tier, base_seed, i, r, workdir, verif, out)
            if v is None:
                notes.append(f"run {i} violated once but not on replay: "
                             f"{r['viol']}")
                out(f"UNREPRODUCIBLE run={i}: {r['viol']}")
            else:
                viols.append(v)

    wall = time.time() - t0
    ev = dict(property=prop.ID, tier=tier, seed=base_seed, level=prop.LEVEL,
              coverage=dict(
                  evaluations=done, distinct_nontrivial=len(keys),
                  rule=prop.RULE, samples=samples,
                  runs_planned=n, seeds=done,
                  runs_per_hour=round(done / max(t_search, 1e-9) * 3600),
                  simulated_time=prop.SIMTIME, counts=counts,
                  determinism_repeats=nrep, determinism_mismatches=ndiff,
                  real_components=prop.REAL, stubbed_components=prop.STUB,
                  notes=notes),
              assumptions=prop.ASSUME, wall_s=round(wall, 2),
              violations=len(viols))
    ev['coverage'].update(prop.extra_evidence(counts))
    return viols, ev, notes


def brief(sc):
    s = json.dumps(sc, default=str)
    return sc if len(s) < 4000 else dict(summary=s[:4000])


def confirm(prop, tier, base_seed, i, r, workdir, verif, out):
    """Minimise, then replay."""
    sig = r['sig']
    fn = lambda s: run_one(prop, s)
    # exact replay of the recorded run first
    st, rr = isolated(fn, r['sc'], prop.TIMEOUT)
    if not match(st, rr, sig):
        return None
    best = r['sc']
    t_end = time.time() + prop.SHRINK[tier]
    rounds = 0
    progress = True
    while progress and time.time() < t_end:
        progress = False
        cands = list(prop.shrink(best))
        for pos in range(0, len(cands), 2 * NPROC):
            if time.time() > t_end:
                break
            batch = cands[pos:pos + 2 * NPROC]
            res = {}
            for j, st, rr in pmap(fn, batch, timeout=prop.TIMEOUT):
                res[j] = (st, rr)
            rounds += len(batch)
            hit = [j for j in sorted(res) if match(*res[j], sig)]
            if hit:
                rr = res[hit[0]][1]
                best = (rr['sc'] if isinstance(rr, dict) else batch[hit[0]])
                progress = True
                break
    st, rr = isolated(fn, best, prop.TIMEOUT)
    if not match(st, rr, sig):
        best = r['sc']
        st, rr = isolated(fn, best, prop.TIMEOUT)
        if not match(st, rr, sig):
            return None
    text, h = ((rr['viol'], rr['hash']) if isinstance(rr, dict)
               else (r['viol'], None))
    d = os.path.join(verif, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.ID}-{base_seed}-{i}.json")
    with open(path, 'w') as f:
        json.dump(dict(property=prop.ID, tier=tier, seed=base_seed, run=i, sig=sig,
                       violation=text, hash=h, scenario=best,
                       original_scenario=r['sc'], shrink_runs=rounds), f)
    return dict(path=path, text=text, sig=sig, run=i, scenario=best)


def match(st, rr, sig):
    if st == 'ok':
        return bool(rr['viol']) and rr['sig'] == sig
    return st == sig


def ddmin_lists(xs):
    """Candidate sublists, big cuts first."""
    n = len(xs)
    k = 2
    while n and k <= 2 * n:
        size = max(1, n // k)
        for a in range(0, n, size):
            c = xs[:a] + xs[a + size:]
            if len(c) < n:
                yield c
        if size == 1:
            break
        k *= 2


class Prop:
    ID = None
    LEVEL = 'exploration'
    RUNS = dict(quick=400, thorough=8000)
    CAP = dict(quick=240, thorough=3600)
    SHRINK = dict(quick=40, thorough=300)
    REPEAT = dict(quick=int(os.environ.get('SSQSIM_REPEAT') or 8), thorough=40)
    TIMEOUT = 120
    MAXBAD = 12
    MAXREPORT = 2
    SIMTIME = 'none: the code under test reads no clock on these paths'
    REAL, STUB, ASSUME = [], [], []
    RULE = ''
    IMPORT_SSQ = True       # in the zygote, before forking
    PYFFTW = 'stub'
    COOP_LOCKS = False
    GPU = False             # simulate torch, cupy and a GPU

    def warm(self):
        """Callables to run in forked children to fill the compile cache."""
        return []

    def scenario(self, seed, tier):
        raise NotImplementedError

    def run(self, sc):
        raise NotImplementedError

    def shrink(self, sc):
        return []

    def extra_evidence(self, counts):
        return {}
