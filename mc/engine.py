"""Exhaustive bounded exploration of the real code.

A property module defines
    ID, BOUNDS = {'quick': text, 'thorough': text}
    cases(tier)     -> iterator of JSON-able cases, simplest first
    run(case, st)   -> drives the code under test through the case and compares
                       every step with the reference model
Every case is executed; nothing is sampled.  The enumeration is striped over
worker processes, each of which walks the same deterministic enumeration.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CHUNK = 8
HORIZON = 60.0          # CPU seconds one case may take
STALL = 200.0           # wall seconds without progress of a worker
MEMORY = 6 << 30


class Violation(AssertionError):
    pass


class Horizon(BaseException):
    pass


def show(x, limit=600):
    try:
        if isinstance(x, (set, frozenset)):
            s = '{' + ', '.join(sorted(map(repr, x))) + '}'
        else:
            s = repr(x)
    except Exception as e:              # a broken repr is not our business
        s = '<unprintable %s: %s>' % (type(x).__name__, e)
    return s if len(s) <= limit else s[:limit] + '...'


class Stats:
    """Collects what a worker covered, and judges."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.case = None

    def state(self, key):
        self.states.add(hash_key(key))

    def outcome(self, key):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hash_key(key))

    def eq(self, what, got, want):
        self.transitions += 1
        if got != want or (got is None) != (want is None):
            raise Violation('%s: got %s, expected %s'
                            % (what, show(got), show(want)))

    def true(self, what, cond, detail=''):
        self.transitions += 1
        if not cond:
            raise Violation('%s %s' % (what, detail() if callable(detail)
                                       else detail))

    def raises(self, what, exc, fn, *args, **kw):
        self.transitions += 1
        try:
            got = fn(*args, **kw)
        except exc as e:
            try:
                text = str(e)
            except Exception as e2:
                if 'not supported between' in str(e2):
                    return          # printing sorts names; see DESIGN.md
                raise Violation('%s: the %s cannot be printed: %r'
                                % (what, type(e).__name__, e2))
            if not isinstance(text, str):
                raise Violation('%s: the text of the error' % what)
            return
        except Exception as e:
            raise Violation('%s: raised %s: %s instead of %s'
                            % (what, type(e).__name__, e, names_of(exc)))
        raise Violation('%s: expected %s, but got %s'
                        % (what, names_of(exc), show(got)))

    def close(self, what, got, want, tol=1e-9):
        self.transitions += 1
        w = float(want)
        ok = (isinstance(got, (int, float))
              and abs(got - w) <= max(tol * abs(w), 1e-14))
        if not ok:
            raise Violation('%s: got %s, expected %s (=%s)'
                            % (what, show(got), w, want))


def names_of(exc):
    if isinstance(exc, tuple):
        return ' or '.join(e.__name__ for e in exc)
    return exc.__name__


def hash_key(key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode('utf-8', 'replace'),
                                          digest_size=8).digest(), 'big')


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def load(prop):
    sys.path.insert(0, HERE)
    return importlib.import_module('props.' + prop.lower())


def import_target():
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import fca
    where = os.path.realpath(fca.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('fca was imported from %s, not from %s'
                         % (where, REPO))


def _alarm(signum, frame):
    # keep coming, in case the code under test swallows it
    signal.setitimer(signal.ITIMER_PROF, 1.0)
    raise Horizon()


def run_case(mod, case, st):
    """None, or (message, traceback)"""
    st.case = case
    signal.signal(signal.SIGPROF, _alarm)
    horizon = getattr(mod, 'HORIZON', HORIZON)
    try:
        signal.setitimer(signal.ITIMER_PROF, horizon)
        mod.run(case, st)
        signal.setitimer(signal.ITIMER_PROF, 0)
        st.traces += 1
        return None
    except Horizon:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return ('did not terminate within %s CPU seconds' % horizon,
                traceback.format_exc())
    except Violation as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return (str(e), traceback.format_exc())
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        return ('unexpected %s: %s' % (type(e).__name__, show(str(e))),
                traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def silence():
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    sys.stdout = open(1, 'w', closefd=False)


def worker(prop, tier, w, nw, known, best, beat, conn):
    try:
        silence()
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        mod = load(prop)
        st = Stats()
        found, hits, total, samples = None, [], 0, []
        chunk = getattr(mod, 'CHUNK', CHUNK)
        for idx, case in enumerate(mod.cases(tier)):
            if (idx // chunk) % nw != w:
                continue
            if best.value <= idx:
                break
            beat[2 * w] = idx
            beat[2 * w + 1] = time.time()
            bad = run_case(mod, case, st)
            total += 1
            if total in (1, 2, 40, 1000, 20000):
                samples.append(case)
            if bad:
                key = canon(case)
                if key in known:
                    hits.append((key, bad[0]))
                    continue
                found = (idx, case, bad[0], bad[1])
                with best.get_lock():
                    best.value = min(best.value, idx)
                break
        conn.send(('ok', found, hits, total, samples, st.transitions,
                   st.traces, st.states, st.outcomes))
    except BaseException:
        conn.send(('error', traceback.format_exc()))
    finally:
        conn.close()


def explore(prop, tier, jobs, known):
    ctx = mp.get_context('fork')
    best = ctx.Value('q', 1 << 60)
    beat = ctx.Array('d', [0.0, time.time()] * jobs, lock=False)
    procs, conns = [], []
    for w in range(jobs):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(prop, tier, w, jobs, known, best,
                                             beat, b), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    results, stalled = [], None
    pending = dict(enumerate(conns))
    while pending:
        ready = mp.connection.wait(list(pending.values()), timeout=2)
        for w, c in list(pending.items()):
            if c in ready:
                try:
                    results.append(c.recv())
                except EOFError:
                    idx = int(beat[2 * w])
                    results.append(('died', idx))
                del pending[w]
            elif time.time() - beat[2 * w + 1] > STALL:
                stalled = int(beat[2 * w])
                results.append(('stalled', stalled))
                procs[w].kill()
                del pending[w]
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return results


def nth_case(prop, tier, idx):
    for i, case in enumerate(load(prop).cases(tier)):
        if i == idx:
            return case


def load_known(prop):
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return {canon(e['case']): e['what'] for e in data.get('known', [])
            if e['property'] == prop}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int,
                    default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--count', action='store_true',
                    help='only count the cases')
    args = ap.parse_args(argv)
    prop = args.property.upper()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import_target()
    import warnings
    warnings.simplefilter('ignore')

    if args.count:
        print(sum(1 for _ in load(prop).cases(args.tier)))
        return 0
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        bad = run_case(load(prop), rec['case'], Stats())
        if bad:
            print(bad[1])
            print('VIOLATION property=%s replay=%s' % (prop, args.replay))
            return 1
        print('replay: the case passes')
        return 0

    mod = load(prop)
    known = load_known(prop)
    t0 = time.time()
    results = explore(prop, args.tier, args.jobs, known)
    wall = time.time() - t0
    found, hits = [], []
    states, outcomes = set(), set()
    transitions = traces = total = 0
    samples = []
    for r in results:
        if r[0] == 'error':
            sys.stderr.write(r[1])
            return 2
        if r[0] in ('died', 'stalled'):
            case = nth_case(prop, args.tier, r[1])
            found.append((r[1], case, 'the process %s on this case' % r[0],
                          ''))
            continue
        _, f, h, n, smp, tr, tc, ss, oo = r
        if f:
            found.append(f)
        hits += h
        total += n
        samples += smp
        transitions += tr
        traces += tc
        states |= ss
        outcomes |= oo
    found.sort(key=lambda f: f[0])
    samples = [show(canon(s), 400) for s in samples[:12]]
    coverage = {
        'states': len(states),
        'transitions': transitions,
        'traces_validated_against_impl': traces,
        'cases_run': total,
        'distinct_outcomes': len(outcomes),
        'exhaustive': not found,
        'bounds': mod.BOUNDS[args.tier],
        'rule': 'every case of the enumeration was executed on the real code; '
                'a state is a distinct reference-model state, a transition is '
                'one call of the library compared with the reference model, a '
                'trace is one complete case replayed on the implementation',
        'python_hash_seed': os.environ.get('PYTHONHASHSEED'),
        'samples': samples,
    }
    evidence = {'property': prop, 'tier': args.tier, 'seed': seed,
                'level': 'model_checking', 'coverage': coverage,
                'wall_s': round(wall, 3), 'violations': len(found)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    text = json.dumps(evidence, indent=1, default=str)
    if len(text) > 60000:
        coverage['samples'] = [show(s, 300) for s in samples[:4]]
        text = json.dumps(evidence, indent=1, default=str)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        f.write(text + '\n')

    for key, msg in sorted(hits):
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[key], key))
    if found:
        idx, case, msg, tb = found[0]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%016x.json'
                            % (prop, hash_key(canon(case))))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': args.tier, 'index': idx,
                       'case': case, 'message': msg, 'traceback': tb,
                       'python_hash_seed': os.environ.get('PYTHONHASHSEED'),
                       'repeat': 'PYTHONHASHSEED=%s %s %s %s --replay %s'
                       % (os.environ.get('PYTHONHASHSEED'), sys.executable,
                          os.path.join(HERE, 'check.py'), prop, path)},
                      f, indent=1, default=str)
        print('case: %s' % show(case, 2000))
        print('what: %s' % msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s %s: %d cases, %d states, %d transitions, %d outcomes, %.1f s'
          % (prop, args.tier, total, len(states), transitions, len(outcomes),
             wall))
    if total == 0 or transitions == 0:
        sys.stderr.write('vacuous exploration\n')
        return 2
    return 0
