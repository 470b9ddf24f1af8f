"""Run the check of one property: workers x Hypothesis, one oracle, evidence, replay."""
import boot  # noqa: F401  (first: sets up the import path)
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

from core import Cov, Violation, HarnessError, CaseTimeout, Scratch, short

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CASE_CPU_S = 60              # CPU seconds for a case that normally takes milliseconds
WALL = {'quick': 420, 'thorough': 7200}
MEM = 3 << 30
SCALE = float(os.environ.get('VERIF_SCALE', '1'))       # dev only: fewer cases
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(boot.VERIF, 'evidence')


def load(prop):
    import channelpack
    where = os.path.realpath(channelpack.__file__)
    if not where.startswith(os.path.realpath(boot.REPO) + os.sep):
        raise HarnessError('channelpack imported from ' + where)
    return importlib.import_module(prop.lower())


def on_prof(signum, frame):
    raise CaseTimeout()


def evaluate(sub, case, cov):
    """One case. Raises Violation, HarnessError, CaseTimeout."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        return sub.check(case, cov)
    except Violation:
        raise
    except (HarnessError, CaseTimeout, KeyboardInterrupt):
        raise
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        where = '; '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                          for f in tb[-4:])
        raise Violation('unexpected %s: %s (%s)'
                        % (type(exc).__name__, short(str(exc)), where))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        Scratch.clear()


def worker(mod, wid, nworkers, seed, tier, outpath, only=None):
    """Explore this worker's share; leave a pickle at outpath."""
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 45
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    signal.signal(signal.SIGPROF, on_prof)
    Scratch.open()
    t0 = time.monotonic()
    out = {'subs': {}, 'violation': None, 'error': None, 'cut': False}

    class Stop(BaseException):
        pass

    try:
        for index, sub in enumerate(mod.SUBS):
            if only and sub.name != only:
                continue
            total = sub.quick if tier == 'quick' else sub.thorough
            total = max(1, int(total * SCALE))
            share = total // nworkers + (1 if wid < total % nworkers else 0)
            if not share:
                continue
            cov = Cov()
            out['subs'][sub.name] = cov
            state = {'fail': None, 'shrinking': False, 'recent': []}

            def body(case):
                if (time.monotonic() - t0 > WALL[tier]) and not state['fail']:
                    out['cut'] = True
                    raise Stop()
                if not state['fail']:
                    cov.evaluations += 1
                    state['recent'] = state['recent'][-30:] + [case]
                try:
                    nontrivial = evaluate(sub, case, cov if not state['fail'] else Cov())
                except Violation as exc:
                    if not state['fail']:
                        state['first'] = list(state['recent'])
                    state['fail'] = (case, str(exc))
                    raise
                except CaseTimeout:
                    state['fail'] = (case, 'no result within %d s of CPU time' % CASE_CPU_S)
                    raise Stop()
                if nontrivial and not state['fail']:
                    blob = json.dumps(case, sort_keys=True)
                    digest = hashlib.blake2b(blob.encode('utf-8', 'backslashreplace'),
                                             digest_size=8).digest()
                    if digest not in cov.nontrivial:
                        cov.nontrivial.add(digest)
                        if len(cov.samples) < 2 or (
                                len(cov.samples) < 4 and len(cov.nontrivial) % 97 == 0):
                            cov.samples.append(short(blob, 1500))

            test = settings(
                max_examples=share, database=None, deadline=None, derandomize=False,
                suppress_health_check=list(HealthCheck), print_blob=False,
                report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
                phases=(Phase.generate, Phase.shrink))(hypothesis.given(sub.strategy)(body))
            test = hypothesis.seed(seed * 1000003 + wid * 1009 + index)(test)
            try:
                test()
            except Stop:
                if not state['fail']:
                    break
            except Violation:
                pass
            except HarnessError:
                raise
            except Exception:
                # e.g. hypothesis.errors.Flaky: the verdict depends on what ran before
                if not state['fail']:
                    raise
            if state['fail']:
                case, msg = state['fail']
                out['violation'] = {'sub': sub.name, 'case': case, 'message': msg,
                                    'preceding': state.get('first', [])}
                break
    except HarnessError as exc:
        out['error'] = str(exc)
    except BaseException:
        out['error'] = traceback.format_exc()
    finally:
        Scratch.close()
    with open(outpath + '.tmp', 'wb') as fo:
        pickle.dump(out, fo)
    os.rename(outpath + '.tmp', outpath)


def run_cases(mod, subname, cases):
    """Plain replay: the last case decides, earlier ones are only history."""
    sub = {s.name: s for s in mod.SUBS}[subname]
    signal.signal(signal.SIGPROF, on_prof)
    Scratch.open()
    try:
        for case in cases[:-1]:
            try:
                evaluate(sub, case, Cov())
            except Violation:
                pass
        try:
            evaluate(sub, cases[-1], Cov())
        except Violation as exc:
            return str(exc)
        except CaseTimeout:
            return 'no result within %d s of CPU time' % CASE_CPU_S
        return None
    finally:
        Scratch.close()


def in_child(func, *args):
    """func(*args) in a fork; returns its (picklable) result, or None if it died."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        res = None
        try:
            res = func(*args)
        except BaseException:
            res = None
        with os.fdopen(w, 'wb') as fo:
            pickle.dump(res, fo)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fo:
        blob = fo.read()
    os.waitpid(pid, 0)
    return pickle.loads(blob) if blob else None


def replay(path):
    with open(path) as fo:
        rec = json.load(fo)
    mod = load(rec['property'])
    msg = run_cases(mod, rec['sub'], rec['preceding'] + [rec['case']])
    if msg is None:
        print('replay: the property holds for this case')
        return 0
    print('replay: ' + msg)
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


def known_findings(prop):
    path = os.path.join(boot.VERIF, 'known-findings.txt')
    found = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('open: property=%s ' % prop):
                found.append(line.strip().split(' ', 2)[2])
    return found


def main(argv):
    if argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.monotonic()
    mod = load(prop)
    tmp = tempfile.mkdtemp(prefix='vprun.')
    procs = {}
    outs = {}
    sys.stdout.flush()
    for wid in range(WORKERS):
        outpath = os.path.join(tmp, 'w%d' % wid)
        pid = os.fork()
        if not pid:
            os.setpgid(0, 0)
            code = 0
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                worker(mod, wid, WORKERS, seed, tier, outpath, only)
            except BaseException:
                traceback.print_exc()
                code = 70
            os._exit(code)
        procs[pid] = (wid, outpath)
    violation = None
    errors = []
    died = []
    while procs:
        pid, status = os.wait()
        if pid not in procs:
            continue
        wid, outpath = procs.pop(pid)
        if not os.path.exists(outpath):
            died.append((wid, status))
            continue
        with open(outpath, 'rb') as fo:
            outs[wid] = pickle.load(fo)
        if outs[wid]['error']:
            errors.append(outs[wid]['error'])
        if outs[wid]['violation']:
            violation = outs[wid]['violation']
            for p in procs:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
            for p in list(procs):
                os.waitpid(p, 0)
            break
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)
    for name in os.listdir('/dev/shm') if os.path.isdir('/dev/shm') else []:
        if violation and name.startswith('vpchk.' + Scratch.tag):   # left by workers killed above
            shutil.rmtree(os.path.join('/dev/shm', name), ignore_errors=True)

    replay_path = None
    if violation:
        rec = {'property': prop, 'sub': violation['sub'], 'message': violation['message'],
               'preceding': [], 'case': violation['case']}
        msg = in_child(run_cases, mod, rec['sub'], [rec['case']])
        if msg is None and violation['preceding']:
            # only with what ran before it: keep that history in the replay file
            hist = violation['preceding']
            rec['preceding'], rec['case'] = hist[:-1], hist[-1]
        os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
        replay_path = os.path.join(EVIDENCE, 'replay', '%s.json' % prop)
        with open(replay_path, 'w') as fo:
            json.dump(rec, fo, indent=1, sort_keys=True)

    evaluations = 0
    nontrivial = 0
    per_sub = {}
    tags = {}
    samples = []
    for sub in mod.SUBS:
        covs = [o['subs'][sub.name] for o in outs.values() if sub.name in o['subs']]
        seen = set()
        n = 0
        for c in covs:
            n += c.evaluations
            seen |= c.nontrivial
            for k, v in c.tags.items():
                key = sub.name + ':' + k
                tags[key] = tags.get(key, 0) + v
        per_sub[sub.name] = {'evaluations': n, 'distinct_nontrivial': len(seen),
                             'rule': sub.rule}
        evaluations += n
        nontrivial += len(seen)
        subsamples = [s for c in covs for s in c.samples]
        samples += [{'generator': sub.name, 'case': s} for s in subsamples[:2] + subsamples[-1:]]
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': nontrivial,
            'rule': mod.RULE,
            'samples': samples[:12],
            'generators': per_sub,
            'classification': dict(sorted(tags.items())),
            'workers': WORKERS,
            'cut_short_by_wall_clock': any(o['cut'] for o in outs.values()),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
        fo.write('\n')

    for what in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s'
          % (prop, tier, seed, evaluations, nontrivial, time.monotonic() - t0))
    if violation:
        print('generator %s: %s' % (violation['sub'], violation['message']))
        print('case: ' + short(json.dumps(violation['case']), 1500))
        print('VIOLATION property=%s replay=%s' % (prop, replay_path))
        return 1
    if errors or died:
        for e in errors[:2]:
            print(e)
        print('check error: %d worker errors, died: %r' % (len(errors), died))
        return 2
    if not nontrivial:
        print('check error: no non-trivial case')
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except HarnessError:
        traceback.print_exc()
        sys.exit(2)
