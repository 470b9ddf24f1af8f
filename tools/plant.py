"""Dev tool: turn a seed spec into /verif/seeded/<id>/ after confirming it in a scratch copy.

usage: python3 tools/plant.py spec.py [id ...]   (spec.py defines SEEDS: id -> dict(property, needs, breaks,
       edits=[(file, old, new), ...], demo=python source[, expect='note']))
       python3 tools/plant.py --verify [id ...]  re-confirm the kept ones
Never used by a check.
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def confirm(d, prop, sid):
    top = tempfile.mkdtemp(prefix='plant.')
    copy = top + '/repo'
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        r = sh('bash %s/demo.sh' % d, cwd=copy)
        if r.returncode:
            return 'DEMO FAILS CLEAN: ' + (r.stdout + r.stderr)[-600:]
        r = sh('git apply %s/patch.diff' % d, cwd=copy)
        if r.returncode:
            return 'PATCH DOES NOT APPLY: ' + r.stderr
        r = sh('bash %s/demo.sh' % d, cwd=copy)
        if not r.returncode:
            return 'DEMO PASSES PATCHED'
        t = open('/opt/vp/test.sh').read().replace('/opt/vp/reports', top + '/rep').replace('/repo', copy)
        t = t.replace('MPLCONFIGDIR=/opt/vp/mplconfig', 'MPLCONFIGDIR=%s/mpl' % top)
        open(top + '/t.sh', 'w').write(t)
        sh('bash %s/t.sh %s/o.json' % (top, top))
        o = json.load(open(top + '/o.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable') or base.get('passed') or base.get('tests') or base
        passed = set(o['passed'])
        miss = [x for x in stable if x not in passed]
        if miss:
            return 'TESTS FAIL: %s' % miss[:5]
        env = dict(os.environ, VERIF_REPO=copy)
        out = []
        for p in [prop] + [x for x in os.environ.get('ALSO', '').split() if x]:
            c = sh('%s/check %s' % (HERE, p), env=env)
            line = [l for l in c.stdout.splitlines() if l.startswith(('generator', 'VIOLATION', 'check error'))]
            out.append('%s rc=%d %s' % (p, c.returncode, ' | '.join(line)[:300]))
        return 'ok; ' + '; '.join(out)
    finally:
        shutil.rmtree(top)


def write(sid, s):
    d = os.path.join(HERE, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    top = tempfile.mkdtemp(prefix='plant.')
    try:
        sh('git -C /repo worktree list')
        sh('git clone -q /repo %s/r' % top)
        for f, old, new in s['edits']:
            p = '%s/r/%s' % (top, f)
            t = open(p, encoding='utf-8', newline='').read()
            if t.count(old) != 1:
                raise SystemExit('%s: %d matches of %r in %s' % (sid, t.count(old), old, f))
            open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
        open(d + '/patch.diff', 'w', newline='').write(
            subprocess.run(['git', '-C', top + '/r', 'diff'], capture_output=True).stdout.decode())
    finally:
        shutil.rmtree(top)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    return d


def main():
    if sys.argv[1] == '--verify':
        ids = sys.argv[2:] or sorted(os.listdir(HERE + '/seeded'))
        for sid in ids:
            d = os.path.join(HERE, 'seeded', sid)
            print(sid, confirm(d, json.load(open(d + '/meta.json'))['property'], sid), flush=True)
        return
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    for sid, s in ns['SEEDS'].items():
        if sys.argv[2:] and sid not in sys.argv[2:]:
            continue
        d = write(sid, s)
        res = confirm(d, s['property'], sid)
        print(sid, res, flush=True)
        if not res.startswith('ok'):
            shutil.rmtree(d)


main()
