"""Turn bug definitions into /verif/seeded/<id>/ and try them.

usage: plant.py FILE.py [id ...]     (FILE defines BUGS, a list of dicts)

Each bug: id, property, needs, breaks, edits [(file, old, new)], demo (Python
source run with the code under test importable, in a scratch directory).
A bug is kept when it changes original lines, passes the tests that pass
without it, and its demonstration tells the two apart. The check of its
property (and others in `also`) is then run against the changed copy.
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = 'dbb565d'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for what is tried here
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" && timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=1800):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors='replace')
    return r.returncode, r.stdout


def tests(copy):
    out = tempfile.mktemp(suffix='.xml')
    rc, text = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                   '--continue-on-collection-errors', '--ignore=tests/test_dnsutils.py',
                   '-x' if False else '-q', 'tests'], cwd=copy,
                  env={'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'PYTHONPATH': copy})
    return sorted(l for l in text.splitlines() if l.startswith(('FAILED', 'ERROR')))


def copy_repo(name):
    d = tempfile.mkdtemp(prefix='plant-%s-' % name)
    os.chmod(d, 0o755)
    c = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', c])
    return d, c


def one(bug, baseline):
    out = ['== %s (%s)' % (bug['id'], bug['property'])]
    d, c = copy_repo(bug['id'])
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(c, 'sbclassifier', f)
            with open(p) as h:
                s = h.read()
            if s.count(old) != 1:
                return out + ['  SKIP: %d matches of %r in %s' % (s.count(old), old, f)]
            with open(p, 'w') as h:
                h.write(s.replace(old, new))
        _, patch = sh(['git', '-C', c, 'diff'])
        # which lines are removed, and are they original?
        orig = 0
        for f in {e[0] for e in bug['edits']}:
            p = 'sbclassifier/' + f
            _, u = sh(['git', '-C', c, 'diff', '-U0', p])
            _, bl = sh(['git', '-C', c, 'blame', '-s', '--abbrev=7', 'HEAD', '--', p])
            bl = bl.splitlines()
            for line in u.splitlines():
                if line.startswith('@@'):
                    a = line.split()[1][1:]
                    s, n = (a.split(',') + ['1'])[:2]
                    for i in range(int(s), int(s) + int(n)):
                        o = bl[i - 1].startswith('^' + BASE)
                        orig += o
                        if not o:
                            out.append('  note: changes a fixed line: ' + bl[i - 1][:100])
        if not orig:
            out.append('  no original line changed: only tried, not kept')
        sd = os.path.join(VERIF, 'seeded', bug['id'])
        tmp = os.path.join(d, 'seeded')
        os.mkdir(tmp)
        open(os.path.join(tmp, 'patch.diff'), 'w').write(patch)
        open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(tmp, 'demo.sh'), 0o755)
        open(os.path.join(tmp, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(os.path.join(tmp, 'meta.json'), 'w'), indent=1)
        t = tests(c)
        if t != baseline:
            return out + ['  SKIP: the tests notice: %s' % [x for x in t if x not in baseline][:3]]
        rc, text = sh(['bash', os.path.join(tmp, 'demo.sh')], cwd='/repo')
        if rc:
            return out + ['  SKIP: demo fails on the unchanged tree\n' + text[-1500:]]
        rc, text = sh(['bash', os.path.join(tmp, 'demo.sh')], cwd=c)
        if not rc:
            return out + ['  SKIP: demo passes with the change\n' + text[-500:]]
        out.append('  demo: ' + (text.strip().splitlines() or ['rc %d' % rc])[-1][:150])
        if orig:
            shutil.rmtree(sd, ignore_errors=True)
            shutil.copytree(tmp, sd)
        for prop in [bug['property']] + bug.get('also', []):
            rc, text = sh([os.path.join(VERIF, 'bin/check'), prop], cwd=VERIF,
                          env={'VERIF_REPO': c, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick',
                               'VERIF_EVIDENCE': d}, timeout=1500)
            v = [l for l in text.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
            cl = [l for l in text.splitlines() if l.startswith('  ')]
            out.append('  %s: %s' % (prop, 'CAUGHT ' + (cl[0][:160] if cl else '') if rc == 1 and v
                                     else '*** MISSED *** rc %d %s' % (rc, text[-300:] if rc else '')))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    bugs = [b for b in m.BUGS if not want or b['id'] in want]
    d, c = copy_repo('base')
    baseline = tests(c)
    shutil.rmtree(d)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda b: one(b, baseline), bugs):
            print('\n'.join(r), flush=True)


if __name__ == '__main__':
    main()
