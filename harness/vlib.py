"""Shared machinery: running TLC, running drivers, evidence and verdicts.

Exit status of a check: 0 held, 1 violation (with a VIOLATION line), 2 the
machinery itself failed.
"""
import concurrent.futures
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
# Where evidence goes; another place is for trying changed copies of the code.
EVIDENCE = os.environ.get('VERIF_EVIDENCE', 'evidence')
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable
NOBODY = 65534
CORES = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def _find_jars():
    base = '/opt/veriftools/tla'
    jars = [os.path.join(base, j) for j in sorted(os.listdir(base)) if j.endswith('.jar')] \
        if os.path.isdir(base) else []
    if not any(j.endswith('tla2tools.jar') for j in jars):
        raise MachineryError('tla2tools.jar not found')
    return ':'.join(jars)


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        # Outside /verif: drivers run as another user and need to reach it.
        self.scratch = tempfile.mkdtemp(prefix='vcheck-%s-' % prop)
        os.chmod(self.scratch, 0o777)
        self.n = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []
        self.known = load_known()

    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def tmp(self, suffix=''):
        self.n += 1
        return os.path.join(self.scratch, 'f%d%s' % (self.n, suffix))

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    # -- TLC ---------------------------------------------------------------

    def tlc(self, module, cfg, env=None, workers=1, timeout=600, heap='3g', simulate=None):
        """Run TLC; returns its output. cfg is the text of the configuration."""
        cfgfile = self.tmp('.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        meta = self.tmp('.meta')
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        jtmp = self.tmp('.tmp')
        os.mkdir(jtmp)
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC',
               '-Djava.io.tmpdir=' + jtmp,
               '-cp', _find_jars(), 'tlc2.TLC', '-noGenerateSpecTE', '-deadlock',
               '-metadir', meta, '-workers', str(workers), '-config', cfgfile]
        if simulate:
            cmd += simulate
        cmd.append(os.path.join(SPEC, module + '.tla'))
        out = self.tmp('.out')
        with open(out, 'wb') as f:
            p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise MachineryError('TLC timed out on %s' % module)
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(jtmp, ignore_errors=True)
        with open(out, errors='replace') as f:
            text = f.read()
        os.unlink(out)
        return rc, text

    def model_check(self, module, cfg, env=None, workers=1, timeout=600, emit=True, heap='3g'):
        """Check the properties of a configuration; returns emitted transitions."""
        rc, text = self.tlc(module, cfg, env, workers, timeout, heap)
        if 'No error has been found' not in text:
            raise MachineryError('model %s does not check:\n%s' % (module, tail(text)))
        gen, dist = counts(text)
        self.transitions += gen
        self.states += dist
        return emitted(text) if emit else []

    def validate(self, module, cfg, traces, env=None, timeout=800, shards=None, heap='3g'):
        """Have TLC validate recorded traces (list of {id, steps: [...]}).

        Returns the list of rejections. Every shard must report that it got
        through all its traces.
        """
        if not traces:
            return []
        total = sum(len(t['steps']) for t in traces)
        shards = shards or max(1, min(CORES, total // 1500 + 1, len(traces)))
        groups = [[] for _ in range(shards)]
        size = [0] * shards
        for t in sorted(traces, key=lambda t: -len(t['steps'])):
            i = size.index(min(size))
            groups[i].append(t)
            size[i] += len(t['steps']) + 1
        groups = [g for g in groups if g]

        def run(group):
            path = self.tmp('.ndjson')
            with open(path, 'w') as f:
                for t in group:
                    f.write(json.dumps(t) + '\n')
            e = {'TRACES': path}
            e.update(env or {})
            rc, text = self.tlc(module, cfg, e, 1, timeout, heap)
            os.unlink(path)
            items = emitted(text)
            done = [x for x in items if x.get('done')]
            if len(done) != 1 or done[0]['n'] != len(group) \
                    or 'No error has been found' not in text:
                raise MachineryError('trace validation with %s failed:\n%s' % (module, tail(text)))
            gen, dist = counts(text)
            return [x for x in items if 'reject' in x], gen, dist
        rej = []
        with concurrent.futures.ThreadPoolExecutor(len(groups)) as ex:
            for r, gen, dist in ex.map(run, groups):
                rej += r
                self.states += dist
                self.transitions += gen
        self.traces += len(traces)
        self.steps += total
        return rej

    # -- drivers -----------------------------------------------------------

    def drive(self, driver, scripts, timeout=300, shards=None, root=False, env=None, per=None):
        """Run scripts in the real code.

        Every script is a dict; the driver prints one JSON line per script
        {"id":.., "obs": ..}. A driver that dies or hangs yields {"crash": ..}
        for the script it was in.
        """
        if not scripts:
            return []
        for i, s in enumerate(scripts):
            s.setdefault('id', i)
        shards = shards or max(1, min(CORES, len(scripts) // (per or 20) + 1))
        groups = [scripts[i::shards] for i in range(shards)]
        groups = [g for g in groups if g]

        def run(ig):
            i, group = ig
            results = {}
            todo = list(group)
            restarts = 0
            while todo:
                wd = self.tmp('.wd')
                os.mkdir(wd)
                os.chmod(wd, 0o777)
                inp = os.path.join(wd, 'in.json')
                out = os.path.join(wd, 'out.ndjson')
                with open(inp, 'w') as f:
                    json.dump(todo, f)
                cwd = os.path.join(wd, 'cwd')
                os.mkdir(cwd)
                os.chmod(cwd, 0o777)
                e = {k: v for k, v in os.environ.items()
                     if not k.startswith(('VERIF_', 'http', 'HTTP'))}
                e.update(PYTHONPATH=REPO + ':' + HERE, PYTHONDONTWRITEBYTECODE='1',
                         PYTHONHASHSEED=str((self.seed * 1000 + i * 7 + restarts) % 4294967295),
                         HOME=cwd, TMPDIR=cwd, VERIF_SEED=str(self.seed))
                e.update(env or {})
                err = os.path.join(wd, 'err')
                with open(err, 'wb') as ef:
                    p = subprocess.Popen([PY, '-W', 'ignore', '-X', 'faulthandler',
                                          os.path.join(HERE, driver + '.py'), inp, out],
                                         cwd=cwd, env=e, stdout=ef, stderr=ef,
                                         stdin=subprocess.DEVNULL, start_new_session=True,
                                         **({} if root else unprivileged()))
                    try:
                        rc = p.wait(timeout)
                        why = 'exit status %s' % rc
                    except subprocess.TimeoutExpired:
                        why = 'timeout'
                        rc = None
                    finally:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.wait()
                with open(err, errors='replace') as f:
                    errtext = f.read()[-3000:]
                got = []
                if os.path.exists(out):
                    with open(out) as f:
                        for line in f:
                            if line.endswith('\n'):
                                got.append(json.loads(line))
                for g in got:
                    results[g['id']] = g
                shutil.rmtree(wd, ignore_errors=True)
                todo = [s for s in todo if s['id'] not in results]
                if rc == 3 or (rc != 0 and not os.path.exists(os.path.join(HERE, driver + '.py'))):
                    raise MachineryError('driver %s: %s' % (driver, errtext))
                if todo:
                    if rc == 0:
                        raise MachineryError('driver %s skipped scripts\n%s' % (driver, errtext))
                    s = todo.pop(0)
                    results[s['id']] = {'id': s['id'], 'crash': why + '\n' + errtext}
                    restarts += 1
                    if restarts > 3:
                        for s in todo:
                            results[s['id']] = {'id': s['id'], 'skipped': True}
                        todo = []
            return results
        res = {}
        with concurrent.futures.ThreadPoolExecutor(len(groups)) as ex:
            for r in ex.map(run, enumerate(groups)):
                res.update(r)
        return [res[s['id']] for s in scripts]

    # -- verdicts ----------------------------------------------------------

    def violation(self, clause, detail, signature=None):
        """Report one violation, unless it is a listed known finding."""
        for k in self.known:
            if k['property'] == self.prop and k.get('kind') == 'known' \
                    and signature is not None and k['signature'] == signature:
                if signature not in self.known_hits:
                    self.known_hits.append(signature)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
                return
        self.violations.append((clause, detail))
        n = len(self.violations)
        if n > 5:
            return
        path = os.path.join(EVIDENCE, 'replay-%s-%d.json' % (self.prop, n))
        os.makedirs(os.path.join(VERIF, EVIDENCE), exist_ok=True)
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump({'property': self.prop, 'clause': clause, 'seed': self.seed,
                       'tier': self.tier, 'detail': detail}, f, indent=1, default=str)
        print('  %s: %s' % (clause, json.dumps(detail, default=str)[:1500]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)

    def finish(self, level, **coverage):
        cov = {}
        if level == 'model_checking':
            cov = {'states': self.states, 'transitions': self.transitions,
                   'traces_validated_against_impl': self.traces}
        cov['steps_observed_in_impl'] = self.steps
        cov['samples'] = self.samples
        cov.update(self.extra)
        cov.update(coverage)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, EVIDENCE), exist_ok=True)
        with open(os.path.join(VERIF, EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.log('states %d transitions %d traces %d steps %d violations %d'
                 % (self.states, self.transitions, self.traces, self.steps, len(self.violations)))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def unprivileged():
    """Arguments for running a process as nobody, if that is possible."""
    if os.geteuid() != 0:
        return {}
    if not hasattr(unprivileged, 'ok'):
        try:
            r = subprocess.run([PY, '-c', 'import os; os.listdir(%r)' % REPO], user=NOBODY, group=NOBODY,
                               extra_groups=[], capture_output=True, timeout=30,
                               cwd='/', env={'PYTHONDONTWRITEBYTECODE': '1'})
            unprivileged.ok = r.returncode == 0 and os.access(HERE, os.X_OK)
            if unprivileged.ok:
                r = subprocess.run(['/bin/cat', os.path.join(HERE, 'vlib.py')], user=NOBODY,
                                   group=NOBODY, extra_groups=[], capture_output=True, timeout=30)
                unprivileged.ok = r.returncode == 0
        except (OSError, ValueError, subprocess.SubprocessError):
            unprivileged.ok = False
    return dict(user=NOBODY, group=NOBODY, extra_groups=[]) if unprivileged.ok else {}


def load_known():
    out = []
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as f:
            out = json.load(f)['findings']
    return out


def tail(text, n=3500):
    lines = [l for l in text.splitlines() if not l.startswith(('"', 'Parsing file', 'Semantic proc', 'Linting'))]
    return '\n'.join(lines)[-n:]


def counts(text):
    import re
    gen = dist = 0
    for m in re.finditer(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', text):
        gen, dist = (int(x.replace(',', '')) for x in m.groups())
    return gen, dist


def emitted(text):
    """The JSON values printed by PrintT(ToJson(..))."""
    out = []
    for line in text.splitlines():
        if line.startswith('"'):
            try:
                out.append(json.loads(json.loads(line)))
            except ValueError:
                # TLC escapes only quotes and backslashes
                body = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
                out.append(json.loads(body))
    return out


def key(x):
    return json.dumps(x, sort_keys=True)


def tours(transitions, rng, max_len=60, pre='pre', post='post', act='act'):
    """Paths from initial states that together cover every transition once.

    Returns a list of paths, each a list of transitions.
    """
    out = {}
    posts = set()
    for t in transitions:
        out.setdefault(key(t[pre]), []).append(t)
    inits = [k for k in out if any(t.get('init') and key(t[pre]) == k for t in out[k])]
    # breadth-first tree
    parent = {k: None for k in inits}
    order = list(inits)
    for k in order:
        for t in out.get(k, ()):
            p = key(t[post])
            if p not in parent:
                parent[p] = t
                order.append(p)
    unreached = [k for k in out if k not in parent]
    if unreached:
        raise MachineryError('state graph is not connected: %s' % unreached[0])

    def path_to(k):
        path = []
        while parent[k] is not None:
            path.append(parent[k])
            k = key(parent[k][pre])
        return path[::-1]
    pending = {k: list(ts) for k, ts in out.items()}
    for ts in pending.values():
        rng.shuffle(ts)
    res = []
    for k in order[::-1]:
        while pending.get(k):
            path = path_to(k)
            cur = k
            while pending.get(cur) and len(path) < max_len:
                t = pending[cur].pop()
                path.append(t)
                cur = key(t[post])
            res.append(path)
    return res
