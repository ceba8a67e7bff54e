"""Reads and writes pickle files with the real code, watched line by line.

Script kinds:
 watch  one write, the file looked at whenever a line of Python is about to run
 crash  the same write again and again, killed (or interrupted) at every line
 pause  an operation stopped at a line while others run, then resumed or killed
 stress several processes and threads working on one file
 open   opening a pickle-backed classifier on files in all conditions
"""
import errno
import io
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time

import drvlib

TIMEOUT = 0.4


def setup():
    global sp, storage, basic, FileLock
    from sbclassifier import safepickle as sp
    from sbclassifier.classifiers import storage, basic
    from lockfile import FileLock
    sp.DEFAULT_TIMEOUT = TIMEOUT


class Chatty:
    """Runs lines of Python while it is pickled."""

    def __init__(self, n):
        self.n = n

    def __getstate__(self):
        x = dict(n=self.n)
        y = 1
        x['pad'] = 'z' * 3000
        return x

    def __setstate__(self, d):
        self.n = d['n']

    def __eq__(self, other):
        return isinstance(other, Chatty) and self.n == other.n


class Bad:
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc('cannot be pickled')

    __reduce_ex__ = lambda self, p: self.__reduce__()


def value(k, style):
    """The value number k."""
    if style == 'small':
        return {'k': k}
    if style == 'chatty':
        return [k, [Chatty(i) for i in range(6)]]
    if style == 'big':
        return [k, os.urandom(1) and b'x' * (300000 + 1000 * k), ['t%d' % i for i in range(200)]]
    if style == 'shrink':
        return [k, b'y' * (400000 // (k + 1))]
    raise AssertionError(style)


def bad_value(k, fault, style):
    head = value(k, style)
    if fault == 'lambda':
        return [head, lambda: 0]
    if fault == 'raises':
        return [head, Bad(ValueError)]
    if fault == 'keyboard':
        return [head, Bad(KeyboardInterrupt)]
    if fault == 'oserror':
        return [head, Bad(OSError)]
    if fault == 'memory':
        return [head, Bad(MemoryError)]
    if fault == 'key':
        return [head, Bad(KeyError)]
    return head


class File:
    def __init__(self, path, style):
        self.path, self.style = path, style
        self.memo = {}

    def look(self):
        """The number of the value in the file; 0 no file, -1 no complete value."""
        try:
            fd = os.open(self.path, os.O_RDONLY)
        except FileNotFoundError:
            return 0
        except OSError:
            return -1
        try:
            data = b''
            while True:
                b = os.read(fd, 1 << 20)
                if not b:
                    break
                data += b
        finally:
            os.close(fd)
        return self.judge(data)

    def judge(self, data):
        if data in self.memo:
            return self.memo[data]
        r = -1
        try:
            f = io.BytesIO(data)
            v = pickle.load(f)
            if f.tell() == len(data):
                if isinstance(v, basic.Classifier):
                    k = v.nspam
                    ok = set(v.wordinfo) == set(words(k))
                else:
                    k = v['k'] if isinstance(v, dict) else v[0]
                    ok = v == value(k, self.style)
                r = k if ok else -1
        except Exception:
            r = -1
        if len(self.memo) < 50:
            self.memo[data] = r
        return r


def words(k):
    return ['w%d' % j for j in range(k * 40)] + ['common']


def do_write(s, path, k):
    """The write of a script; s['mode'] is call or classifier."""
    if s.get('mode') == 'classifier':
        c = storage.PickleClassifier.__new__(storage.PickleClassifier)
        basic.Classifier.__init__(c)
        c.filename = path
        c.nspam, c.nham = k, 1
        for w in words(k):
            c.wordinfo[w] = basic.WordInfo(1, 1)
        if s.get('fault') not in (None, 'fsize'):
            c.wordinfo['bad'] = bad_value(k, s['fault'], 'small')
        return lambda: c.store()
    v = bad_value(k, s.get('fault'), s['style'])
    kw = {} if s.get('protocol') is None else {'protocol': s['protocol']}
    return lambda: sp.pickle_write(path, v, **kw)


def prepare(s, path, k):
    """Puts value k there without the code under test."""
    try:
        os.unlink(path)
    except FileNotFoundError:
        pass
    d = os.path.dirname(os.path.abspath(path))
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if p != os.path.abspath(path) and os.path.isfile(p):
            os.unlink(p)
    if k == 0:
        return
    if s.get('mode') == 'classifier':
        c = basic.Classifier()
        c.nspam, c.nham = k, 1
        for w in words(k):
            c.wordinfo[w] = basic.WordInfo(1, 1)
        v = c
    else:
        v = value(k, s['style'])
    with open(path, 'wb') as f:
        pickle.dump(v, f, 2)


def run_traced(fn, on_line):
    def tracer(frame, event, arg):
        if frame.f_code.co_filename == __file__ and frame.f_code.co_name != '__getstate__':
            return None
        if event in ('line', 'return', 'exception', 'call'):
            on_line()
        return tracer
    sys.settrace(tracer)
    try:
        fn()
    finally:
        sys.settrace(None)


def limit_size(s):
    if s.get('fault') == 'fsize':
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (20000, resource.RLIM_INFINITY))


def unlimit(s):
    if s.get('fault') == 'fsize':
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def in_tmp(s, d):
    """Where temporary files go by default."""
    tempfile.tempdir = None
    if s.get('tmp') == 'other':
        t = tempfile.mkdtemp(dir='/dev/shm', prefix='vcheck-')
    else:
        t = os.path.join(d, 'tmp')
        os.mkdir(t)
    os.environ['TMPDIR'] = t
    tempfile.tempdir = t
    return t


def run_watch(s, d, path):
    f = File(path, s.get('style'))
    steps = []
    prepare(s, path, s['old'])
    steps.append({'op': 'reset', 'val': s['old']})
    cur = s['old']
    for n, k in enumerate(s['new']):
        steps.append({'op': 'see', 'val': f.look()})
        fault = s.get('fault') if n == len(s['new']) - 1 else None
        fn = do_write(dict(s, fault=fault), path, k)
        steps.append({'op': 'begin', 'val': k})
        last = [None]
        count = [0]

        def on_line():
            count[0] += 1
            v = f.look()
            if v != last[0]:
                last[0] = v
                steps.append({'op': 'see', 'val': v})
        raised = ''
        if fault:
            limit_size(s)
        try:
            run_traced(fn, on_line)
        except BaseException as e:
            raised = type(e).__name__
        unlimit(s)
        steps.append({'op': 'end', 'raised': raised, 'must': 1 if fault else 0})
        steps.append({'op': 'see', 'val': f.look()})
        if not raised:
            cur = k
        steps.append({'op': 'reset', 'val': cur})
        steps.append({'op': 'see', 'val': f.look()})
        if s.get('mode') != 'classifier' and not raised:
            got = sp.pickle_read(path)
            ok = got == value(k, s['style'])
            steps.append({'op': 'see', 'val': k if ok else -1})
    return {'steps': steps, 'lines': count[0]}


def run_crash(s, d, path):
    f = File(path, s.get('style'))
    steps = []
    n = s.get('first', 1)
    k = s['new'][0]
    done = False
    while not done and n < 6000:
        prepare(s, path, s['old'])
        steps += [{'op': 'reset', 'val': s['old']}, {'op': 'begin', 'val': k}]
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            count = [0]

            def on_line():
                count[0] += 1
                if count[0] == n:
                    os.write(wr, b'x')
                    if s['how'] == 'kill':
                        os._exit(9)
                    if s['how'] == 'term':
                        raise SystemExit(9)
                    raise KeyboardInterrupt
            try:
                limit_size(s)
                run_traced(do_write(s, path, k), on_line)
            except BaseException:
                pass
            os._exit(0)
        os.close(wr)
        mark = os.read(rd, 1)
        os.close(rd)
        os.waitpid(pid, 0)
        done = not mark
        if done:
            steps.append({'op': 'end', 'raised': '', 'must': 0} if not s.get('fault')
                         else {'op': 'end', 'raised': 'x', 'must': 1})
        else:
            steps.append({'op': 'crash'})
        steps += [{'op': 'see', 'val': f.look()}, {'op': 'see', 'val': f.look()}]
        n += s.get('stride', 1)
    return {'steps': steps, 'lines': n}


# -- concurrent histories ---------------------------------------------------

def outcome(op, path, style, k):
    """Runs one operation; returns (res, v)."""
    try:
        if op == 'read':
            v = sp.pickle_read(path)
            n = v['k'] if isinstance(v, dict) else v[0]
            return 'ok', n if v == value(n, style) else -1
        if op == 'write':
            sp.pickle_write(path, value(k, style))
            return 'ok', k
        sp.pickle_write(path, bad_value(k, 'lambda', style))
        return 'ok', k
    except FileNotFoundError as e:
        if op == 'read':
            return 'missing', 0
        return 'unexpected:' + repr(e), k
    except BaseException as e:
        if type(e).__module__.startswith('lockfile'):
            return 'locked', k
        if op == 'badwrite':
            return 'error', k
        return 'unexpected:' + repr(e)[:100], k


class Log:
    """Events written by several processes to one file."""

    def __init__(self, path):
        self.path = path
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def put(self, **e):
        e['t'] = time.monotonic_ns()
        os.write(self.fd, (json.dumps(e) + '\n').encode())

    def events(self):
        with open(self.path) as f:
            return sorted((json.loads(l) for l in f), key=lambda e: e['t'])


def perform(log, id, op, path, style, k):
    log.put(ev='inv', id=id, op=op, v=k)
    res, v = outcome(op, path, style, k)
    log.put(ev='res', id=id, res=res, v=v)
    return res


def history(log, start, see):
    ops = {}
    events = []
    for e in log.events():
        if e['ev'] == 'inv':
            ops[e['id']] = {'op': e['op'], 'v': e['v'], 'res': 'crash'}
            events.append({'ev': 'inv', 'id': e['id'], 'v': 0})
        elif e['ev'] == 'res':
            ops[e['id']].update(res=e['res'])
            if e['v'] is not None:
                ops[e['id']]['v'] = e['v']
            events.append({'ev': 'res', 'id': e['id'], 'v': 0})
        else:
            events.append({'ev': 'see', 'id': 0, 'v': e['v']})
    events.append({'ev': 'see', 'id': 0, 'v': see})
    ids = sorted(ops)
    num = {x: i + 1 for i, x in enumerate(ids)}
    for e in events:
        e['id'] = num.get(e['id'], 0)
    return {'start': start, 'ops': [ops[x] for x in ids], 'events': events}


def run_pause(s, d, path):
    style = s['style']
    f = File(path, style)
    prepare(s, path, s['old'])
    log = Log(os.path.join(d, 'log'))
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
        count = [0]

        def on_line():
            count[0] += 1
            if count[0] == s['at']:
                os.write(w1, b'p')
                os.read(r2, 1)
        log.put(ev='inv', id='A', op=s['a'], v=s['ka'])
        out = []
        run_traced(lambda: out.append(outcome(s['a'], path, style, s['ka'])), on_line)
        log.put(ev='res', id='A', res=out[0][0], v=out[0][1])
        os.write(w1, b'd')
        os._exit(0)
    mark = os.read(r1, 1)
    held = mark == b'p' and os.path.exists(path + '.lock')
    if held:
        log.put(ev='inv', id='hold', op='hold', v=0)
    for j, (op, k) in enumerate(s['b']):
        perform(log, 'B%d' % j, op, path, style, k)
    if held:
        log.put(ev='res', id='hold', res='ok', v=None)
    if mark == b'p':
        if s['end'] == 'kill':
            os.kill(pid, signal.SIGKILL)
        else:
            os.write(w2, b'g')
    os.waitpid(pid, 0)
    for j, (op, k) in enumerate(s['after']):
        perform(log, 'C%d' % j, op, path, style, k)
    for x in (r1, w1, r2, w2):
        os.close(x)
    h = history(log, s['old'], f.look())
    h['past'] = mark != b'p'
    return h


def run_stress(s, d, path):
    style = s['style']
    f = File(path, style)
    prepare(s, path, s['old'])
    log = Log(os.path.join(d, 'log'))
    go = time.monotonic() + 0.05

    def work(p, th, ops, seed):
        rng = random.Random(seed)
        while time.monotonic() < go:
            time.sleep(0.001)
        for j, (op, k) in enumerate(ops):
            time.sleep(rng.choice([0, 0, 0.001, 0.01]))
            if op == 'hold':
                lock = FileLock(path, timeout=TIMEOUT)
                try:
                    lock.acquire()
                except BaseException:
                    continue
                log.put(ev='inv', id='%d.%d.%d' % (p, th, j), op='hold', v=0)
                time.sleep(rng.choice([0.01, 0.05, 0.6]))
                log.put(ev='res', id='%d.%d.%d' % (p, th, j), res='ok', v=None)
                lock.release()
            else:
                perform(log, '%d.%d.%d' % (p, th, j), op, path, style, k)
    pids = []
    for p, threads in enumerate(s['procs']):
        pid = os.fork()
        if pid == 0:
            sys.setswitchinterval(0.0001)
            ts = [threading.Thread(target=work, args=(p, th, ops, s['seed'] * 100 + p * 10 + th), daemon=True)
                  for th, ops in enumerate(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            os._exit(0)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    return history(log, s['old'], f.look())


def run_open(s, d, path):
    """Steps {cond, raised, same, ns, file}."""
    c = basic.Classifier()
    c.learn(['a', 'b'], True)
    c.learn(['b', 'c'], False)
    c.learn(['b', 'c'], False)
    data = pickle.dumps(c, s.get('protocol', 2))
    full = data
    cond = s['cond']
    holder = None
    other = [{'a': 1}, 7, None, ['x'], 'text', (1, 2, 3), basic.WordInfo(1, 2)]
    lockpid = None
    if cond == 'cut':
        data = data[:max(1, min(len(data) - 1, int(s['where'] * len(data))))]
    elif cond == 'garbage':
        data = s['bytes'].encode('latin-1')
    elif cond == 'object':
        data = pickle.dumps(other[s['n']], 2)
    elif cond == 'oldversion':
        class Old(basic.Classifier):
            pass
        c2 = basic.Classifier()
        data = pickle.dumps(c2, 2).replace(b'K\x05', b'K\x04')
    if cond == 'absent':
        pass
    elif cond == 'directory':
        os.mkdir(path)
    elif cond == 'loop':
        os.symlink(path, path)
    else:
        with open(path, 'wb') as f:
            f.write(data)
    if cond == 'noperm':
        os.chmod(path, 0)
    if cond == 'writeonly':
        os.chmod(path, 0o200)
    if cond == 'locked':
        r, w = os.pipe()
        lockpid = os.fork()
        if lockpid == 0:
            FileLock(path).acquire()
            os.write(w, b'x')
            time.sleep(100)
            os._exit(0)
        os.read(r, 1)
    res = {'cond': cond, 'raised': '', 'ns': -1, 'nh': -1, 'words': [], 'file': 'same', 'root': int(os.geteuid() == 0)}
    try:
        x = storage.PickleClassifier(path)
        res['ns'], res['nh'] = x.nspam, x.nham
        res['words'] = sorted([w, x.wordinfo[w].spamcount, x.wordinfo[w].hamcount] for w in x.wordinfo)
    except BaseException as e:
        res['raised'] = type(e).__name__
    if lockpid:
        os.kill(lockpid, signal.SIGKILL)
        os.waitpid(lockpid, 0)
    if cond in ('noperm', 'writeonly'):
        os.chmod(path, 0o600)
    if os.path.isfile(path):
        with open(path, 'rb') as f:
            if f.read() != data:
                res['file'] = 'changed'
    elif cond not in ('absent', 'directory', 'loop'):
        res['file'] = 'gone'
    return {'steps': [res]}


def run_script(s):
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        t = here = None
        try:
            t = in_tmp(s, d)
            pd = os.path.join(d, 'p')
            os.mkdir(pd)
            path = os.path.join(pd, 'x.pck')
            if s.get('cwd') == 1:
                os.chdir(pd)
                path = 'x.pck'
            elif s.get('cwd') == 2:
                # Somewhere else, on another file system if there is one.
                here = tempfile.mkdtemp(dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else d, prefix='vcheck-')
                os.chdir(here)
                if s.get('relative'):
                    path = os.path.relpath(path)
            return {'watch': run_watch, 'crash': run_crash, 'pause': run_pause, 'stress': run_stress,
                    'open': run_open}[s['kind']](s, d, path)
        finally:
            if s.get('cwd'):
                os.chdir(d)
                os.chdir('..')
            tempfile.tempdir = None
            if here:
                shutil.rmtree(here, ignore_errors=True)
            if t and s.get('tmp') == 'other':
                shutil.rmtree(t, ignore_errors=True)


drvlib.main(run_script, setup)
