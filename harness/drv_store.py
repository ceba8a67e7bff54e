"""Runs histories of training, scoring and saving on the real classifiers.

A script: {backend, bigrams, tokens: [concrete, ...] (index = token number - 1),
           ops: [{op, ...}], universe: [token numbers]}
Every op yields a step {op.., raised, obs}. kill and drop steps end the process
(or drop the object); the observation is that of a classifier opened afterwards.
"""
import gc
import json
import os
import random
import shutil
import signal
import sys
import tempfile

import drvlib


def setup():
    global storage, basic
    from sbclassifier.classifiers import storage, basic


def decode(tok):
    """Concrete tokens are shipped as ['s', text] or ['b', latin-1 text]."""
    return tok[1].encode('latin-1') if tok[0] == 'b' else tok[1]


class Source:
    """An iterable of tokens of a given kind, possibly failing after all tokens."""

    def __init__(self, kind, toks, exc=None):
        self.kind, self.toks, self.exc = kind, toks, exc

    def make(self):
        toks = list(self.toks)
        if self.exc is not None:
            if self.exc == 'unhashable':
                return toks + [[]]
            return self.failing(toks)
        k = self.kind
        if k == 'list':
            return toks
        if k == 'tuple':
            return tuple(toks)
        if k == 'gen':
            return (t for t in toks)
        if k == 'iter':
            return iter(toks)
        if k == 'set':
            return set(toks)
        if k == 'dict':
            return dict.fromkeys(toks)
        if k == 'seq':
            return Seq(toks)
        raise AssertionError(k)

    def failing(self, toks):
        for t in toks:
            yield t
        raise {'value': ValueError, 'key': KeyError, 'attr': AttributeError, 'io': OSError,
               'stop': RuntimeError, 'kbd': KeyboardInterrupt, 'mem': MemoryError,
               'unicode': LookupError, 'index': IndexError, 'type': TypeError}[self.exc]('source failed')


class Seq:
    """Only the old sequence protocol."""

    def __init__(self, toks):
        self.toks = toks

    def __getitem__(self, i):
        return self.toks[i]


class Run:
    def __init__(self, script):
        self.s = script
        self.tok = [decode(t) for t in script['tokens']]
        self.bi = script.get('bigrams', False)
        self.dir = script['dir']
        self.path = os.path.join(self.dir, 'db')
        self.c = None

    def concrete(self, w):
        if self.bi and w > 1000:
            a, b = self.tok[w // 1000 - 1], self.tok[w % 1000 - 1]
            return b'bi:%s %s' % (a, b) if isinstance(a, bytes) else 'bi:%s %s' % (a, b)
        return self.tok[w - 1]

    def open(self, flag='c'):
        b = self.s['backend']
        if b == 'mem':
            self.c = basic.Classifier(use_bigrams=True) if self.bi else basic.Classifier()
        else:
            cls = {'pickle': storage.PickleClassifier, 'shelve': storage.ShelveClassifier,
                   'cdb': storage.CDBClassifier}[b]
            self.c = cls(self.path) if b != 'shelve' or flag == 'c' else cls(self.path, flag)

    def record(self, w):
        r = self.c._wordinfoget(self.concrete(w))
        return None if r is None else (r.spamcount, r.hamcount)

    def observe(self):
        recs = []
        for w in self.s['universe']:
            r = self.record(w)
            if r is not None:
                recs.append([w, r[0], r[1]])
        known = {self.concrete(w) for w in self.s['universe']}
        extra = 0
        if not self.s.get('noextra'):
            extra = len([k for k in self.c._wordinfokeys() if k not in known])
        return {'ns': self.c.nspam, 'nh': self.c.nham, 'recs': recs, 'extra': extra}

    def observe_copy(self):
        """What was just loaded, without asking the classifier itself, which
        may keep the records it is asked for in memory."""
        d = tempfile.mkdtemp(dir=self.dir)
        try:
            files = [f for f in os.listdir(self.dir) if f == 'db' or f.startswith('db.')]
            for f in files:
                shutil.copy(os.path.join(self.dir, f), d)
            if not any(os.path.getsize(os.path.join(d, f)) for f in files):
                return self.observe()
            other = Run(dict(self.s, dir=d))
            other.open()
            obs = other.observe()
            other.c.close()
            obs['ns'], obs['nh'] = self.c.nspam, self.c.nham
            return obs
        finally:
            shutil.rmtree(d)

    def scored(self, c, op):
        toks = [self.tok[w - 1] for w in op['ms']]
        src = Source(op.get('kind', 'list'), toks).make()
        if op.get('plain'):
            score, ev = c.spamprob(src), None
        else:
            score, ev = c.spamprob(src, evidence=True)
        out = {'score': drvlib.scaled(score), 'hasev': 0, 'ev': [], 'asc': True, 'ind': [0, 0]}
        if ev is not None:
            back = {self.concrete(w): w for w in self.s['universe']}
            out['hasev'] = 1
            names = [w for w, p in ev[:2]]
            out['asc'] = (all(ev[i][1] <= ev[i + 1][1] for i in range(2, len(ev) - 1))
                          and names == [b'*H*', b'*S*'])
            out['ind'] = [drvlib.scaled(p) for w, p in ev[:2]]
            out['ev'] = [[back.get(w, 0), drvlib.scaled(p)] for w, p in ev[2:]]
        return out

    def step(self, op):
        """Returns the step to be recorded."""
        res = {k: v for k, v in op.items()}
        res['raised'] = ''
        name = op['op']
        try:
            if name in ('learn', 'unlearn', 'learnfail', 'unlearnfail'):
                toks = [self.tok[w - 1] for w in op['ms']]
                exc = op.get('exc') if name.endswith('fail') else None
                verb = name.replace('fail', '')
                for i in range(op.get('n', 1)):
                    src = Source(op.get('kind', 'list'), toks, exc).make()
                    if op.get('alias'):
                        getattr(self.c, verb + '_' + op['k'])(src)
                    else:
                        getattr(self.c, verb)(src, op['k'] == 'spam')
            elif name == 'score':
                res.update(self.scored(self.c, op))
            elif name == 'fresh':
                # The same totals and counts, reached by no history at all.
                c = basic.Classifier(use_bigrams=True) if self.bi else basic.Classifier()
                c.nspam, c.nham = self.c.nspam, self.c.nham
                for w in self.s['universe']:
                    r = self.record(w)
                    if r is not None:
                        c.wordinfo[self.concrete(w)] = basic.WordInfo(*r)
                res.update(self.scored(c, op))
            elif name == 'store':
                self.c.store()
            elif name == 'load':
                self.c.load()
            elif name == 'reopen':
                self.c.close()
                self.c = None
                self.open(op.get('flag', 'c'))
            elif name == 'drop':
                self.c = None
                gc.collect()
                self.open(op.get('flag', 'c'))
            elif name == 'flood':
                # n spam messages of tokens that are not observed.
                for i in range(op['n']):
                    self.c.learn(['flood %d %d' % (i, j) for j in range(20)], True)
            elif name == 'nop':
                pass
            elif name == 'set':
                # A training state reached by no history.
                self.c.nspam, self.c.nham = op['ns'], op['nh']
                for w, n1, n2 in op['recs']:
                    self.c._wordinfoset(self.concrete(w), basic.WordInfo(n1, n2))
            elif name == 'copy':
                # Only for in-memory classifiers: a pickled copy takes over.
                import pickle
                self.c = pickle.loads(pickle.dumps(self.c, op.get('protocol', 2)))
            else:
                raise AssertionError(name)
        except BaseException as e:
            if isinstance(e, AssertionError):
                raise
            res['raised'] = type(e).__name__
            res['what'] = str(e)[:200]
        return self.finish(res, op)

    def finish(self, res, op):
        res['has'] = 0
        if op.get('see', 1):
            try:
                res['obs'] = self.observe_copy() if op.get('via') else self.observe()
                res['has'] = 1
            except BaseException as e:
                res['raised'] = res['raised'] or 'observe:' + type(e).__name__
                res['what'] = str(e)[:200]
        return res


def run_segment(script, start, fd):
    """Runs in a child process. Writes the steps; returns when all are done."""
    def put(x):
        os.write(fd, (json.dumps(x) + '\n').encode())
    r = Run(script)
    ops = script['ops']
    first = {'op': 'init'} if start == 0 else ops[start - 1]
    res = {k: v for k, v in first.items()}
    res['raised'] = ''
    try:
        r.open()
    except BaseException as e:
        res['raised'] = 'open:' + type(e).__name__
        res['what'] = str(e)[:200]
        res['has'] = 0
        put(res)
        return
    put(r.finish(res, first))
    for i in range(start, len(ops)):
        if ops[i]['op'] == 'kill':
            if ops[i].get('how') == 'sig':
                os.kill(os.getpid(), signal.SIGKILL)
            os._exit(9)
        if ops[i]['op'] == 'gone':
            # The process ends normally without saving or closing.
            r.c = None
            gc.collect()
            os._exit(9)
        put(r.step(ops[i]))


def run_script(script):
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        script['dir'] = d
        ops = script['ops']
        steps = []
        if script['backend'] == 'mem':
            rd, wr = None, None
            path = os.path.join(d, 'steps')
            fd = os.open(path, os.O_RDWR | os.O_CREAT)
            run_segment(script, 0, fd)
            os.close(fd)
            with open(path) as f:
                return {'steps': [json.loads(l) for l in f]}
        start = 0
        path = os.path.join(d, 'steps')
        dbdir = os.path.join(d, 'dbdir')
        os.mkdir(dbdir)
        script['dir'] = dbdir
        if not any(o['op'] in ('kill', 'gone') for o in ops):
            fd = os.open(path, os.O_RDWR | os.O_CREAT)
            run_segment(script, 0, fd)
            os.close(fd)
            with open(path) as f:
                return {'steps': [json.loads(l) for l in f]}
        while True:
            fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_APPEND)
            pid = os.fork()
            if pid == 0:
                try:
                    run_segment(script, start, fd)
                    os._exit(0)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    os._exit(1)
            _, status = os.waitpid(pid, 0)
            os.close(fd)
            with open(path) as f:
                steps = [json.loads(l) for l in f]
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
                return {'steps': steps}
            # steps[0] is the initial one; the next op is the kill.
            nxt = len(steps) - 1
            killed = (os.WIFEXITED(status) and os.WEXITSTATUS(status) == 9) or os.WIFSIGNALED(status)
            if killed and nxt < len(ops) and ops[nxt]['op'] in ('kill', 'gone'):
                start = nxt + 1
                continue
            return {'crash': 'child died with status %r at op %d' % (status, nxt)}


drvlib.main(run_script, setup)
