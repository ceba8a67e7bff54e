"""Runs histories on real corpora, trainers and expiring corpora.

A script: {prop, corpora: [{kind, limit, pattern, cache, age, init, dirs}],
names: [text], objs: [{k, raw, via}], watch: [{clf, kind, corpora}], nclf, ops}.
Keys and objects count from 1. '@ROOT@' in a name stands for the scratch folder.
"""
import gc
import os
import sys
import tempfile
import time
import weakref

import drvlib


REAL = (time.time, time.time_ns)
NOW = [None]


def setup():
    # Before the code under test is imported, so that it cannot keep the real clock.
    time.time = lambda: REAL[0]() if NOW[0] is None else NOW[0]
    time.time_ns = lambda: REAL[1]() if NOW[0] is None else int(NOW[0] * 10**9)
    global message, corpora_pkg, Corpus, FileCorpus, ExpiryFileCorpus, NaiveCache, basic, trainers, tokenize
    global message_added, message_removed
    from sbclassifier import message, trainers
    from sbclassifier.corpora import Corpus, FileCorpus, ExpiryFileCorpus, message_added, message_removed
    from sbclassifier.corpora.caches import NaiveCache
    from sbclassifier.classifiers import basic
    from sbclassifier.tokenizer import tokenize
    message.from_bytes(b'a: b\n\nc').as_bytes()
    list(tokenize(message.from_bytes(b'a: b\n\nc http://x.y/z')))
    sys.addaudithook(audit)


WATCH = {'root': None, 'inside': None, 'log': None}
EVENTS = {'open': (0,), 'os.remove': (0,), 'os.rename': (0, 1), 'os.mkdir': (0,), 'os.rmdir': (0,), 'os.listdir': (0,),
          'os.scandir': (0,), 'os.truncate': (0,), 'os.link': (0, 1), 'os.symlink': (0, 1), 'os.chmod': (0,),
          'os.utime': (0,), 'shutil.move': (0, 1), 'shutil.copyfile': (0, 1), 'shutil.rmtree': (0,), 'tempfile.mkstemp': (0,)}


def audit(event, args):
    if WATCH['log'] is None or event not in EVENTS:
        return
    for j in EVENTS[event]:
        p = args[j] if j < len(args) else None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            continue
        q = os.path.normpath(os.path.join(os.getcwd(), p))
        if q == WATCH['inside'] or q.startswith(WATCH['inside'] + os.sep):
            continue
        if q.endswith(('.py', '.pyc', '.so')) or q.startswith(('/usr/', '/opt/', '/lib', '/proc', '/dev', '/etc', '/verif', '/repo')):
            continue
        WATCH['log'].append('%s %s' % (event, p[:80]))


def fail(*args, **kw):
    raise RuntimeError('the classifier is broken')


MARK = {True: 'spam', False: 'ham', None: 'none'}


class Run:
    def __init__(self, s, root):
        self.s, self.root = s, root
        self.names = [n.replace('@ROOT@', root) for n in s['names']]
        self.kidx = {n: j + 1 for j, n in enumerate(self.names)}
        self.objs, self.raw = [], []
        for o in s['objs']:
            raw = o['raw'].encode('latin-1')
            if o.get('via') == 'header':
                name = self.names[o['k'] - 1]
                m = message.from_bytes(b'X-Spambayes-MailId: ' + name.encode() + b'\n' + raw)
                m.set_id_from_payload()
                if m.id() != name:
                    # cannot be said in a header
                    m = message.from_bytes(raw, message_id=name)
            elif o.get('via') == 'none':
                m = message.from_bytes(raw)
            else:
                m = message.from_bytes(raw, message_id=self.names[o['k'] - 1])
            self.objs.append(m)
            self.raw.append(m.as_bytes())
        self.refs = [weakref.ref(m) for m in self.objs]
        self.tok = {}
        self.toks = []
        for r in self.raw:
            row = []
            if s.get('nclf'):
                for w in tokenize(message.from_bytes(r)):
                    row.append(self.tok.setdefault(w, len(self.tok) + 1))
            self.toks.append(row)
        self.byraw = {r: j + 1 for j, r in enumerate(self.raw)}
        for j, o in enumerate(s['objs']):
            if not o['raw']:
                # An empty file.
                self.byraw[b''] = j + 1
        self.clock = 1000000000.0
        # Length of a unit of time of the specification.
        self.unit = s.get('unit', 1)
        self.log = []
        self.dirs = {}
        # The in-memory caches that are given to corpora.
        self.caches = {}
        self.corpora = [None] * len(s['corpora'])
        self.keep = []
        for c, conf in enumerate(s['corpora']):
            if conf['kind'] != 'mem':
                d = os.path.join(root, 'corpus%d' % (c + 1))
                os.mkdir(d)
                self.dirs[c + 1] = d
                for k, o, age in conf['init']:
                    p = os.path.join(d, self.names[k - 1])
                    with open(p, 'wb') as f:
                        f.write(self.raw[o - 1])
                    self.touch(p, age)
                for n in conf.get('dirs', ()):
                    os.mkdir(os.path.join(d, n))
        message_added.connect(self.on_added_all)
        message_removed.connect(self.on_removed_all)
        if s['prop'] == 'C15':
            NOW[0] = self.clock
        for c in range(len(self.corpora)):
            self.open(c + 1)
        self.clfs = [basic.Classifier() for _ in range(s.get('nclf', 0))]
        self.trainers = []
        for w in s.get('watch', ()):
            cs = [self.corpora[c - 1] for c in w['corpora']]
            clf = self.clfs[w['clf'] - 1]
            if w.get('base'):
                self.trainers.append(trainers.Trainer(clf, w['kind'] == 'spam', iter(cs)))
            else:
                cls = trainers.SpamTrainer if w['kind'] == 'spam' else trainers.HamTrainer
                self.trainers.append(cls(clf, cs))

    def touch(self, p, age):
        t = self.clock - age * self.unit
        os.utime(p, (t, t))

    def open(self, c):
        conf = self.s['corpora'][c - 1]
        if conf['kind'] == 'mem':
            if conf['limit']:
                self.caches[c] = NaiveCache(max_size=conf['limit'])
                x = Corpus(cache=self.caches[c])
            elif conf.get('given'):
                self.caches[c] = NaiveCache()
                x = Corpus(self.caches[c])
            else:
                x = Corpus()
        elif conf['kind'] == 'file':
            kw = {} if conf.get('cache') is None else {'cache_size': conf['cache']}
            if conf['pattern'] is not None:
                kw['namefilter'] = conf['pattern']
            x = FileCorpus(self.dirs[c], **kw)
        else:
            kw = {} if conf.get('cache') is None else {'cache_size': conf['cache']}
            if conf['pattern'] is not None:
                kw['namefilter'] = conf['pattern']
            x = ExpiryFileCorpus((conf['age'] + (0 if self.s.get('exact') else 0.5)) * self.unit, self.dirs[c], **kw)
        self.corpora[c - 1] = x
        one_a = lambda sender, message=None, **kw: self.heard('added', c, sender, message)
        one_r = lambda sender, message=None, **kw: self.heard('removed', c, sender, message)
        self.keep += [x, one_a, one_r]
        message_added.connect(one_a, sender=x)
        message_removed.connect(one_r, sender=x)

    def on_added_all(self, sender, message=None, **kw):
        self.heard('added', 0, sender, message)

    def on_removed_all(self, sender, message=None, **kw):
        self.heard('removed', 0, sender, message)

    def number(self, m):
        for j, x in enumerate(self.objs):
            if x is m:
                return j + 1
        return 0

    def content(self, m):
        """The object whose content the message has."""
        if self.s['prop'] == 'C12' and self.number(m) == 0:
            self.refs.append(weakref.ref(m))
        try:
            return self.byraw.get(m.as_bytes(), 0)
        except Exception:
            return 0

    def which(self, c, m):
        """For in-memory corpora identity counts, for others content."""
        return self.number(m) if self.s['corpora'][c - 1]['kind'] == 'mem' else self.content(m)

    def heard(self, ev, at, sender, m):
        c = 0
        for j, x in enumerate(self.corpora):
            if x is sender:
                c = j + 1
        o = self.number(m) if m is not self.fetched else self.content(m)
        done = 0
        if c and self.current:
            key = self.names[self.current['k'] - 1]
            try:
                if ev == 'added':
                    done = int(key in sender and self.which(c, sender[key]) == o)
                else:
                    done = int(key not in sender)
            except Exception:
                done = -1
        self.log.append({'ev': ev, 'at': at, 'c': c, 'o': o, 'done': done})

    fetched = None
    current = None

    def see(self, c):
        x = self.corpora[c - 1]
        k = lambda n: self.kidx.get(n, 0)
        out = {'c': c, 'err': '', 'keys': [], 'values': [], 'items': [], 'iter': [], 'len': -1, 'has': [], 'get': [],
               'item': [], 'ident': 1, 'dir': []}
        isfile = c in self.dirs
        try:
            out['keys'] = [k(n) for n in x.keys()]
            out['iter'] = [k(n) for n in x]
            out['len'] = len(x)
            for m in x.values():
                out['values'].append(self.which(c, m))
            for n, m in x.items():
                out['items'].append([k(n), self.which(c, m)])
                if isfile and m.id() != n:
                    out['ident'] = 0
            miss = object()
            names = list(enumerate(self.names))
            for j, n in names:
                if isfile and (os.sep in n or '\0' in n):
                    continue
                if n in x:
                    out['has'].append(j + 1)
                m = x.get(n, miss)
                if m is not miss:
                    out['get'].append([j + 1, self.which(c, m)])
                    if isfile and m.id() != n:
                        out['ident'] = 0
                if (x.get(n) is None) != (m is miss):
                    out['err'] = 'default'
                try:
                    m = x[n]
                except KeyError:
                    continue
                out['item'].append([j + 1, self.which(c, m)])
                if isfile and m.id() != n:
                    out['ident'] = 0
            if c in self.caches:
                y = self.caches[c]
                one, two = ([list(z.keys()), list(z), [self.which(c, m) for m in z.values()],
                             [(n, self.which(c, m)) for n, m in z.items()], len(z),
                             [(n in z, z.get(n) is None, self.which(c, z.get(n, miss))) for n in self.names]] for z in (x, y))
                if one != two:
                    out['err'] = 'the cache that was given shows something else'
            if self.s['prop'] == 'C12':
                str(x) and repr(x)
        except Exception as e:
            out['err'] = type(e).__name__ + str(e)[:100]
        if isfile:
            WATCHED, WATCH['log'] = WATCH['log'], None
            for n in sorted(os.listdir(self.dirs[c])):
                p = os.path.join(self.dirs[c], n)
                if os.path.isfile(p):
                    with open(p, 'rb') as f:
                        out['dir'].append([k(n), self.byraw.get(f.read(), 0)])
            WATCH['log'] = WATCHED
        return out

    def tree(self):
        """Everything outside the corpus directories."""
        res = {}
        for base, dirs, files in os.walk(self.root):
            dirs[:] = [d for d in dirs if os.path.join(base, d) not in self.dirs.values()]
            for f in files:
                p = os.path.join(base, f)
                st = os.lstat(p)
                with open(p, 'rb') as fh:
                    res[p] = (fh.read(), st.st_mtime_ns, st.st_mode, st.st_ino)
            for d in dirs:
                res[os.path.join(base, d)] = 0
        return res

    def step(self, op):
        c = op.get('c', 0)
        e = {'op': op['op'], 'c': c, 'o': op.get('o', 0), 'k': op.get('k', 0), 'emit': op.get('emit', 1),
             'fails': 0, 'broken': op.get('broken', 0), 'age': op.get('age', 0), 'raised': '', 'found': 0, 'mark0': 'none',
             'mark': 'none', 'clf': [], 'see': [], 'outside': [], 'tree': 'same', 'sig': [], 'held': 0}
        self.log = []
        self.current = op if op.get('k') else None
        self.fetched = None
        x = self.corpora[c - 1] if c else None
        m = self.objs[op['o'] - 1] if op.get('o') and op['op'] in ('add', 'remove') else None
        before = self.tree() if self.s['prop'] == 'C26' and op['op'] != 'plant' else None
        kw = {}
        if op.get('emit', 1) != 1 or op.get('explicit'):
            kw['emit_signal'] = bool(op.get('emit', 1))
        ro = op.get('fails') == 1 and os.geteuid() != 0
        if op['op'] == 'drop':
            # A message that was looked up is removed.
            try:
                m = self.fetched = x[self.names[op['k'] - 1]]
                e['o'] = self.content(m) if c in self.dirs else self.number(m)
            except Exception as err:
                e['raised'] = 'lookup:' + type(err).__name__
        if m is not None:
            e['mark0'] = MARK.get(m.is_trained(), 'other')
        if ro:
            os.chmod(self.dirs[c], 0o500)
            e['fails'] = 1
        payload = None
        if op.get('fails') == 2:
            # Text that is not ASCII and of no known character set cannot be turned into bytes.
            payload, m._payload = m._payload, 'caf\u2019\n'
            e['fails'] = 2
        if op.get('broken'):
            for clf in self.clfs:
                clf.learn = clf.unlearn = fail
        if c in self.dirs and op['op'] != 'plant':
            WATCH.update(inside=self.dirs[c], log=[])
        try:
            if e['raised']:
                pass
            elif op['op'] == 'add':
                if op['k'] != self.s['objs'][op['o'] - 1]['k'] or op.get('givekey'):
                    kw['message_id'] = self.names[op['k'] - 1]
                if op.get('how') == 'cache' and c in self.caches:
                    self.caches[c].put(self.names[op['k'] - 1], m)
                else:
                    x.add_message(m, **kw)
            elif op['op'] in ('remove', 'drop'):
                if op.get('how') == 'cache' and c in self.caches:
                    self.caches[c].pop(self.names[op['k'] - 1])
                else:
                    x.remove_message(m, **kw)
            elif op['op'] == 'look':
                name = self.names[op['k'] - 1]
                miss = object()
                for how in ('in', 'get', 'item'):
                    try:
                        if how == 'in':
                            hit = name in x
                        elif how == 'get':
                            hit = x.get(name, miss) is not miss
                        else:
                            hit = x[name] is not None
                    except Exception:
                        hit = False
                    e['found'] |= int(hit)
            elif op['op'] == 'reopen':
                self.open(c)
            elif op['op'] == 'tick':
                self.clock += op['age'] * self.unit
                if NOW[0] is not None:
                    NOW[0] = self.clock
            elif op['op'] == 'plant':
                p = os.path.join(self.dirs[c], self.names[op['k'] - 1])
                if op.get('how') == 'link':
                    q, p = p, os.path.join(self.root, 'elsewhere%d' % len(self.keep))
                    self.keep.append(p)
                    os.symlink(p, q)
                with open(p, 'wb') as f:
                    f.write(self.raw[op['o'] - 1] if self.s['objs'][op['o'] - 1]['raw'] else b'')
                self.touch(p, op['age'])
            elif op['op'] == 'pass':
                x.remove_expired_messages()
            elif op['op'] == 'query':
                pass
            elif op['op'] == 'held':
                # The messages that the corpora keep in memory when nobody else has them.
                self.objs = self.keep = ()
                gc.collect()
                e['held'] = len({id(y) for y in (x() for x in self.refs) if y is not None})
            elif op['op'] == 'gc':
                gc.collect()
        except BaseException as err:
            e['raised'] = type(err).__name__
            e['what'] = str(err)[:200]
        for clf in self.clfs if op.get('broken') else ():
            del clf.learn, clf.unlearn
        if ro:
            os.chmod(self.dirs[c], 0o777)
        if e['fails'] == 2:
            m._payload = payload
        if self.s['prop'] == 'C15' and op['op'] == 'add' and c in self.dirs and not e['raised']:
            p = os.path.join(self.dirs[c], self.names[op['k'] - 1])
            if os.path.exists(p):
                self.touch(p, 0)
        if WATCH['log'] is not None:
            e['outside'] = WATCH['log']
            WATCH['log'] = None
        if m is not None:
            e['mark'] = MARK.get(m.is_trained(), 'other')
        if before is not None and self.tree() != before:
            e['tree'] = 'changed'
        self.current = None
        if op['op'] != 'pass':
            for cc in op.get('see', ()):
                e['see'].append(self.see(cc))
        else:
            e['see'].append(self.see(c))
        e['sig'] = self.log
        self.log = []
        for clf in self.clfs:
            back = self.tok
            recs = []
            extra = 0
            for w in list(clf._wordinfokeys()):
                r = clf._wordinfoget(w)
                if w in back:
                    recs.append([back[w], r.spamcount, r.hamcount])
                else:
                    extra += 1
            e['clf'].append({'ns': clf.nspam, 'nh': clf.nham, 'recs': recs, 'extra': extra})
        return e


def run_script(s):
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        root = os.path.join(d, 'root')
        os.mkdir(root)
        for n in s.get('outside', ()):
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(b'outside: ' + n.encode() + b'\n\nsecret')
        r = None
        try:
            r = Run(s, root)
            steps = []
            cwd = os.getcwd()
            if s.get('cwd'):
                os.chdir(root)
            try:
                for op in s['ops']:
                    steps.append(r.step(op))
            finally:
                os.chdir(cwd)
            return {'steps': steps, 'toks': r.toks, 'names': r.names}
        finally:
            NOW[0] = None
            if r is not None:
                message_added.disconnect(r.on_added_all)
                message_removed.disconnect(r.on_removed_all)
                r.keep = []
            for base, dirs, files in os.walk(root):
                for x in dirs:
                    os.chmod(os.path.join(base, x), 0o777)


drvlib.main(run_script, setup)
