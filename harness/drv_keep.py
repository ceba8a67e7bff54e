"""Runs histories of messages that are read, passed on, marked, stored and trained.

A script: {messages: [raw, raw], o, names, hosts, cache, ops: [{op, m, n, how, ...}]}.
"""
import hashlib
import os
import pickle
import tempfile

import drvlib

KINDS = {1: False, 2: True}


def setup():
    global message, FileCorpus, basic, trainers, tokenize, tk, st
    from sbclassifier import message, trainers
    import sbclassifier.tokenizer as tk
    import sbclassifier.strippers as st
    from sbclassifier.corpora import FileCorpus
    from sbclassifier.classifiers import basic
    from sbclassifier.tokenizer import tokenize


def digest(tokens):
    h = hashlib.sha256()
    for x in sorted(tokens):
        h.update(repr(x).encode())
    return h.hexdigest()[:16]


class Run:
    def __init__(self, s, root):
        self.s, self.root = s, root
        self.raw = [r.encode('latin-1') for r in s['messages']]
        self.objs = [None, None]
        self.n = self.parsed = 0
        self.dirs = {}
        for c in (1, 2, 3):
            self.dirs[c] = os.path.join(root, 'corpus%d' % c)
            os.mkdir(self.dirs[c])
        self.clf = basic.Classifier()
        self.open()
        for m in (1, 2):
            self.objs[m - 1] = self.parse(self.raw[m - 1], 'bytes', m)

    def open(self):
        self.corpora = {c: FileCorpus(d, cache_size=self.s['cache']) for c, d in self.dirs.items()}
        self.trainers = [trainers.HamTrainer(self.clf, [self.corpora[1]]), trainers.SpamTrainer(self.clf, [self.corpora[2]])]

    def parse(self, raw, how, m):
        self.parsed += 1
        if self.parsed % 3 == 0:
            # The identifier is set later.
            x = self.read(raw, how, None)
            x.set_id('m%d' % m)
            return x
        return self.read(raw, how, {'message_id': 'm%d' % m})

    def read(self, raw, how, ident):
        ident = ident or {}
        if how == 'string':
            return message.from_string(raw.decode('ascii'), **ident)
        if how == 'crlf':
            return message.from_bytes(raw.replace(b'\r\n', b'\n').replace(b'\n', b'\r\n'), **ident)
        if how == 'lf':
            return message.from_bytes(raw.replace(b'\r\n', b'\n'), **ident)
        if how == 'path':
            self.n += 1
            p = os.path.join(self.root, 'file%d' % self.n)
            with open(p, 'wb') as f:
                f.write(raw)
            return message.from_path(p, **ident)
        return message.from_bytes(raw, **ident)

    def do(self, op):
        m = op['m']
        key = 'm%d' % m
        x = self.objs[m - 1]
        o = op['op']
        if o == 'read':
            x = self.parse(self.raw[m - 1], op['how'], m)
        elif o == 'pass':
            if op['how'] == 'string':
                x = self.parse(x.as_string(mangle_from_=bool(op['mangle'])).encode('ascii'), 'string', m)
            else:
                x = self.parse(x.as_bytes(), op['how'], m)
        elif o == 'mark':
            prob, clues = self.clf.spamprob(tokenize(x), True)
            kw = dict(op['kw'])
            all3 = list(message.Classification)
            if kw.pop('to') and x['to'] is not None:
                kw['notate_to'] = all3
            if kw.pop('subject') and x['subject'] is not None:
                kw['notate_subject'] = all3
            self.notated = getattr(self, 'notated', {})
            self.notated[m] = ('notate_to' in kw, 'notate_subject' in kw)
            x.add_sb_headers(prob, clues, **kw)
        elif o == 'clean':
            to, subject = self.notated[m]
            x.remove_sb_headers(remove_to_notations=to, remove_subject_notations=subject)
        elif o == 'put':
            self.corpora[op['n']].add_message(x)
        elif o in ('get', 'take'):
            c = self.where[m]
            x = self.corpora[c][key]
            if o == 'take':
                self.corpora[c].remove_message(x)
        elif o == 'learn':
            self.clf.learn(tokenize(x), KINDS[op['n']])
            x.remember_trained(KINDS[op['n']])
        elif o == 'unlearn':
            self.clf.unlearn(tokenize(x), KINDS[op['n']])
            x.remember_trained(None)
        elif o == 'score':
            prob, _ = self.clf.spamprob(tokenize(x), True)
            x.set_classification(prob)
        elif o == 'restart':
            self.clf = pickle.loads(pickle.dumps(self.clf, op['protocol']))
            self.open()
        self.objs[m - 1] = x

    where = property(lambda self: {m: c for m in (1, 2) for c in (1, 2, 3)
                                   if os.path.exists(os.path.join(self.dirs[c], 'm%d' % m))})

    def state(self):
        clf = self.clf
        if not clf.nham and not clf.nspam and not clf.wordinfo:
            return 'empty'
        h = hashlib.sha256()
        for w in sorted(clf.wordinfo, key=repr):
            r = clf.wordinfo[w]
            h.update(repr((w, r.spamcount, r.hamcount)).encode())
        return '%d/%d/%s' % (clf.nham, clf.nspam, h.hexdigest()[:16])

    def step(self, op):
        e = {'op': op['op'], 'm': op['m'], 'n': op['n'], 'raised': '', 'tokens': '', 'state': '', 'score': 0}
        try:
            self.do(op)
            x = self.objs[op['m'] - 1]
            tokens = list(tokenize(x))
            e['tokens'] = digest(tokens)
            e['score'] = drvlib.scaled(self.clf.spamprob(tokens))
            e['state'] = self.state()
        except Exception as ex:
            import traceback
            e['raised'] = '%s: %s' % (type(ex).__name__, traceback.format_exc()[-400:])
        return e


def run_script(s):
    drvlib.choose((tk, st), s['o'])
    drvlib.stand_in(s, (tk, st))
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        r = Run(s, d)
        steps = []
        for op in s['ops']:
            steps.append(r.step(op))
            if steps[-1]['raised']:
                break
        return {'steps': steps}


drvlib.main(run_script, setup)
