"""C01, C02, C03, C06, C07: histories of training, scoring and saving."""
import json

import vlib

TEXT = ['a', 'A', 'spam', '', ' ', 'saved state', '\x00', '\x00b', '\x00t', 'bi:a b', '*H*', 'é',
        '€', 'x' * 300, '0', '1,1', 'a\nb', '\udc80', '\U0001f600', 'e\u0301', '\xff', "b'a'", 'subject:a',
        '\ud800\udc00', 'skip:a 10', 'D', 'C', '\x00ta', '\x00bsaved state', 'None', 'state', '\x7f\x80',
        'y' * 900]
BYTES = [b'a', b'A', b'', b' ', b'saved state', b'\x00', b'\xff', b'\xff\xfe', b'bi:a b', b'*S*', b'\xc3\xa9',
         b'x' * 300, b'0', b'1,1', b'a\nb', b'\x80', b'\x00b', b'\x00t', b'subject:a', b'\xe9', b'url:',
         b'virus:', b'D', b'8bit%:100', b'skip:a 10', b'proto:http', b'\r\n', b'y' * 900]
BI_TEXT = ['a', 'b', 'c', 'd', 'e', 'é', 'zz', 'spam', 'x' * 30, 'subject:a', '', '0']
KINDS = ['list', 'tuple', 'gen', 'iter', 'seq']
UNORDERED = ['set', 'dict']
EXCS = ['value', 'key', 'attr', 'io', 'stop', 'kbd', 'mem', 'unicode', 'index', 'type', 'unhashable']


def ship(tok):
    return ['b', tok.decode('latin-1')] if isinstance(tok, bytes) else ['s', tok]


def tokens(rng, n, bigrams=False, only=None):
    if bigrams:
        pool = BI_TEXT
        pick = rng.sample(pool, n)
        if rng.random() < 0.5:
            pick = [p.encode() for p in pick]
    else:
        pool = TEXT if rng.random() < 0.5 else BYTES
        pick = rng.sample(pool, min(n, len(pool) - 2))
        while len(pick) < n:
            x = 'tok%d' % len(pick)
            pick.append(x if pool is TEXT else x.encode())
        rng.shuffle(pick)
    return [ship(p) for p in pick]


def universe(n, bigrams):
    ws = list(range(1, n + 1))
    if bigrams:
        ws += [1000 * a + b for a in range(1, n + 1) for b in range(1, n + 1)]
    return ws


def decorate(op, rng, bigrams=False):
    """Choose everything the specification leaves open."""
    if op['op'] in ('learn', 'unlearn', 'learnfail', 'unlearnfail', 'score', 'fresh'):
        if not bigrams:
            ms = list(op['ms'])
            ms += [rng.choice(ms) for _ in range(rng.choice([0, 0, 1, 3])) if ms]
            rng.shuffle(ms)
            op['ms'] = ms
        op['kind'] = rng.choice(KINDS if bigrams else KINDS + UNORDERED)
        op['alias'] = rng.random() < 0.3
    if op['op'].endswith('fail'):
        op['exc'] = rng.choice(EXCS)
    if op['op'] == 'kill':
        op['how'] = rng.choice(['sig', 'exit'])
    if op['op'] in ('reopen', 'drop'):
        op['flag'] = rng.choice(['c', 'c', 'w'])
    if op['op'] == 'copy':
        op['protocol'] = rng.randrange(0, 6)
    op.setdefault('see', 1)
    return op


def script_from_path(path, rng, backend, nwords, bigrams=False, sparse=False):
    ops = []
    for i, tr in enumerate(path):
        a = tr['act']
        op = {'op': a['op']}
        if a['op'] in ('learn', 'unlearn', 'learnfail', 'unlearnfail'):
            op.update(ms=a['ms'], k=a['k'])
        op['see'] = 1 if (not sparse or i == len(path) - 1) else 0
        ops.append(decorate(op, rng, bigrams))
    return {'backend': backend, 'bigrams': bigrams, 'cz': 0, 'tokens': tokens(rng, nwords, bigrams),
            'universe': universe(nwords, bigrams), 'ops': ops}


class Gen:
    """Random histories; keeps a ledger of what can be unlearned."""

    def __init__(self, rng, backend, nwords=8, bigrams=False, wild=False, weights=None, cz=0, toks=None,
                 maxlen=6):
        self.rng, self.backend, self.bi, self.wild = rng, backend, bigrams, wild
        self.nw = nwords
        self.ledger = []
        self.saved = []
        self.ops = []
        self.w = weights
        self.cz = cz
        self.toks = toks or tokens(rng, nwords, bigrams)
        self.maxlen = maxlen
        self.probes = []

    def msg(self):
        n = self.rng.choice([0, 1, 1, 2, 2, 3, 4, self.maxlen])
        if self.bi:
            return [self.rng.randint(1, self.nw) for _ in range(n)]
        return self.rng.sample(range(1, self.nw + 1), min(n, self.nw))

    def add(self, op, **kw):
        d = dict(op=op, **kw)
        d['see'] = 1 if self.rng.random() < self.see else 0
        self.ops.append(decorate(d, self.rng, self.bi))

    def make(self, n, see=1.0):
        rng = self.rng
        self.see = see
        names = list(self.w)
        for _ in range(n):
            op = rng.choices(names, [self.w[x] for x in names])[0]
            k = rng.choice(['spam', 'ham'])
            if op == 'learn':
                ms = self.msg()
                n_ = 1
                if 'bulk' in self.w and rng.random() < 0.1:
                    n_ = rng.choice([2, 3, 17, 300])
                self.ledger += [(tuple(ms), k)] * n_
                self.add('learn', ms=ms, k=k, n=n_)
            elif op == 'bulk':
                pass
            elif op == 'unlearn':
                if self.wild and rng.random() < 0.5:
                    self.add('unlearn', ms=self.msg(), k=k)
                elif self.ledger:
                    ms, k = self.ledger.pop(rng.randrange(len(self.ledger)))
                    self.add('unlearn', ms=list(ms), k=k)
            elif op == 'drain':
                # Unlearn everything that was learned.
                rng.shuffle(self.ledger)
                for ms, k in self.ledger:
                    self.add('unlearn', ms=list(ms), k=k)
                self.ledger = []
            elif op == 'rejected':
                if not any(kk == k for _, kk in self.ledger) and not self.wild and self.certain:
                    self.add('unlearn', ms=self.msg(), k=k)
            elif op == 'fail':
                self.add(rng.choice(['learnfail', 'unlearnfail']), ms=self.msg(), k=k)
            elif op in ('score', 'fresh'):
                if self.probes and rng.random() < 0.6:
                    ms = rng.choice(self.probes)
                else:
                    ms = self.msg()
                    self.probes = (self.probes + [ms])[-5:]
                self.add(op, ms=ms, **({'plain': 1} if rng.random() < 0.3 else {}))
                if op == 'score' and rng.random() < 0.3:
                    self.add('fresh', ms=ms)
            elif op == 'store':
                self.add('store')
                self.saved = list(self.ledger)
            elif op in ('load', 'reopen', 'drop', 'kill', 'gone'):
                self.add(op)
                self.ops[-1]['see'] = 1
                prev = self.ops[-2]['op'] if len(self.ops) > 1 else 'store'
                if self.backend == 'shelve' and op == 'reopen' and rng.random() < 0.4:
                    self.readonly()
                if self.backend == 'shelve' and rng.random() < 0.6:
                    self.ops[-1]['via'] = 1
                if self.backend == 'shelve':
                    # What is found is uncertain unless just saved.
                    if prev == 'store':
                        self.ledger = list(self.saved)
                    else:
                        self.ledger = []
                        self.saved = []
                        self.certain = False
                else:
                    self.ledger = list(self.saved)
            elif op in ('saveload', 'savereopen', 'savekill', 'savegone', 'savedrop'):
                self.add('store')
                self.saved = list(self.ledger)
                self.add(op[4:])
                self.ops[-1]['see'] = 1
                if self.backend == 'shelve' and rng.random() < 0.6:
                    self.ops[-1]['via'] = 1
            elif op == 'copy':
                self.add('copy')
            else:
                raise AssertionError(op)
        self.add('nop')
        self.ops[-1]['see'] = 1
        return {'backend': self.backend, 'bigrams': self.bi, 'cz': self.cz, 'tokens': self.toks,
                'universe': universe(self.nw, self.bi), 'ops': self.ops}

    certain = True

    def readonly(self):
        """The database was opened only for reading; open it for writing after
        some use."""
        rng = self.rng
        self.ops[-1]['flag'] = 'r'
        for op in rng.choices(['score', 'score', 'fresh', 'load', 'nop', 'reopen'], k=rng.randrange(4)):
            if op in ('score', 'fresh'):
                self.add(op, ms=rng.choice(self.probes) if self.probes else self.msg())
            else:
                self.add(op)
                if op == 'reopen':
                    self.ops[-1]['flag'] = 'r'
            self.ops[-1]['see'] = 1
        self.add('reopen')
        self.ops[-1]['see'] = 1


def traces_of(ctx, scripts, results):
    out = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven',
                          {'script': s, 'crash': r['crash']}, s.get('signature'))
            continue
        steps = []
        for e in r['steps']:
            e = dict(e)
            for k in ('what', 'kind', 'alias', 'exc', 'how', 'see', 'via', 'plain', 'protocol', 'flag'):
                e.pop(k, None)
            e.setdefault('ms', [])
            e.setdefault('k', '')
            if not e.get('has'):
                e['obs'] = {'ns': 0, 'nh': 0, 'recs': [], 'extra': 0}
            steps.append(e)
        out.append({'id': s['id'], 'backend': s['backend'], 'bigrams': s['bigrams'], 'cz': s['cz'],
                    'steps': steps})
    return out


TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'


def judge(ctx, scripts, results, shards=None):
    traces = traces_of(ctx, scripts, results)
    byid = {s['id']: (s, r) for s, r in zip(scripts, results)}
    for x in ctx.validate('TStore', TCFG, traces, shards=shards):
        s, r = byid[x['reject']]
        n = x['step']
        ctx.violation(x['why'], {'script': s, 'step': n, 'observed': r['steps'][n - 1],
                                 'before': r['steps'][max(0, n - 4):n - 1], 'expected': x['expected']},
                      s.get('signature'))
    for s in scripts[-1:]:
        ctx.sample({'backend': s['backend'], 'tokens': s['tokens'][:4], 'ops': s['ops'][:8]})


def number(scripts):
    for i, s in enumerate(scripts):
        s['id'] = i
    return scripts


def graph_bayes(ctx, words, maxtotal, bigrams, free, maxlen=2):
    cfg = ('SPECIFICATION Spec\nVIEW View\nINVARIANTS CountsFollowLedger NoEmpty UndoRestores\n'
           'PROPERTY FailuresChangeNothing\nACTION_CONSTRAINT Emit\nCONSTANTS Words = {%s} MaxTotal = %d '
           'Bigrams = %s Free = %s MaxLen = %d\n'
           % (','.join(map(str, range(1, words + 1))), maxtotal, str(bigrams).upper(), str(free).upper(), maxlen))
    return ctx.model_check('MCBayes', cfg)


def graph_store(ctx, lossy, maxtotal=1):
    cfg = ('SPECIFICATION Spec\nVIEW View\nINVARIANT Inv\nPROPERTIES SavedChangesOnlyBySaving ReopenFindsSaved\n'
           'ACTION_CONSTRAINT Emit\nCONSTANTS Words = {1, 2} MaxTotal = %d Lossy = %s\n'
           % (maxtotal, str(lossy).upper()))
    return ctx.model_check('MCStore', cfg)


def shelve_design(ctx):
    """How words reach a shelved database, and designs in which they do so wrongly."""
    cfg = ('SPECIFICATION Spec\nINVARIANTS TypeOK ReadsAreTrue KeysAreTrue SavedIsFound EndIsAllowed\n'
           'CONSTANTS Words = {%s} MaxTotal = %d Mode = "%s"\n')
    ctx.model_check('Shelve', cfg % ('1, 2', 1, 'code'), emit=False, workers=4)
    if ctx.thorough():
        ctx.model_check('Shelve', cfg % ('1', 2, 'code'), emit=False, workers=8, timeout=900)
    for mode in ('noflush', 'statelater', 'nodelete', 'memstays'):
        rc, text = ctx.tlc('Shelve', cfg % ('1', 2, mode), workers=1)
        if 'is violated' not in text:
            raise vlib.MachineryError('the model does not find the defect of design ' + mode + vlib.tail(text))


def replays(ctx, trans, backend, nwords, bigrams=False, max_len=60, share=1.0, probes=0):
    rng = ctx.rng
    out = []
    paths = vlib.tours(trans, rng, max_len)
    if share < 1:
        paths = rng.sample(paths, max(1, int(len(paths) * share)))
    for p in paths:
        s = script_from_path(p, rng, backend, nwords, bigrams, sparse=rng.random() < 0.4)
        if probes:
            ops = []
            for o in s['ops']:
                ops.append(o)
                if rng.random() < probes:
                    ms = [rng.randint(1, nwords) for _ in range(rng.choice([1, 2, 2, 3]))]
                    ops.append(decorate({'op': 'score', 'ms': ms, 'see': rng.choice([0, 1]),
                                         **({'plain': 1} if rng.random() < .3 else {})}, rng, bigrams))
                    if rng.random() < 0.3:
                        ops.append(decorate({'op': 'fresh', 'ms': ms}, rng, bigrams))
            s['ops'] = ops
        out.append(s)
    return out


def rollback(rng, backend, toks=None, back=('load', 'reopen')):
    """Training, saving, more training, scoring, going back to what was saved, scoring again."""
    g = Gen(rng, backend, 4, weights={}, toks=toks)
    g.see = rng.choice([1.0, 0.3])
    probe = rng.sample(range(1, 5), rng.choice([1, 2, 4]))
    both = [('spam', probe[:1] + g.msg()), ('ham', probe[:1] + g.msg())] + [
        (rng.choice(['spam', 'ham']), g.msg()) for _ in range(rng.choice([0, 1, 3]))]
    rng.shuffle(both)
    for k, ms in both:
        g.add('learn', ms=list(dict.fromkeys(ms)), k=k, n=rng.choice([1, 1, 2, 3]))

    def look():
        g.add('score', ms=probe)
        if rng.random() < 0.5:
            g.add('fresh', ms=probe)
    if rng.random() < 0.5:
        look()
    g.add('store')
    for _ in range(rng.choice([1, 2])):
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['spam', 'ham'])
            ms = rng.choice([probe, g.msg(), [x for x in range(1, 5) if x not in probe]])
            g.add('learn', ms=ms, k=k, n=rng.choice([1, 2, 5]))
        look()
        g.add(rng.choice(back))
        g.ops[-1]['see'] = 1
        g.add('score', ms=probe)
        g.add('fresh', ms=probe)
    g.add('nop')
    g.ops[-1]['see'] = 1
    return {'backend': backend, 'bigrams': False, 'cz': 0, 'tokens': g.toks,
            'universe': universe(4, False), 'ops': g.ops}


def large(rng, backend, n, ends, steps):
    """Few operations with many tokens and high counts."""
    g = Gen(rng, backend, n, weights={}, toks=tokens(rng, n))
    g.see = 0.5
    every = list(range(1, n + 1))
    done = []
    fresh = True    # nothing has happened since the last save

    def cut():
        return rng.choice([every, rng.sample(every, n // 2), rng.sample(every, min(n, 9)), [rng.choice(every)],
                           [x for x in every if x % 3]])
    for _ in range(steps):
        r = rng.random()
        k = rng.choice(['spam', 'ham'])
        if r < .5:
            ms = cut()
            m = rng.choice([1, 1, 2, 3]) if len(ms) > 20 else rng.choice([1, 2, 254, 255, 256, 300, 1000])
            if len(ms) == 1 and rng.random() < .15 and backend != 'shelve':
                m = rng.choice([32768, 65535, 65536, 70000])
            g.add('learn', ms=ms, k=k, n=m)
            done.append((ms, k, m))
            fresh = False
        elif r < .65 and done:
            ms, k, m = done.pop(rng.randrange(len(done)))
            if rng.random() < .5 and m > 1:
                done.append((ms, k, m // 2))
                m -= m // 2
            g.add('unlearn', ms=ms, k=k, n=m)
            fresh = False
        elif r < .75:
            ms = cut()
            g.add('score', ms=ms)
            g.add('fresh', ms=ms)
        elif r < .8:
            g.add('learnfail', ms=cut(), k=k)
        elif ends:
            if backend != 'mem' and (not fresh or rng.random() < .5):
                g.add('store')
            g.add(rng.choice(ends))
            g.ops[-1]['see'] = 1
            fresh = True
    g.add('nop')
    g.ops[-1]['see'] = 1
    return {'backend': backend, 'bigrams': False, 'cz': 0, 'tokens': g.toks,
            'universe': universe(n, False), 'ops': g.ops}


def run(ctx):
    rng = ctx.rng
    scripts = []
    P = ctx.prop
    if P == 'C01':
        g = graph_bayes(ctx, 2, 2, False, False)
        scripts += replays(ctx, g, 'mem', 2)
        g = graph_bayes(ctx, 2, 2, False, True)
        scripts += replays(ctx, g, 'mem', 2, share=ctx.pick(0.5, 1.0))
        if ctx.thorough():
            g = graph_bayes(ctx, 3, 2, False, False, 3)
            scripts += replays(ctx, g, 'mem', 3)
        w = {'learn': 6, 'unlearn': 4, 'bulk': 1, 'drain': 0.2, 'copy': 0.2, 'score': 0.0}
        scripts += [large(rng, 'mem', rng.choice([260, 1100, 2600]), ['copy'], 12) for _ in range(ctx.pick(8, 60))]
        for j in range(ctx.pick(60, 800)):
            scripts.append(Gen(rng, 'mem', rng.choice([3, 8, 20]), wild=j % 3 == 0, weights=w,
                               maxlen=rng.choice([6, 20])).make(ctx.pick(60, 120), rng.choice([1.0, 0.2])))
    elif P == 'C02':
        g = graph_bayes(ctx, 2, 2, False, False)
        g = [t for t in g]
        scripts += replays(ctx, g, 'mem', 2)
        for lossy, bs in ((True, ('pickle', 'cdb')), (False, ('shelve',))):
            gs = graph_store(ctx, lossy)
            for b in bs:
                scripts += replays(ctx, gs, b, 2, share=ctx.pick(0.3, 1.0))
        w = {'learn': 4, 'unlearn': 3, 'fail': 5, 'rejected': 2, 'score': 2, 'savereopen': 1, 'drain': 0.3}
        scripts += [large(rng, b, rng.choice([260, 1100, 2600]), ['copy'] if b == 'mem' else ['reopen'], 12)
                    for b in ('mem', 'pickle', 'shelve', 'cdb') for j in range(ctx.pick(2, 15))]
        for j in range(ctx.pick(80, 800)):
            b = ['mem', 'mem', 'pickle', 'shelve', 'cdb'][j % 5]
            ww = {k: v for k, v in w.items() if not (b == 'mem' and k == 'savereopen')}
            bi = b == 'mem' and j % 10 == 1
            scripts.append(Gen(rng, b, 4 if bi else 6, weights=ww, bigrams=bi, cz=j).make(60, rng.choice([1.0, 0.3])))
    elif P == 'C03':
        g = graph_bayes(ctx, 2, 2, False, False)
        scripts += replays(ctx, g, 'mem', 2, probes=0.5, share=ctx.pick(0.6, 1.0))
        for lossy, bs in ((True, ('pickle', 'cdb')), (False, ('shelve',))):
            gs = graph_store(ctx, lossy)
            for b in bs:
                scripts += replays(ctx, gs, b, 2, share=ctx.pick(0.15, 1.0), probes=0.5)
        w = {'learn': 3, 'unlearn': 2, 'score': 6, 'store': 0.3, 'saveload': 0.4, 'savereopen': 0.3, 'savekill': 0.1}
        fixed = {bi: tokens(rng, 4, bi) for bi in (False, True)}
        for j in range(ctx.pick(60, 800)):
            b = ['mem', 'mem', 'pickle', 'shelve', 'cdb'][j % 5]
            bi = b == 'mem' and j % 2 == 1
            ww = {k: v for k, v in w.items() if b != 'mem' or not k.startswith(('save', 'store'))}
            if b == 'mem':
                ww['copy'] = 0.3
            if b in ('pickle', 'cdb'):
                ww.update(load=0.3, reopen=0.2, kill=0.1)
            scripts.append(Gen(rng, b, 3, weights=ww, bigrams=bi, cz=1 if bi else 0,
                               toks=fixed[bi][:3]).make(50, rng.choice([1.0, 0.0, 0.5])))
        scripts += [rollback(rng, b) for b in ('pickle', 'cdb') for _ in range(ctx.pick(12, 200))]
    elif P == 'C06':
        shelve_design(ctx)
        for lossy, bs in ((True, ('pickle', 'cdb')), (False, ('shelve',))):
            gs = graph_store(ctx, lossy)
            for b in bs:
                scripts += replays(ctx, gs, b, 2, share=ctx.pick(0.5, 1.0), probes=0.05)
        w = {'learn': 6, 'unlearn': 4, 'score': 1, 'store': 0.6, 'saveload': 0.5, 'savereopen': 0.7,
             'savegone': 0.3, 'bulk': 0.3, 'drain': 0.3}
        for j in range(ctx.pick(90, 900)):
            b = ['pickle', 'shelve', 'cdb'][j % 3]
            ww = dict(w)
            # A shelved database may keep some of what was not saved.
            ww.update({'load': 0.3} if b == 'shelve' else {'load': 0.3, 'reopen': 0.2, 'drop': 0.2})
            scripts.append(Gen(rng, b, rng.choice([3, 8, 20]), weights=ww,
                               maxlen=rng.choice([6, 20])).make(ctx.pick(60, 120), rng.choice([1.0, 0.3, 0.0])))
        # Classifiers that are pickled by themselves.
        for j in range(ctx.pick(20, 200)):
            bi = j % 2 == 1
            scripts.append(Gen(rng, 'mem', 4 if bi else 8, weights={'learn': 6, 'unlearn': 4, 'score': 4, 'copy': 2}, bigrams=bi,
                               cz=5000 + j).make(40, rng.choice([1.0, 0.3])))
        scripts += [rollback(rng, b) for b in ('pickle', 'cdb') for _ in range(ctx.pick(15, 200))]
        scripts += [large(rng, b, rng.choice([260, 1100, 2600]), ['load', 'reopen'] + (['gone', 'kill'] if j else []), 12)
                    for b in ('pickle', 'shelve', 'cdb') for j in range(ctx.pick(3, 25))]
    elif P == 'C07':
        shelve_design(ctx)
        for lossy, bs in ((True, ('pickle', 'cdb')), (False, ('shelve',))):
            gs = graph_store(ctx, lossy)
            for b in bs:
                scripts += replays(ctx, gs, b, 2, share=ctx.pick(0.3, 1.0))
        w = {'learn': 6, 'unlearn': 4, 'score': 1, 'store': 0.8, 'savekill': 0.6, 'savegone': 0.3, 'savedrop': 0.3,
             'kill': 0.8, 'gone': 0.6, 'drop': 0.6, 'load': 0.3, 'reopen': 0.3}
        for j in range(ctx.pick(120, 1200)):
            b = ['pickle', 'shelve', 'cdb', 'shelve'][j % 4]
            scripts.append(Gen(rng, b, rng.choice([2, 3, 8]), weights=w).make(50, rng.choice([1.0, 0.3, 0.0])))
        scripts += [large(rng, b, rng.choice([260, 1100, 2600]), ['gone', 'kill', 'drop'], 12)
                    for b in ('pickle', 'shelve', 'cdb') for j in range(ctx.pick(2, 25))]
        # So much unsaved training that the buffer of the dbm library overflows.
        for b in ('pickle', 'shelve', 'cdb'):
            for how in ('kill', 'gone'):
                scripts.append({'backend': b, 'bigrams': False, 'cz': 0, 'noextra': 1,
                                'signature': 'unsaved-flood-%s-%s' % (b, how),
                                'tokens': tokens(rng, 2), 'universe': [1, 2],
                                'ops': [{'op': 'learn', 'ms': [1, 2], 'k': 'spam'}, {'op': 'store'},
                                        {'op': 'flood', 'n': 1500, 'ms': [], 'k': 'spam'}, {'op': how}]})
    number(scripts)
    ctx.log('%d scripts, %d operations' % (len(scripts), sum(len(s['ops']) for s in scripts)))
    results = ctx.drive('drv_store', scripts, timeout=ctx.pick(200, 3000))
    ctx.log('driven')
    judge(ctx, scripts, results)
    ctx.assumptions += ['the dbm backend is that of this Python (dbm.ndbm on Berkeley DB)',
                        'an abrupt end happens between two calls']
    return ctx.finish('model_checking', backends=sorted({s['backend'] for s in scripts}),
                      operations=sum(len(s['ops']) for s in scripts))


def replay(ctx, saved):
    s = saved['detail']['script']
    r = ctx.drive('drv_store', [s])
    print(json.dumps(r, indent=1)[:5000])
    judge(ctx, [s], r)
    return 1 if ctx.violations else 0
