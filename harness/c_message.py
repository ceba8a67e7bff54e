"""C16, C17, C18, C19: messages."""
from decimal import Decimal
import math

import vlib

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
CLASSES = ['spam', 'ham', 'unsure']
OWN = ['X-Spambayes-Classification', 'X-Spambayes-Spam-Probability', 'X-Spambayes-Level', 'X-Spambayes-Evidence',
       'X-Spambayes-MailId', 'X-Spambayes-Trained', 'X-Spambayes-Classification-ID']
SUBJECTS = ['hello', '', 'spam,hello', 'ham,spam,hello', 'unsure,', 'spam', 'spam;x', 'SPAM,x', 'caf\xe9', '=?utf-8?q?caf=C3=A9?=',
            'folded\n line', 'spam,caf\xe9', 'x' * 90 + ' ' + 'y' * 60, 'ham,ham,ham,a', ' spam,x', 'unsure,unsure,a', 'ham, a', '\xff,spam,a', 'Ham,a', 'hams,a', 'unsure,spam,b', 'unsure ,c']
TOS = ['a@example.com', 'spam@spambayes.invalid,a@example.com', 'ham@spambayes.invalid,unsure@spambayes.invalid,b', '',
       'ham@spambayes.invalid', 'caf\xe9 <a@b>', 'a,\n b', 'unsure@spambayes.invalid,', 'spam@spambayes.invalid;x', 'undisclosed:;',
       'x@y, spam@spambayes.invalid,z', 'SPAM@spambayes.invalid,a@b', 'Ham@Spambayes.Invalid,a@b', 'unsure@spambayes.invalid.,a', 'ham@spambayes.invalidx,a']
OTHER = [('From', 'x@y'), ('X-Spambayes-Exception', 'E'), ('X-Spambayes', 'y'), ('X-Spambayes-Classification-Note', 'n'),
         ('Date', 'today'), ('Received', 'from a\n by b'), ('X-Level', '***'), ('Content-Type', 'text/plain'), ('X-Odd', '\xe9\xff'),
         ('Reply-To', 'r@s'), ('Subjects', 'spam,x'), ('X-Spambayes-Evidence2', 'e'), ('Message-Id', '<1@2>'), ('X-Empty', '')]
BODIES = ['', 'body\n', 'two\n\nparts\n', '\xff\xfe\n', 'From x\nX-Spambayes-Level: ***\n', 'a\r\nb\rc']
MULTI = ('Content-Type', 'multipart/mixed; boundary="qq"')
MULTIBODY = 'pre\n--qq\nX-Spambayes-Level: ***\nSubject: spam,inner\n\npart one\n--qq\nContent-Type: text/html\n\n<b>x</b>\n--qq--\npost\n'
IDS = ['1', 'id-2', '1234567890-1', 'a b', '<x@y>', '\xe9', 'None', '0', '../x', 'statistics start date']


def two_ids(rng, pool):
    """Two different identifiers, often similar ones."""
    a, b = rng.sample(pool, 2)
    if rng.random() < 0.5:
        c = rng.choice([a.upper(), a.lower(), a.title(), a.swapcase(), a + a, a[:-1], a[1:], a + '0', '0' + a, '<' + a + '>', a.strip('<>'),
                        a[::-1], a.replace('-', '_'), a.replace(' ', '  '), a + '.0', '-' + a, '+' + a])
        if c and c != a and c not in RESERVED:
            b = c
    return [a, b] if rng.random() < 0.5 else [b, a]


RESERVED = ['Statistics start date', 'Persistent statistics']


def ints(text):
    return [ord(c) for c in text]


def score(rng):
    """A score as (float, pk, pf)."""
    style = rng.randrange(6)
    if style == 0:
        pk = rng.choice([0, 1, 10, 100, 1000, 5000, 5001, 4999, 199999, 200000, 200001, 899999, 900000, 900001, 995000,
                         994999, 995001, 999999, 999990, 999000, 1000000, 500000, 99999, 100000, 300000, 600000, 700000, 999499])
    elif style == 1:
        pk = rng.randrange(11) * 100000
    elif style == 2:
        pk = rng.randrange(101) * 10000 + rng.choice([0, 5000, 4999, 5001])
        pk = min(pk, 1000000)
    elif style == 3:
        pk = rng.choice([rng.randrange(6000), 1000000 - rng.randrange(6000)])
    else:
        pk = rng.randrange(1000001)
    return pk / 10**6, pk, 0


def edge(rng):
    """A score next to a cutoff, for classification only."""
    p = rng.choice([math.nextafter(0.2, 0), math.nextafter(0.2, 1), math.nextafter(0.9, 0), math.nextafter(0.9, 1), 0.2, 0.9,
                    5e-324, math.nextafter(1, 0), 0.0, 1.0, 0.19999, 0.90001, 0.05, 0.95, 0.1, 0.8])
    d = Decimal(repr(p)) * 10**6
    pk = int(d)
    return p, pk, int(d != pk)


def header(n, v):
    return '%s: %s\n' % (n, v)


def raw_message(rng, both=None):
    hs = []
    if both or rng.random() < .75:
        hs.append((rng.choice(['Subject', 'Subject', 'subject', 'SUBJECT']), rng.choice(SUBJECTS)))
    if both or rng.random() < .75:
        hs.append((rng.choice(['To', 'To', 'to', 'TO']), rng.choice(TOS)))
    if rng.random() < .1:
        hs.append(('Subject', rng.choice(SUBJECTS)))
    if rng.random() < .1:
        hs.append(('To', rng.choice(TOS)))
    hs += rng.sample(OTHER, rng.choice([0, 1, 3, 6]))
    if rng.random() < .4:
        for n in rng.sample(OWN, rng.choice([1, 2, 5])):
            for _ in range(rng.choice([1, 1, 2])):
                hs.append((rng.choice([n, n.lower(), n.upper()]), rng.choice(['spam', 'x', '', '\xe9', '**', 'a\n\tb'])))
    rng.shuffle(hs)
    body = rng.choice(BODIES)
    if rng.random() < .2:
        hs = [h for h in hs if h[0] != 'Content-Type'] + [MULTI]
        body = MULTIBODY
    return ''.join(header(*h) for h in hs) + '\n' + body


def clues(rng):
    out = []
    if rng.random() < .9:
        out = [['*H*', rng.randrange(1000001), 1], ['*S*', rng.randrange(1000001), 1]]
    pool = ['money', 'url:x', "it's", 'caf\xc3\xa9', 'a; b', 'x' * 60, '', "'", '"', 'skip:a 10', ': 0.50', '\n', '*H', '**', 'H']
    for _ in range(rng.choice([0, 1, 4, 12, 40])):
        k = rng.choice([rng.randrange(1000001), rng.randrange(101) * 10000, rng.randrange(101) * 10000 + 5000])
        out.append([rng.choice(pool), min(k, 1000000), 0])
    if rng.random() < .2:
        rng.shuffle(out)
    return out


def add_op(rng, sub=None, to=None, full=None):
    """An add operation and, for the trace, what it means."""
    p, pk, pf = score(rng)
    kw = {}
    op = {'op': 'add', 'prob': p}
    mean = {'pk': pk, 'pf': pf, 'score': 0, 'digits': 2, 'log': 0, 'level': 0, 'evidence': 0, 'cut': 50, 'uid': 1, 'to': [], 'subj': []}
    on = (lambda q: full) if full is not None else (lambda q: int(rng.random() < q))

    def maybe(key, value, default, name):
        if value != default or rng.random() < .3:
            kw[name] = value
    mean['score'], mean['level'], mean['evidence'] = on(.5), on(.5), on(.5)
    mean['uid'] = int(rng.random() < .7) if full is None else full
    maybe('score', bool(mean['score']), False, 'include_score')
    maybe('level', bool(mean['level']), False, 'include_thermostat')
    maybe('evidence', bool(mean['evidence']), False, 'include_evidence')
    maybe('uid', bool(mean['uid']), True, 'add_unique_id')
    mean['digits'] = rng.choice([2, 2, 0, 1, 3, 4, 5, 6, 8])
    mean['log'] = int(rng.random() < .3)
    mean['cut'] = rng.choice([50, 50, 0, 1, 5, 10, 25, 40, 45])
    maybe('d', mean['digits'], 2, 'header_score_digits')
    maybe('l', bool(mean['log']), False, 'header_score_logarithm')
    maybe('c', mean['cut'] / 100, 0.5, 'clue_mailheader_cutoff')
    for key, name, force in (('to', 'notate_to', to), ('subj', 'notate_subject', sub)):
        cs = rng.choice([[], [], CLASSES, rng.sample(CLASSES, rng.choice([1, 2]))]) if force is None else force
        mean[key] = list(cs)
        if cs or rng.random() < .3:
            kw[name] = [list(cs), rng.choice(['tuple', 'list', 'set'])] if cs or rng.random() < .5 else None
    cl = clues(rng)
    # Floating point decides about scores exactly at the cutoff.
    c = mean['cut']
    cl = [x for x in cl if x[1] not in (c * 10**4, 10**6 - c * 10**4) or x[2] or c in (0, 50, 10, 25)]
    mean['clues'] = [{'w': ints(repr(w.encode('latin-1'))), 'ind': ind, 'sk': k} for w, k, ind in cl]
    op.update(kw=kw, clues=[[w, k] for w, k, ind in cl], mean=mean, list=rng.randrange(2))
    return op


def remove_op(rng, subj=None, to=None):
    subj = rng.randrange(2) if subj is None else subj
    to = rng.randrange(2) if to is None else to
    kw = {'remove_to_notations': bool(to), 'remove_subject_notations': bool(subj)}
    if subj and rng.random() < .5:
        del kw['remove_subject_notations']
    if to and rng.random() < .5:
        del kw['remove_to_notations']
    return {'op': 'remove', 'kw': kw, 'mean': {'rsubj': subj, 'rto': to, 'trip': 0}}


def unmark_op(rng):
    subj, to = rng.randrange(2), rng.randrange(2)
    kw = {}
    if to or rng.random() < .5:
        kw['remove_to_notations'] = bool(to)
    if subj or rng.random() < .5:
        kw['remove_subject_notations'] = bool(subj)
    return {'op': 'unmark', 'kw': kw, 'mean': {'rsubj': subj, 'rto': to, 'trip': 0}}


def notate_op(rng):
    pick = lambda: rng.choice([[], CLASSES, rng.sample(CLASSES, 1)])
    to, subj = pick(), pick()
    mean = {'pk': 0, 'pf': 0, 'score': 0, 'digits': 2, 'log': 0, 'level': 0, 'evidence': 0, 'cut': 50, 'uid': 0, 'to': to, 'subj': subj,
            'clues': []}
    return {'op': 'notate', 'to': to, 'subj': subj, 'mean': mean}


def classify_op(rng):
    p, pk, pf = edge(rng) if rng.random() < .5 else score(rng)
    return {'op': 'classify', 'prob': p, 'mean': {'pk': pk, 'pf': pf}}


def setid_op(rng, ids):
    r = rng.random()
    if r < .6:
        arg = {'t': 'text', 'v': ints(rng.choice(ids))}
    elif r < .7:
        arg = {'t': 'text', 'v': ints(rng.choice(RESERVED))}
    elif r < .75:
        arg = {'t': 'text', 'v': []}
    elif r < .85:
        arg = {'t': 'none', 'v': []}
    else:
        arg = {'t': 'other', 'v': []}
    return {'op': 'setid', 'arg': arg, 'other': rng.choice(['int', 'bytes', 'float', 'tuple', 'list', 'header', 'zero', 'false', 'same']),
            'mean': {'arg': arg}}


def from_text(v):
    return ''.join(map(chr, v))


def header_paths(ctx, n):
    depth = 2
    items = ctx.model_check('MCMessage', 'SPECIFICATION Spec\nVIEW View\nINVARIANT RoundTrip\nPROPERTY Clean\n'
                            'ACTION_CONSTRAINT Emit\nCONSTANTS Depth = %d\n' % depth, timeout=900)
    paths = vlib.tours(items, ctx.rng, max_len=depth)
    ctx.log('%d transitions of the header model' % len(items))
    ctx.rng.shuffle(paths)
    return paths[:n]


def from_path(rng, prop, path):
    hs = [(h['n'], from_text(h['v'])) for h in path[0]['pre'][0]]
    hs += rng.sample(OTHER, rng.choice([0, 1, 3]))
    raw = ''.join(header(*h) for h in hs) + '\n' + rng.choice(BODIES)
    ops = []
    for tr in path:
        a = tr['act']
        if a['op'] == 'add':
            # The score gives the class of the model.
            op = add_op(rng, [a['c']] if a['subj'] else [], [a['c']] if a['to'] else [], a['full'])
            lo, hi = {'ham': (0, 199999), 'unsure': (200000, 900000), 'spam': (900001, 1000000)}[a['c']]
            pk = rng.choice([lo, hi, rng.randint(lo, hi)])
            op['prob'], op['mean']['pk'], op['mean']['pf'] = pk / 10**6, pk, 0
            ops.append(op)
        else:
            op = remove_op(rng, a['subj'], a['to'])
            prev = ops[-1] if ops and ops[-1]['op'] == 'add' else None
            if prev and len(ops) == 1 and both(hs) and bool(prev['mean']['subj']) == bool(a['subj']) \
                    and bool(prev['mean']['to']) == bool(a['to']):
                op['mean']['trip'] = 1
            ops.append(op)
        if rng.random() < .2:
            ops.append({'op': 'report', 'mean': {}})
    return {'prop': prop, 'raw': raw, 'mid': rng.choice(IDS + [None]), 'ops': ops}


def both(hs):
    names = [n.lower() for n, v in hs]
    return 'subject' in names and 'to' in names


def c16(ctx):
    rng = ctx.rng
    scripts = [from_path(rng, 'C16', p) for p in header_paths(ctx, ctx.pick(2000, 20000))]
    for _ in range(ctx.pick(1500, 12000)):
        ops = []
        for _ in range(rng.choice([3, 8])):
            ops.append(rng.choice([add_op, add_op, classify_op, classify_op, notate_op, remove_op])(rng))
            if ops[-1]['op'] == 'notate' and not any(o['op'] in ('classify', 'add') for o in ops):
                ops.pop()
        scripts.append({'prop': 'C16', 'raw': raw_message(rng), 'mid': rng.choice(IDS + [None, None]), 'ops': ops})
    # All scores on a grid, and all neighbours of the cutoffs.
    grid = [(k / 10**6, k, 0) for k in range(0, 1000001, ctx.pick(2500, 200))] + [edge(rng) for _ in range(200)]
    for j in range(0, len(grid), 50):
        ops = [{'op': 'classify', 'prob': p, 'mean': {'pk': pk, 'pf': pf}} for p, pk, pf in grid[j:j + 50]]
        scripts.append({'prop': 'C16', 'raw': 'Subject: x\n\n', 'mid': None, 'ops': ops})
    return scripts


def c17(ctx):
    rng = ctx.rng
    scripts = [from_path(rng, 'C17', p) for p in header_paths(ctx, ctx.pick(2000, 20000))]
    for _ in range(ctx.pick(1200, 12000)):
        ops = []
        for _ in range(rng.choice([3, 8])):
            ops.append(rng.choice([add_op, notate_op, remove_op, remove_op, unmark_op, lambda r: {'op': 'report', 'mean': {}}])(rng))
            if ops[-1]['op'] == 'notate' and not any(o['op'] == 'add' for o in ops):
                ops.pop()
        scripts.append({'prop': 'C17', 'raw': raw_message(rng), 'mid': rng.choice(IDS + [None]), 'ops': ops})
    # Round trips.
    for _ in range(ctx.pick(800, 10000)):
        ops = [remove_op(rng)]
        for _ in range(3):
            s, t = rng.randrange(2), rng.randrange(2)
            ops.append(add_op(rng, CLASSES if s else [], CLASSES if t else []))
            if rng.random() < .3:
                ops.append({'op': 'report', 'mean': {}})
            op = remove_op(rng, s, t)
            op['mean']['trip'] = 1
            ops.append(op)
        scripts.append({'prop': 'C17', 'raw': raw_message(rng, both=True), 'mid': rng.choice(IDS + [None]), 'ops': ops})
    return scripts


def c18(ctx):
    rng = ctx.rng
    items = ctx.model_check('MCIdent', 'SPECIFICATION Spec\nVIEW View\nINVARIANT NeverBad\nPROPERTY OnceOnly\nACTION_CONSTRAINT Emit\n')
    scripts = []
    for path in vlib.tours(items, rng, max_len=60):
        pay = path[0]['pre']['pay']
        ids = two_ids(rng, IDS[:5] + ['aB'])
        sub = {'a': ids[0], 'b': ids[1]}
        raw = 'Subject: x\n'
        if pay != 'missing':
            raw += header('X-Spambayes-MailId', {'a': ids[0], 'b': ids[1], 'reserved': rng.choice(RESERVED), 'odd': '\xe9'}[pay])
        ops = []
        for tr in path:
            a = tr['act']
            if a['op'] == 'setid':
                text = from_text(a['v'])
                arg = {'t': a['t'], 'v': ints(sub.get(text, text))}
                ops.append({'op': 'setid', 'arg': arg, 'other': rng.choice(['int', 'bytes', 'header']), 'mean': {'arg': arg}})
            elif a['op'] == 'classify':
                ops.append({'op': 'class', 'x': a['x'], 'mean': {'x': a['x']}})
            elif a['op'] == 'remember':
                ops.append({'op': 'remember', 'x': a['x'], 'mean': {'x': a['x']}})
            elif a['op'] == 'payload':
                ops.append({'op': 'payload', 'mean': {}})
            else:
                ops.append({'op': 'restore', 'used': rng.randrange(2), 'mean': {}})
        scripts.append({'prop': 'C18', 'raw': raw + '\nbody', 'mid': None, 'ops': ops})
    for _ in range(ctx.pick(1500, 12000)):
        ids = two_ids(rng, IDS + ['aB', ' ', '\t', '\n'])
        raw = raw_message(rng)
        if rng.random() < .7:
            v = rng.choice([x for x in ids if x.strip()] + RESERVED + ['', 'a\n b', '\xe9', ids[0].strip()])
            raw = header(rng.choice(['X-Spambayes-MailId', 'x-spambayes-mailid']), v) + raw
        ops = []
        for _ in range(rng.choice([6, 15])):
            r = rng.random()
            if r < .35:
                ops.append(setid_op(rng, ids))
            elif r < .5:
                ops.append({'op': 'payload', 'mean': {}})
            elif r < .6:
                x = rng.choice(CLASSES)
                ops.append({'op': 'class', 'x': x, 'mean': {'x': x}})
            elif r < .65:
                ops.append(classify_op(rng))
            elif r < .8:
                x = rng.choice(['spam', 'ham', 'none'])
                ops.append({'op': 'remember', 'x': x, 'mean': {'x': x}})
            elif r < .9:
                ops.append({'op': 'restore', 'used': rng.randrange(2), 'mean': {}})
            else:
                ops.append(rng.choice([add_op, remove_op])(rng))
        scripts.append({'prop': 'C18', 'raw': raw, 'mid': rng.choice([None, ids[0]]), 'ops': ops, 'text': rng.random() < .2})
    return scripts


ENDS = ['\n', '\r\n', '\r']
WHATS = ['simple', 'two\nlines', 'blank\n\nline', 'caf\xe9 \u20ac', 'X-Spambayes-MailId: 7', 'a\r\nb', 'a\rb', '', ' ', 'x' * 300, 'tab\tbed',
         'a: b\n\nc: d', '\n', 'end\n\n', '\u2028', 'word ' * 60, '"quoted"; x=y', '\x0b\x0c', "'", '\udce9']


def mixed(rng, n, ends=None):
    ends = ends or rng.choice([['\n'], ['\r\n'], ['\r'], ENDS])
    lines = ['', 'a', 'Subject: b', ' folded', 'From x', 'caf\xe9', '\u2028x', '\x0b', '\x85', '.', 'x' * 100, '\u20ac']
    return ''.join(rng.choice(lines) + rng.choice(ends) for _ in range(n)) + rng.choice(['', 'tail'])


def c19(ctx):
    rng = ctx.rng
    items = ctx.model_check('MCText', 'SPECIFICATION Spec\nINVARIANTS Idempotent OnlyCrlf Keeps Splits\nACTION_CONSTRAINT Emit\n'
                            'CONSTANTS MaxLen = %d\n' % ctx.pick(5, 7), timeout=900)
    texts = [''] + [from_text(x['text']) for x in items]
    ctx.log('%d texts of the model' % len(texts))
    ops = [{'op': 'crlf', 'text': x} for x in texts]
    short = texts if ctx.thorough() else rng.sample(texts, 500)
    for x in short:
        ops.append({'op': 'exception', 'text': x, 'exc': rng.choice(['value', 'boom', 'key', 'os']), 'what': rng.choice(WHATS[:5]),
                    'ident': rng.choice([None, '', '17'])})
    for _ in range(ctx.pick(300, 4000)):
        ops.append({'op': 'crlf', 'text': mixed(rng, rng.randrange(12))})
    for _ in range(ctx.pick(1200, 12000)):
        raw = raw_message(rng)
        style = rng.randrange(5)
        if style == 0:
            raw = raw.replace('\n', '\r\n')
        elif style == 1:
            raw = ''.join(rng.choice(ENDS) if c == '\n' else c for c in raw)
        elif style == 2:
            raw = mixed(rng, rng.randrange(8))
        kw = {}
        if rng.random() < .5:
            kw['mangle_from_'] = rng.random() < .5
        if rng.random() < .3:
            kw['unixfrom'] = rng.random() < .7
            raw = rng.choice(['', 'From me Mon Jan  1 00:00:00 2001\n']) + raw
        op = {'op': 'text', 'text': raw, 'kw': kw, 'bytes': 0}
        if all(ord(c) < 256 for c in raw) and rng.random() < .5:
            op['bytes'] = 1
        ops.append(op)
    for _ in range(ctx.pick(1500, 12000)):
        end = rng.choice(ENDS)
        style = rng.randrange(6)
        if style < 3:
            raw = raw_message(rng).replace('\n', end) if style else raw_message(rng)
        elif style == 3:
            raw = mixed(rng, rng.randrange(8))
        elif style == 4:
            raw = rng.choice(['', 'Subject: x', 'Subject: x' + end, end, end + 'body', end + end, 'a: b' + end + end, 'no header' + end + end + 'x'])
        else:
            raw = 'Subject: x' + end + 'X-Spambayes-Exception: old' + end + ' more' + end + end + 'body' + end + end + 'X-Spambayes-Exception: y' + end
        ops.append({'op': 'exception', 'text': raw, 'exc': rng.choice(['value', 'boom', 'key', 'os', 'base']), 'what': rng.choice(WHATS),
                    'ident': rng.choice([None, '', '17', 'id-1', 'a b']), 'chain': int(rng.random() < .3)})
    rng.shuffle(ops)
    return [{'prop': 'C19', 'ops': ops[j:j + 10]} for j in range(0, len(ops), 10)]


def trace_of(s, r):
    steps = []
    if s['prop'] == 'C19':
        for e in r['steps']:
            if e['op'] != 'skip':
                steps.append({k: e[k] for k in ('op', 'raised', 'out', 'text', 'details', 'want', 'ident')})
        return {'id': s['id'], 'prop': 'C19', 'steps': steps}
    for op, e in zip([{}] + s['ops'], r['steps']):
        d = dict(op.get('mean', {}))
        d.update({k: v for k, v in e.items() if k != 'what'})
        steps.append(d)
    return {'id': s['id'], 'prop': s['prop'], 'steps': steps}


def judge(ctx, scripts, results):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        t = trace_of(s, r)
        if t['steps']:
            traces.append((t, s, r))
    byid = {t['id']: (t, s, r) for t, s, r in traces}
    for x in ctx.validate('TMessage', TCFG, [t for t, s, r in traces]):
        t, s, r = byid[x['reject']]
        e = t['steps'][x['step'] - 1]
        show = {k: (from_text(v) if k in ('out', 'text', 'details', 'want', 'ident') else v) for k, v in e.items() if k != 'obs'}
        if 'obs' in e:
            show['headers'] = [[h['n'], from_text(max(0, c) for c in h['v'])] for h in e['obs']['hdrs']]
            show['state'] = {k: e['obs'][k] for k in ('id', 'cls', 'mark')}
        ctx.violation(x['why'], {'observed': show, 'step': x['step'], 'script': s})
    for s in scripts[:1] + scripts[-2:]:
        ctx.sample({'raw': s.get('raw'), 'ops': [{k: v for k, v in o.items() if k not in ('mean', 'clues')} for o in s['ops'][:3]]})


def run(ctx):
    scripts = {'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19}[ctx.prop](ctx)
    for i, s in enumerate(scripts):
        s['id'] = i
    ctx.log('%d histories' % len(scripts))
    results = ctx.drive('drv_message', scripts, timeout=ctx.pick(300, 3000))
    ctx.log('driven')
    judge(ctx, scripts, results)
    return ctx.finish('model_checking', histories=len(scripts))


def replay(ctx, saved):
    s = saved['detail']['script']
    r = ctx.drive('drv_message', [s])
    judge(ctx, [s], r)
    return 1 if ctx.violations else 0
