"""C29: a message keeps its tokens, its score and its effect however it is kept."""
import c_text
import vlib

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
LONG = ['Content-Disposition: attachment; filename="%s"' % ('report of the year ' * 6),
        'Content-Type: text/plain; charset="utf-8"; name="%s"' % ('long name, ' * 12),
        'Content-Type: multipart/mixed; x=y; %s boundary="qq"' % ('a=b; ' * 20),
        'X-Mailer: ' + 'The mailer of the house ' * 7, 'Subject: ' + 'never ending offer; ' * 9,
        'Subject: folded\n  twice\n\tand again ' + 'long ' * 20,
        'To: ' + ', '.join('"Some One" <someone%d@example.com>' % j for j in range(9)),
        'From: "%s" <a@b.c>' % ('Name ' * 25), 'Message-Id: <%s@example.com>' % ('0123456789' * 9),
        'Subject: a\x0bb \x0cc \x1cd \x1ee', 'Received: from mail.example.com ([10.1.2.3]) by %s' % ('x.' * 50),
        'Subject: ' + 'x' * 1200, 'To: a@b.c,\n b@c.d,\n\tc@d.e', 'Content-Disposition: inline\n ',
        'Content-Type: text/plain;\n charset="us-ascii"', 'Subject: =?utf-8?q?' + 'caf=C3=A9_' * 10 + '?=',
        'Subject: caf\xc3\xa9 ' + 'word ' * 30, 'X-Mailer: \xff\xfe' + ' x' * 50]


def raw_message(rng):
    while True:
        r = rng.random()
        if r < .08:
            raw = c_text.parcel(rng)
        elif r < .7:
            raw = c_text.weird(rng, False)
        else:
            raw = 'Subject: hello\nTo: a@b.c\n\n' + c_text.word_soup(rng, 6)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            raw = rng.choice(LONG) + '\n' + raw
        raw = ''.join(c if ord(c) < 256 else '?' for c in raw)
        if rng.random() < .2:
            raw = raw.replace('\r\n', '\n').replace('\n', rng.choice(['\r\n', '\r\n', '\r']))
        # Parts with a delivery status are blocks of header lines.
        if 'delivery-' in raw.lower():
            continue
        return raw


def details(rng, op, raw):
    op = dict(op)
    ascii_ = all(ord(c) < 128 for c in raw)
    if op['op'] in ('read', 'pass'):
        op['how'] = rng.choice(['bytes', 'crlf', 'lf', 'path'] + ['string', 'string'] * ascii_)
        op['mangle'] = 0 if 'From' in raw else rng.randrange(2)
    elif op['op'] == 'mark':
        op['kw'] = {'include_thermostat': rng.random() < .5, 'include_score': rng.random() < .5,
                    'include_evidence': rng.random() < .6, 'add_unique_id': rng.random() < .5, 'header_score_logarithm': rng.random() < .5,
                    'to': rng.randrange(2), 'subject': rng.randrange(2), 'clue_mailheader_cutoff': rng.choice([0, .1, .5])}
    elif op['op'] == 'restart':
        op['protocol'] = rng.choice([0, 2, 4])
    return op


def walk(rng, graph, inits, n):
    cur = rng.choice(inits)
    path = []
    for _ in range(n):
        t = rng.choice(graph[cur])
        path.append(t)
        cur = vlib.key(t['post'])
    return path


def scripts(ctx):
    rng = ctx.rng
    cfg = 'SPECIFICATION Spec\nINVARIANTS Same MarksStayOut\nCHECK_DEADLOCK FALSE\nCONSTANTS Limit = %d\nFolds = %s\n'
    trans = ctx.model_check('MCKeep', cfg % (ctx.pick(1, 2), 'FALSE'), timeout=1500)
    rc, text = ctx.tlc('MCKeep', cfg % (1, 'TRUE'))
    if 'Invariant Same is violated' not in text:
        raise vlib.MachineryError('the model does not notice messages that change when written')
    paths = vlib.tours(trans, rng, max_len=40)
    ctx.log('%d transitions of the model in %d histories' % (len(trans), len(paths)))
    graph = {}
    for t in trans:
        graph.setdefault(vlib.key(t['pre']), []).append(t)
    inits = sorted({vlib.key(t['pre']) for t in trans if t['init']})
    paths += [walk(rng, graph, inits, rng.choice([8, 16, 40])) for _ in range(ctx.pick(1500, 12000))]
    out = []
    for p in paths:
        ms = [raw_message(rng) for _ in range(2)]
        ops = [details(rng, t['act'], ms[t['act']['m'] - 1]) for t in p]
        out.append(dict(c_text.surroundings(rng), messages=ms, cache=rng.choice([1, 1, 2, 250]), ops=ops))
    return out


def judge(ctx, scripts, results):
    traces = []
    byid = {}
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        byid[s['id']] = (s, r)
        traces.append({'id': s['id'], 'steps': r['steps']})
    for x in ctx.validate('TKeep', TCFG, traces):
        s, r = byid[x['reject']]
        e = r['steps'][x['step'] - 1]
        if x['why'].startswith('the history is not'):
            raise vlib.MachineryError('%s: %s' % (x, s['ops'][:x['step']]))
        ctx.violation(x['why'], {'message': s['messages'][e['m'] - 1], 'ops': s['ops'][:x['step']], 'observed': e, 'step': x['step'], 'script': s})
    for s in scripts[:1] + scripts[-2:]:
        ctx.sample({'ops': s['ops'][:4], 'messages': s['messages'][:1]})


def run(ctx):
    todo = scripts(ctx)
    for i, s in enumerate(todo):
        s['id'] = i
    ctx.log('%d histories' % len(todo))
    results = ctx.drive('drv_keep', todo, timeout=ctx.pick(400, 3000))
    ctx.log('driven')
    judge(ctx, todo, results)
    return ctx.finish('model_checking', histories=len(todo))


def replay(ctx, saved):
    s = saved['detail']['script']
    judge(ctx, [s], ctx.drive('drv_keep', [s]))
    return 1 if ctx.violations else 0
