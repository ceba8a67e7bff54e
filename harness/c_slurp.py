"""C23: the link-following classifier."""
import json

import vlib
from c_words import SPAM, HAM, NEUT, many

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
BAD = ['http_404', 'http_403', 'http_500', 'http_410', 'http_503', 'plain', 'noctype', 'empty', 'drop', 'gzip', 'junk', 'lost', 'nores', 'nores']
NPAGES = 8
KINDS = ['spam', 'ham']


def good(rng):
    return rng.choice(['page:%d', 'page:%d', 'page:%d', 'redirect:%d']) % rng.randrange(1, NPAGES + 1)


def bad(rng):
    return rng.choice(BAD) if rng.random() < .97 else 'loop'


def prime(rng):
    """Training that makes some words sure."""
    ops = []
    for j in range(2):
        ops.append({'op': 'learn', 'k': 'spam', 'words': SPAM, 'lazy': j})
        ops.append({'op': 'learn', 'k': 'ham', 'words': HAM, 'lazy': j})
    return ops


def words(rng, sure=None):
    if sure:
        return rng.choice([SPAM, HAM])[:8] + rng.sample(NEUT, 2)
    k = rng.choice([0, 0, 1, 2, 4])
    return rng.sample(SPAM, k) + rng.sample(HAM, k) + rng.sample(NEUT, rng.randrange(4))


def linked(rng, url, extra=()):
    """A text whose last http link is the given one (None: that has none)."""
    t = ''
    for _ in range(rng.choice([0, 0, 1, 2])):
        t += rng.choice(['https://secure.example/x ', 'ftp://files.example/y ', 'text ', 'http:/', '\n'] + ['http://%s ' % u for u in extra if url is not None])
    if url is not None:
        t += rng.choice([' ', '\n', '(', '<', '>', '"', 'see ']) + rng.choice(['http', 'http', 'HTTP', 'Http']) + '://' + url
        t += rng.choice(['', ' ', '. ', '; ', ') ', '!/ ', '?! ', '" ', '>', '\n', "' "])
    for _ in range(rng.choice([0, 0, 1])):
        t += rng.choice([' https://late.example/z', ' ftp://late.example/', ' word', ' http:// ', '\n'])
    return t


def say(rng, ws, url, extra=()):
    """Parts of a message of these words with that pending link."""
    t = ' '.join(ws) + ' ' + linked(rng, url, extra)
    x = rng.random()
    if x < .7:
        return [t]
    if x < .85:
        return [linked(rng, rng.choice(list(extra) or [None])) + ' more', t]
    return [t, None]


def script(rng, paths_ops, urls, world):
    return {'urls': urls, 'world': world, 'ops': paths_ops}


HOSTS = ['alpha.example', 'beta.example', 'gamma.example:8080', 'delta.example', 'a.b.c.example', 'x-y.example', 'x_y.example', 'www.example', '10.1.2.3']
PATHS = ['', '/a', '/a/b.html', '/q?x=1&y=2', '/%41', '/a-b', '/a_b', '/a.b', '/long' * 40, '/pic.jpg', '/pic.gif', '/s.css', '/s.js', '/pic.jpg.html', '/jpg', '/a.png?x', '/~me', '/a+b', '/a,b', '/x=y', '/a;b', '/p@q', '/(x']


def url_set(rng, n):
    """Distinct urls; those of one host do not fail to resolve."""
    out = []
    if rng.random() < .3:
        h = rng.choice(HOSTS)
        ps = rng.sample(PATHS, n)
        return [h + p for p in ps], False
    hs = rng.sample(HOSTS, n)
    return [h + rng.choice(PATHS) for h in hs], True


def concretize(rng, path):
    urls, apart = url_set(rng, 2)
    if rng.random() < .8:
        urls = [u if not u.endswith(('.jpg', '.gif', '.css', '.js')) else u + 'x' for u in urls]
    fail = bad(rng)
    if not apart and fail == 'nores':
        fail = 'http_404'
    p, q = rng.sample(['page:%d' % k for k in range(1, NPAGES + 1)], 2)
    name = {'p': p, 'q': q, 'f': fail}
    ops = prime(rng)
    current = None
    learned = []
    for tr in path:
        a = tr['act']
        o = a['op']
        if o == 'analyze':
            current = urls[a['u'] - 1] if a['u'] else None
            ops.append({'op': 'analyze', 'parts': say(rng, words(rng), current, urls)})
        elif o == 'learn':
            m = {'k': rng.choice(KINDS), 'lazy': rng.randrange(2), 'alias': rng.randrange(2)}
            if rng.random() < .5:
                m['parts'] = say(rng, words(rng), current, urls)
            else:
                m['words'] = words(rng)
            if learned and rng.random() < .5:
                ops.append(dict(learned.pop(), op='unlearn'))
            else:
                ops.append(dict(m, op='learn'))
                if 'words' in m:
                    learned.append(m)
        elif o in ('unsure', 'sure'):
            m = {'op': 'score', 'lazy': rng.randrange(2), 'ev': rng.choice([1, 1, 0])}
            ws = words(rng, o == 'sure')
            if rng.random() < .5:
                m['parts'] = say(rng, ws, current, urls)
            else:
                m['words'] = ws
            ops.append(m)
        elif o == 'world':
            ops.append({'op': 'world', 'url': a['u'], 'out': name[a['x']]})
        elif o == 'restart':
            current = None
            ops.append({'op': 'restart', 'days': {0: 0, 4: 3 if rng.random() < .5 else 5, 9: 9}[a['u']]})
            if rng.random() < .4:
                # The classifier is saved and loaded again.
                ops[-1]['carry'] = 1
            else:
                learned = []
                ops += prime(rng)
    return {'urls': urls, 'world': [name[x] for x in ('p', 'f')], 'ops': ops}


def randomly(rng, n):
    k = rng.choice([1, 2, 3, 4])
    urls, apart = url_set(rng, k)
    world = [good(rng) if rng.random() < .6 else bad(rng) for _ in urls]
    if not apart:
        world = ['http_404' if w == 'nores' else w for w in world]
    ops = prime(rng)
    learned = []
    for _ in range(n):
        x = rng.random()
        url = rng.choice(urls + [None, '.', ')'])
        if x < .12:
            ops.append({'op': 'analyze', 'parts': say(rng, words(rng), url, urls)})
        elif x < .35:
            m = {'op': 'learn', 'k': rng.choice(KINDS), 'lazy': rng.randrange(2), 'alias': rng.randrange(2)}
            if rng.random() < .8:
                m['parts'] = say(rng, words(rng, rng.random() < .2), url, urls)
            else:
                m['words'] = words(rng)
            ops.append(m)
            learned.append(m)
        elif x < .5 and learned:
            m = learned.pop(rng.randrange(len(learned)))
            ops.append(dict(m, op='unlearn', lazy=rng.randrange(2), alias=rng.randrange(2)))
        elif x < .82:
            m = {'op': 'score', 'lazy': rng.randrange(2), 'ev': rng.choice([1, 1, 0])}
            ws = words(rng, rng.random() < .25)
            if rng.random() < .8:
                m['parts'] = say(rng, ws, url, urls)
            else:
                m['words'] = ws
            ops.append(m)
        elif x < .94:
            out = good(rng) if rng.random() < .5 else bad(rng)
            if not apart and out == 'nores':
                out = 'plain'
            ops.append({'op': 'world', 'url': rng.randrange(len(urls)) + 1, 'out': out})
        else:
            ops.append({'op': 'restart', 'days': rng.choice([0, 3, 5, 9])})
            if rng.random() < .5:
                ops[-1]['carry'] = 1
            else:
                learned = []
                ops += prime(rng)
    return {'urls': urls, 'world': world, 'ops': ops}


def base_url(url):
    """Used only to choose histories; the verdict is the specification's."""
    d = url.split('/')[0]
    ls = d.split('.')
    n = 3 if len(ls[-1]) < 3 else 2
    return d if len(ls) <= 2 else '.'.join(ls[-n:])


def optioned(rng, s):
    """A history with some options switched on."""
    o = {}
    if rng.random() < .4:
        o['prefix'] = rng.choice(['web:', 'web:', 'w', 'url:'])
    if rng.random() < .3:
        o['limit'] = 2
    if rng.random() < .3:
        o['dir'] = rng.choice(['cache/of/pages', '.pages', 'p q'])
    if rng.random() < .3:
        o['proxy'] = 1
    if rng.random() < .25:
        o['bigrams'] = 1
        s['ops'] = [x for x in s['ops'] if x['op'] != 'score']
    if rng.random() < .5:
        o['base'] = 1
        s = basic(rng, s)
    s['opts'] = o
    return s


BASE_HOSTS = ['alpha.example', 'www.alpha.example', 'a.b.alpha.example', 'www.shop.co.uk', 'shop.co.uk', 'x.y.shop.co.uk', 'co.uk', 'news.shop.co.uk:8080',
              'beta.example:8080', 'w.beta.example:8080', 'local', 'www.gamma.org', 'www.gamma.com.au', 'id.alpha.example', 'x.alpha.example.ab', 'alpha.info']


def basic(rng, s):
    """The history with urls for their basic forms."""
    n = len(s['urls'])
    new = [h + rng.choice(PATHS) for h in rng.sample(BASE_HOSTS, n)]
    text = [json.dumps(s['ops'])]
    for a, b in sorted(zip(s['urls'], new), key=lambda x: -len(x[0])):
        # via a mark, so that a new url is not replaced again
        text[0] = text[0].replace('://' + a, '://<<%d>>' % new.index(b))
    for j, b in enumerate(new):
        text[0] = text[0].replace('<<%d>>' % j, b)
    ops = json.loads(text[0])
    urls = new + sorted({base_url(b) for b in new} - set(new))
    world = s['world'] + [rng.choice([good(rng), bad(rng)]) for _ in urls[n:]]
    world = ['http_404' if w == 'nores' else w for w in world]
    for op in ops:
        if op['op'] == 'world':
            op['url'] = rng.randint(1, len(urls))
            if op['out'] == 'nores':
                op['out'] = 'plain'
    return {'urls': urls, 'world': world, 'ops': ops}


def crowd(rng):
    """More pages than the cache keeps in memory, all of them visited twice."""
    urls = ['host%d.example/page' % j for j in range(26)]
    world = ['page:%d' % (j % NPAGES + 1) if j % 5 else bad(rng) for j in range(26)]
    ops = []
    order = list(range(26))
    for r in range(2):
        if r:
            ops.append({'op': 'restart', 'days': rng.choice([0, 3])} if rng.random() < .5 else {'op': 'world', 'url': 3, 'out': 'drop'})
            rng.shuffle(order)
        for j in order:
            ops.append({'op': 'learn', 'k': rng.choice(KINDS), 'parts': say(rng, NEUT[:2], urls[j])})
    return {'urls': urls, 'world': world, 'ops': ops}


def big(rng):
    """Messages with as many clues as can be used."""
    s, h = many('spam', 80), many('hamm', 80)
    ops = [{'op': 'learn', 'k': 'spam', 'words': s}, {'op': 'learn', 'k': 'ham', 'words': h}]
    urls = ['alpha.example/x']
    for n in rng.sample([60, 73, 74, 75, 76, 80], 3):
        ops.append({'op': 'score', 'parts': say(rng, s[:n] + h[:n], urls[0]), 'lazy': 1})
    ops.append({'op': 'learn', 'k': 'spam', 'parts': say(rng, [], urls[0])})
    return {'urls': urls, 'world': ['page:%d' % rng.randrange(1, NPAGES + 1)], 'ops': ops}


def judge(ctx, scripts, results):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        t = {k: v for k, v in r.items() if k not in ('names', 'id')}
        t['id'] = s['id']
        traces.append(t)
    byid = {t['id']: t for t in traces}
    scr = {s['id']: (s, r) for s, r in zip(scripts, results)}
    for x in ctx.validate('TSlurp', TCFG, traces):
        s, r = scr[x['reject']]
        e = dict(byid[x['reject']]['steps'][x['step'] - 1])
        back = dict(enumerate(r['names'], 1))
        if 'recs' in e:
            e['recs'] = [[back[a], b, c] for a, b, c in e['recs']]
        if 'tokens' in e:
            e['tokens'] = [back[a] for a in e['tokens']]
        want = x['want']
        want['link'] = [''.join(map(chr, u)) for u in want['link']]
        ctx.violation(x['why'], {'expected': want, 'observed': e, 'step': x['step'], 'script': s})
    for s in scripts[:1] + scripts[-1:]:
        ctx.sample({'urls': s['urls'], 'world': s['world'], 'ops': s['ops'][4:10]})


def run(ctx):
    rng = ctx.rng
    trans = ctx.model_check('MCSlurp', 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT FetchedOnce\nPROPERTIES FailuresStay PagesStay SureNeedsNothing\n'
                            'ACTION_CONSTRAINT Emit\nCONSTANTS MaxOps = %d\nLimit = 7\n' % ctx.pick(5, 6), timeout=1500)
    paths = vlib.tours(trans, rng, max_len=ctx.pick(5, 6))
    ctx.log('%d transitions of the model in %d histories' % (len(trans), len(paths)))
    if len(paths) > ctx.pick(1500, 15000):
        paths = rng.sample(paths, ctx.pick(1500, 15000))
    scripts = [concretize(rng, p) for p in paths]
    scripts += [randomly(rng, rng.choice([3, 8, 15, 25])) for _ in range(ctx.pick(1500, 8000))]
    scripts += [crowd(rng) for _ in range(ctx.pick(4, 30))]
    scripts += [big(rng) for _ in range(ctx.pick(8, 50))]
    scripts += [optioned(rng, randomly(rng, rng.choice([5, 10, 20]))) for _ in range(ctx.pick(500, 4000))]
    rng.shuffle(scripts)
    for i, s in enumerate(scripts):
        s['id'] = i
    ctx.log('%d histories' % len(scripts))
    results = ctx.drive('drv_slurp', scripts, timeout=ctx.pick(400, 3000))
    ctx.log('driven')
    judge(ctx, scripts, results)
    return ctx.finish('model_checking', histories=len(scripts))


def replay(ctx, saved):
    s = saved['detail']['script']
    judge(ctx, [s], ctx.drive('drv_slurp', [s]))
    return 1 if ctx.violations else 0
