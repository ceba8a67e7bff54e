"""C04, C05: scores, evidence and the choice of clues."""
import json

import c_store
import vlib
from c_store import decorate, number, tokens, traces_of, universe, ship

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'


def judge(ctx, scripts, results):
    for s in scripts:
        s.setdefault('cz', 0)
    traces = traces_of(ctx, scripts, results)
    byid = {s['id']: (s, r) for s, r in zip(scripts, results)}
    weight = sum(1 + len(x['ms']) // 10 for t in traces for x in t['steps'] if x['op'] == 'score')
    for x in ctx.validate('TScore', TCFG, traces, shards=max(1, min(vlib.CORES, weight // 60 + 1))):
        s, r = byid[x['reject']]
        n = x['step']
        ctx.violation(x['why'], {'script': s, 'step': n, 'observed': r['steps'][n - 1],
                                 'before': r['steps'][max(0, n - 3):n - 1], 'totals': x['expected']})
    for s in scripts[-1:]:
        ctx.sample({'tokens': s['tokens'][:4], 'ops': s['ops'][:6]})


def many_tokens(rng, n):
    """n distinct tokens, text or bytes."""
    base = tokens(rng, min(n, 24))
    i = 0
    while len(base) < n:
        x = 'tok%d' % i
        base.append(ship(x if base[0][0] == 's' else x.encode()))
        i += 1
    return base


def set_script(rng, ns, nh, classes, msgs, toks=None):
    """A training state given directly, then scorings of messages (token numbers)."""
    n = len(classes)
    ops = [{'op': 'set', 'ns': ns, 'nh': nh, 'see': 0,
            'recs': [[i + 1, c[0], c[1]] for i, c in enumerate(classes) if c is not None]}]
    for ms in msgs:
        ops.append(decorate({'op': 'score', 'ms': ms, 'see': 0}, rng))
    return {'backend': 'mem', 'bigrams': False, 'cz': 0, 'tokens': toks or many_tokens(rng, n),
            'universe': list(range(1, n + 1)), 'ops': ops}


def train_script(rng, ns, nh, classes, msgs, extra=0):
    """The same by training: token i is in classes[i][0] of the spam messages."""
    n = len(classes)
    bodies = [[] for _ in range(ns + nh)]
    for i, c in enumerate(classes):
        if c is None:
            continue
        for j in rng.sample(range(ns), c[0]) + rng.sample(range(ns, ns + nh), c[1]):
            bodies[j].append(i + 1)
    ops = [{'op': 'learn', 'ms': b, 'k': 'spam' if j < ns else 'ham', 'see': 0} for j, b in enumerate(bodies)]
    for _ in range(extra):
        ms = rng.sample(range(1, n + 1), min(n, 4))
        k = rng.choice(['spam', 'ham'])
        a = rng.randrange(len(ops) + 1)
        ops.insert(a, {'op': 'learn', 'ms': ms, 'k': k, 'see': 0})
        # A scoring in between fills the caches.
        b = rng.randrange(a + 1, len(ops) + 1)
        ops.insert(b, {'op': 'unlearn', 'ms': ms, 'k': k, 'see': 0})
    for _ in range(rng.choice([0, 1, 3])):
        ops.insert(rng.randrange(len(ops) + 1), {'op': 'score', 'ms': rng.choice(msgs), 'see': 0})
    rest = [{'op': 'score', 'ms': ms, 'see': 0} for ms in msgs]
    ops = [decorate(o, rng) for o in ops + rest]
    return {'backend': 'mem', 'bigrams': False, 'cz': 0, 'tokens': many_tokens(rng, n),
            'universe': list(range(1, n + 1)), 'ops': ops}


def random_class(rng, ns, nh, style):
    while True:
        if style == 'strong':
            c = (rng.randint(0, ns), 0) if rng.random() < .5 else (0, rng.randint(0, nh))
        elif style == 'weak':
            f = rng.random()
            c = (min(ns, int(f * ns + rng.choice([0, 1]))), min(nh, int(f * nh + rng.choice([0, 1]))))
        elif style == 'once':
            c = rng.choice([(1, 0), (0, 1), (1, 1)])
            c = (min(ns, c[0]), min(nh, c[1]))
        else:
            c = (rng.randint(0, ns), rng.randint(0, nh))
        if c != (0, 0):
            return c
        if ns + nh == 0:
            return None


def random_state(rng, big):
    top = rng.choice([1, 2, 5, 12, 40] + ([300, 3000, 100000, 1000000] if big else []))
    ns, nh = rng.randint(0, top), rng.randint(0, top)
    if rng.random() < 0.1:
        ns = 0
    if rng.random() < 0.1:
        nh = 0
    return ns, nh


def small_scorings(ctx):
    cfg = ('SPECIFICATION Spec\nINVARIANTS InRange Symmetric Monotone Sides Indicators\nACTION_CONSTRAINT Emit\n'
           'CONSTANTS MaxN = %d MaxTok = %d\n' % ctx.pick((3, 2), (5, 2)))
    items = ctx.model_check('MCScore', cfg, workers=1, timeout=3000)
    by = {}
    for x in items:
        by.setdefault((x['ns'], x['nh']), []).append([tuple(c) for c in x['cs']])
    out = []
    for (ns, nh), msgs in sorted(by.items()):
        classes = sorted({c for m in msgs for c in m})
        # two tokens of every class, so that a class can occur twice in a message
        num = {c: i + 1 for i, c in enumerate(classes)}
        k = len(classes)
        allc = classes * 2
        ms = []
        for m in msgs:
            seen = {}
            w = []
            for c in m:
                w.append(num[c] + k * seen.get(c, 0))
                seen[c] = seen.get(c, 0) + 1
            ms.append(w)
        for part in range(0, len(ms), 60):
            mk = set_script if part % 120 == 0 and ns + nh > 4 else train_script
            out.append(mk(ctx.rng, ns, nh, allc, ms[part:part + 60]))
    return out


def run_c04(ctx):
    rng = ctx.rng
    scripts = small_scorings(ctx)
    ctx.log('%d small scripts' % len(scripts))
    # messages with few tokens, all kinds of states
    for j in range(ctx.pick(60, 900)):
        big = j % 2 == 0
        ns, nh = random_state(rng, big)
        if ns + nh == 0:
            ns = 1
        n = rng.choice([4, 10, 24])
        classes = [random_class(rng, ns, nh, rng.choice(['strong', 'weak', 'once', 'any'])) for _ in range(n)]
        classes = [c if rng.random() < 0.85 else None for c in classes]
        msgs = [rng.sample(range(1, n + 1), rng.randint(0, n)) for _ in range(rng.choice([2, 5]))]
        if ns + nh <= 40:
            scripts.append(train_script(rng, ns, nh, classes, msgs, extra=rng.choice([0, 0, 3])))
        else:
            scripts.append(set_script(rng, ns, nh, classes, msgs))
    # messages around and beyond 150 strong clues
    for j in range(ctx.pick(24, 200)):
        ns, nh = rng.choice([(12, 12), (40, 40), (3000, 2000), (5, 9), (100000, 1000)])
        n = rng.choice([149, 150, 151, 152, 160, 200, 300, 400])
        if j % 4 == 3:
            # few classes: many ties at the limit
            pool = [random_class(rng, ns, nh, 'strong') for _ in range(3)]
            classes = [rng.choice(pool) for _ in range(n)]
        elif j % 4 == 2:
            # all clues on one side: the products underflow
            classes = [(rng.randint(max(1, ns // 2), ns), 0) if j % 8 == 2 else (0, rng.randint(max(1, nh // 2), nh))
                       for _ in range(n)]
        elif j % 4 == 1:
            # exactly this many strong ones and many weak ones
            classes = [random_class(rng, ns, nh, 'strong') for _ in range(n)]
            classes += [random_class(rng, ns, nh, 'weak') for _ in range(100)]
        else:
            classes = [random_class(rng, ns, nh, rng.choice(['strong', 'strong', 'any'])) for _ in range(n)]
        n = len(classes)
        # Keep the number of classes small: exact arithmetic per class.
        uniq = sorted(set(classes))
        keep = rng.sample(uniq, min(len(uniq), 25))
        classes = [c if c in keep else rng.choice(keep) for c in classes]
        msgs = [list(range(1, n + 1)), rng.sample(range(1, n + 1), min(n, 150))]
        scripts.append(set_script(rng, ns, nh, classes, msgs, toks=many_tokens(rng, n)))
    return scripts


def bigram_script(rng, nwords, nops, heavy=False):
    toks = tokens(rng, nwords, True) if nwords <= 10 else [ship('w%d' % i) for i in range(nwords)]
    g = c_store.Gen(rng, 'mem', nwords, bigrams=True, toks=toks, maxlen=rng.choice([5, 9]),
                    weights={'learn': 6, 'unlearn': 2, 'score': 4, 'fresh': 1, 'copy': 0.2, 'fail': 0.3})
    s = g.make(nops, rng.choice([1.0, 0.3]))
    for o in s['ops']:
        o.pop('plain', None)
    return s


def ladder_script(rng):
    """Chains of overlapping candidates of known strengths."""
    n = rng.choice([5, 6, 8])
    ns = nh = rng.choice([6, 20])
    recs = []
    ms = list(range(1, n + 1))
    rng.shuffle(ms)
    if rng.random() < 0.5:
        ms += [rng.choice(ms) for _ in range(rng.choice([1, 3]))]
    cand = set(ms) | {1000 * a + b for a, b in zip(ms, ms[1:])}
    for w in sorted(cand):
        if rng.random() < 0.85:
            k = rng.randint(1, ns)
            recs.append([w] + rng.choice([[k, 0], [0, k], [k, rng.randint(0, 2)], [ns, 0]]))
    return {'backend': 'mem', 'bigrams': True, 'cz': 0, 'tokens': tokens(rng, n, True),
            'universe': universe(n, True),
            'ops': [{'op': 'set', 'ns': ns, 'nh': nh, 'recs': recs, 'see': 0},
                    decorate({'op': 'score', 'ms': ms, 'see': 0}, rng, True),
                    decorate({'op': 'score', 'ms': ms[::-1], 'see': 0}, rng, True),
                    decorate({'op': 'score', 'ms': ms[1:] + ms[:1], 'see': 0}, rng, True)]}


def long_bigram_script(rng):
    """More than 150 candidates that do not overlap."""
    n = rng.choice([160, 200, 320])
    toks = [ship('w%d' % i) for i in range(n)]
    ns = nh = 30
    ms = list(range(1, n + 1))
    recs = []
    for a, b in zip(ms, ms[1:]):
        if rng.random() < 0.3:
            recs.append([1000 * a + b, rng.randint(1, 12), 0])
    for a in ms:
        if rng.random() < 0.9:
            recs.append([a] + rng.choice([[rng.randint(1, 12), 0], [0, rng.randint(1, 12)]]))
    return {'backend': 'mem', 'bigrams': True, 'cz': 0, 'tokens': toks, 'noextra': 1,
            'universe': ms + [1000 * a + b for a, b in zip(ms, ms[1:])],
            'ops': [{'op': 'set', 'ns': ns, 'nh': nh, 'recs': recs, 'see': 0},
                    decorate({'op': 'score', 'ms': ms, 'see': 0}, rng, True)]}


def run_c05(ctx):
    rng = ctx.rng
    g = c_store.graph_bayes(ctx, 2, 1, True, False, 2)
    counted = c_store.replays(ctx, g, 'mem', 2, bigrams=True, probes=0.2)
    for s in counted:
        for o in s['ops']:
            o.pop('plain', None)
    for j in range(ctx.pick(80, 900)):
        counted.append(bigram_script(rng, rng.choice([2, 3, 4, 8]), ctx.pick(50, 80)))
    scored = [ladder_script(rng) for _ in range(ctx.pick(120, 2000))]
    scored += [long_bigram_script(rng) for _ in range(ctx.pick(4, 30))]
    return counted, scored


def run(ctx):
    if ctx.prop == 'C04':
        scripts = run_c04(ctx)
        counted = []
    else:
        counted, scored = run_c05(ctx)
        scripts = counted + scored
    number(scripts)
    for s in scripts:
        s['cz'] = s['id']
    ctx.log('%d scripts, %d operations' % (len(scripts), sum(len(s['ops']) for s in scripts)))
    results = ctx.drive('drv_store', scripts, timeout=ctx.pick(200, 3000))
    ctx.log('driven')
    if counted:
        n = len(counted)
        c_store.judge(ctx, counted, results[:n])
        ctx.log('counts judged')
    judge(ctx, scripts, results)
    ctx.assumptions.append('a probability exactly 0.1 away from 0.5 may or may not be a clue (rounding)')
    return ctx.finish('model_checking', scorings=sum(1 for s in scripts for o in s['ops'] if o['op'] == 'score'))


def replay(ctx, saved):
    s = saved['detail']['script']
    r = ctx.drive('drv_store', [s])
    print(json.dumps(r, indent=1)[:5000])
    if s['bigrams'] and s['ops'][0]['op'] != 'set':
        c_store.judge(ctx, [s], r)
    judge(ctx, [s], r)
    return 1 if ctx.violations else 0
