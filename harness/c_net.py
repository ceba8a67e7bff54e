"""C24 and C25: name lookups and address clues."""
import vlib

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
INVS = 'INVARIANTS Restored Limited Stacked SomethingComes\n'
DEFAULTS = [None, 0.0, 3.5, 10, 10.0, 1e-3, 12, 1e9, 0.1]


def nested(rng, n, depth):
    ops = []
    level = []
    while n or level:
        x = rng.random()
        if level and (x < .5 or not n or len(level) == depth):
            level.pop()
            ops.append({'op': 'end', 'outcome': rng.choice(['answer', 'noname', 'timeout', 'error', 'error']), 'which': rng.randrange(60)})
        elif not level and x < .2:
            ops.append({'op': 'set', 'v': rng.choice(DEFAULTS)})
        elif n:
            n -= 1
            k = rng.choice(['forward', 'reverse'])
            level.append(k)
            ops.append({'op': 'begin', 'kind': k})
    return ops


def c24(ctx):
    rng = ctx.rng
    # the race that the property excludes has to be found
    rc, text = ctx.tlc('MCDnsRace', 'SPECIFICATION Spec\nINVARIANT Restored\nCHECK_DEADLOCK FALSE\nCONSTANTS Threads = {1, 2}\nDefault = 0\nLimit = 10\n')
    if 'Invariant Restored is violated' not in text:
        raise vlib.MachineryError('overlapping lookups are expected to leak the limit in the model')
    trans = ctx.model_check('MCDns', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + INVS
                            + 'CONSTANTS Depth = %d\nTotal = %d\nDefaults = {1, 2, 10}\nLimit = 10\n' % ctx.pick((2, 4), (4, 6)), timeout=900)
    paths = vlib.tours(trans, rng, max_len=40)
    ctx.log('%d transitions of the model in %d histories' % (len(trans), len(paths)))
    values = {1: None, 2: 0.0, 10: 10}
    scripts = []
    for p in paths:
        ops = []
        level = 0
        vary = {k: rng.choice([v, rng.choice(DEFAULTS)]) if k != 10 else v for k, v in values.items()}
        for tr in p:
            a = tr['act']
            level += {'begin': 1, 'end': -1}.get(a['op'], 0)
            if a['op'] == 'set':
                ops.append({'op': 'set', 'v': vary[a['v']]})
            elif a['op'] == 'begin':
                ops.append({'op': 'begin', 'kind': a['kind']})
            else:
                ops.append({'op': 'end', 'outcome': a['outcome'], 'which': rng.randrange(60)})
        ops += [{'op': 'end', 'outcome': 'answer'}] * level
        scripts.append({'prop': 'C24', 'default': vary[p[0]['pre'][0]], 'ops': ops})
    for _ in range(ctx.pick(1500, 15000)):
        scripts.append({'prop': 'C24', 'default': rng.choice(DEFAULTS), 'ops': nested(rng, rng.choice([1, 2, 3, 6, 12]), rng.choice([1, 2, 3, 6]))})
    return scripts


def c25(ctx):
    rng = ctx.rng
    octets = ctx.pick([0, 1, 127, 170, 255], [0, 1, 85, 127, 128, 170, 254, 255])
    items = ctx.model_check('MCIp', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Encloses Octetwise Nested Ends ByOctets\nACTION_CONSTRAINT Emit\nCONSTANTS Octets = {%s}\n'
                            % ', '.join(map(str, octets)), workers=4, timeout=1500)
    ctx.log('%d addresses of the model' % len(items))
    ops = []
    addrs = [x['addr'] for x in items]
    addrs += [[rng.choice([rng.randrange(256), 0, 1, 10, 127, 128, 192, 224, 255]) for _ in range(4)] for _ in range(ctx.pick(1500, 20000))]
    for a in addrs:
        for form in ('text', 'object'):
            op = {'op': 'clues', 'form': form, 'addr': a, 'prefix': rng.choice(['url-ip', 'received', '', 'a:b', 'x y', 'sender-ip', '%s', '{}', '{0}', '\xe9']), 'default': 1, 'lengths': [], 'seq': 0}
            ops.append(op)
            x = rng.random()
            if x < .3:
                ops.append(dict(op, op='subnets'))
            elif x < .9:
                k = rng.choice([0, 1, 1, 2, 3, 5, 33])
                ops.append(dict(op, op='subnets', default=0, lengths=[rng.choice([rng.randrange(33), 0, 32, 8]) for _ in range(k)], seq=rng.randrange(3)))
    for n in range(33):
        a = rng.choice(addrs)
        ops.append({'op': 'subnets', 'form': 'text', 'addr': a, 'prefix': '', 'default': 0, 'lengths': [n], 'seq': 0})
        ops.append({'op': 'subnets', 'form': 'object', 'addr': [255] * 4, 'prefix': '', 'default': 0, 'lengths': [n, 32 - n], 'seq': 0})
    rng.shuffle(ops)
    return [{'prop': 'C25', 'ops': ops[j:j + 40]} for j in range(0, len(ops), 40)]


def judge(ctx, scripts, results):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        t = {k: v for k, v in r.items() if k in ('default', 'limit')}
        t.update(id=s['id'], steps=r['steps'])
        if t['steps']:
            traces.append(t)
    byid = {t['id']: t for t in traces}
    scr = {s['id']: s for s in scripts}
    for x in ctx.validate('TDns' if scripts[0]['prop'] == 'C24' else 'TIp', TCFG, traces):
        t = byid[x['reject']]
        ctx.violation(x['why'], {'expected': x['want'], 'observed': t['steps'][x['step'] - 1], 'step': x['step'], 'script': scr[x['reject']]})
    for s in scripts[:1] + scripts[-2:]:
        ctx.sample({'ops': s['ops'][:6], 'default': s.get('default')})


def run(ctx):
    scripts = {'C24': c24, 'C25': c25}[ctx.prop](ctx)
    for i, s in enumerate(scripts):
        s['id'] = i
    ctx.log('%d histories' % len(scripts))
    judge(ctx, scripts, ctx.drive('drv_net', scripts, timeout=ctx.pick(200, 1500)))
    return ctx.finish('model_checking', histories=len(scripts))


def replay(ctx, saved):
    s = saved['detail']['script']
    judge(ctx, [s], ctx.drive('drv_net', [s]))
    return 1 if ctx.violations else 0
