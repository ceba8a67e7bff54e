"""C10: constant databases."""
import itertools
import json

import vlib

TCFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
ODD = ['', 'a', 'b', 'é', '€', '\udc80', '\x00', '\x00\x00', 'saved state', 'x' * 255, 'y' * 256, 'z' * 257,
       '\U0001f600', 'a\nb', '\r\n', ' ', 'aa', 'ab', 'ba', '\ud800']
ODDB = [b'', b'a', b'\x00', b'\xff', b'\xff\xff', b'\x80', b'\xc3\xa9', b'x' * 255, b'x' * 256, b'x' * 3000, b'ab',
        b'\x00\x00\x00\x00\x00\x00\x00\x00', b'\x05\x00\x00\x00\x05\x00\x00\x00hello']


def h(b, s=5381):
    for c in b:
        s = ((s * 33) & 0xffffffff) ^ c
    return s


def ship(x):
    return ['b', x.decode('latin-1')] if isinstance(x, bytes) else ['s', x]


def raw(x):
    return x[1].encode('latin-1') if x[0] == 'b' else x[1].encode('utf-8', 'surrogatepass')


class Colliders:
    """Keys whose hashes have a given table and slot; groups with equal hashes."""

    def __init__(self, rng):
        self.rng = rng
        t = rng.randrange(256)
        # The slots agree modulo 840, so for all small tables.
        want = {(t, 5): None, (t, 6): None, ((t + 1) % 256, 5): None}
        self.t = t
        self.groups = {k: {} for k in want}
        while not all(self.ready(k) for k in want):
            p = bytes(rng.randrange(256) for _ in range(3))
            s1 = h(p)
            for c in range(256):
                s2 = ((s1 * 33) & 0xffffffff) ^ c
                s3 = (s2 * 33) & 0xffffffff
                for d in range(256):
                    x = s3 ^ d
                    k = (x & 255, (x >> 8) % 840)
                    if k in self.groups:
                        self.groups[k].setdefault(x, []).append(p + bytes([c, d]))

    def ready(self, k):
        g = self.groups[k]
        return sum(1 for v in g.values() if len(v) >= 4) >= 2

    def key(self, shape, n):
        t, s, full = shape
        g = sorted((v for v in self.groups[((self.t + t) % 256, 5 + s)].values() if len(v) >= 4), key=len)[-2:]
        return g[full][n]


def lookups(rng, keys, absent, n):
    ops = []
    for _ in range(n):
        k = rng.choice(keys) if keys and rng.random() < 0.6 else rng.choice(absent)
        ops.append({'op': 'get', 'key': k, 'how': rng.choice(['item', 'get', 'default'])})
        if rng.random() < .25:
            ops.append({'op': 'all', 'key': k, 'how': rng.choice(['start', 'get', 'item'])})
    ops += [{'op': 'items', 'how': rng.choice(['items', 'iteritems', 'iter'])},
            {'op': 'keys', 'how': rng.choice(['keys', 'iterkeys'])},
            {'op': 'values', 'how': rng.choice(['values', 'itervalues'])}, {'op': 'walk'}]
    if rng.random() < 0.3:
        ops.append({'op': 'reopen'})
    rng.shuffle(ops)
    return ops


def near(rng, k):
    """Keys that resemble k."""
    b = raw(k)
    out = [b + b'\x00', b + b[:1] + b'a', b[1:], b[:-1], b.swapcase(), b'\x00' + b]
    return [ship(x) for x in out if x != b]


def from_model(ctx, item, col):
    rng = ctx.rng
    shape = item['shape']
    used = {}
    conc = {}
    for k in sorted(range(1, len(shape) + 1)):
        sh = tuple(shape[k - 1])
        n = used.get(sh, 0)
        used[sh] = n + 1
        conc[k] = ship(col.key(sh, n))
    pairs = []
    for i, k in enumerate(item['pairs']):
        pairs.append([conc[k], ship(b'v%d' % i if rng.random() < .9 else b'')])
    keys = list(conc.values())
    ops = [{'op': 'get', 'key': k, 'how': rng.choice(['item', 'get', 'default'])} for k in keys]
    ops += [{'op': 'all', 'key': k, 'how': rng.choice(['start', 'get', 'item'])} for k in keys]
    return {'pairs': pairs, 'ops': ops + lookups(rng, keys, keys, 2), 'source': rng.choice(['list', 'gen', 'lists'])}


class Longer:
    """Keys with the same hash as another key that is their beginning or end, or only shorter."""

    def __init__(self, rng):
        self.found = []
        inv = pow(33, -1, 2 ** 32)
        ahead = {}
        for start in (b'', b'k', b'ab', b'saved state'):
            s0 = h(start)
            ahead.clear()
            for _ in range(90000):
                t = bytes(rng.randrange(256) for _ in range(4))
                ahead[h(t, s0)] = t
            # Run back from the hash of each wanted key.
            for goal, known in ((s0, start), (h(b'a'), b'a'), (h(b'zz'), b'zz')):
                for _ in range(200000):
                    t = bytes(rng.randrange(256) for _ in range(4))
                    x = goal
                    for c in reversed(t):
                        x = ((x ^ c) * inv) & 0xffffffff
                    if x in ahead:
                        self.found.append((known, start + ahead[x] + t))
                        break
        assert all(h(a) == h(b) for a, b in self.found)


def longer_script(ctx, col, longer):
    """Few keys, among them some whose hashes are equal though their lengths differ."""
    rng = ctx.rng
    pairs, keys = [], []
    for a, b in rng.sample(longer.found, min(rng.choice([1, 1, 2]), len(longer.found))):
        keys += [ship(a), ship(b)]
    rng.shuffle(keys)
    held = [k for k in keys if rng.random() < .7] or keys[:1]
    for k in held:
        pairs.append([k, ship(rng.choice([b'', b'v%d' % len(pairs)]))])
        if rng.random() < .3:
            pairs.append([ship('other%d' % len(pairs)), ship(b'w')])
    ops = [{'op': 'get', 'key': k, 'how': rng.choice(['item', 'get', 'default'])} for k in keys]
    ops += [{'op': 'all', 'key': k, 'how': rng.choice(['start', 'get', 'item'])} for k in keys]
    return {'pairs': pairs, 'ops': ops + lookups(rng, keys, keys, 2), 'source': rng.choice(['list', 'gen', 'lists'])}


def random_script(ctx, col):
    rng = ctx.rng
    n = 400 if len(col.groups) == 3 and rng.random() < 0.004 else rng.choice([0, 1, 2, 3, 5, 9, 20, 60])
    pool = [ship(x) for x in (ODD if rng.random() < .5 else ODDB)]
    style = rng.randrange(4)
    pairs = []
    allc = [ship(k) for g in col.groups.values() for v in g.values() for k in v]
    for i in range(n):
        if style == 0:
            k = rng.choice(pool)
        elif style == 1:
            k = rng.choice(allc)
        elif style == 2:
            k = ship('k%d' % rng.randrange(max(1, n)))
        else:
            k = rng.choice([rng.choice(pool), rng.choice(allc), ship(bytes(rng.randrange(256) for _ in range(rng.randrange(6))))])
        v = rng.choice([ship('v%d' % i), rng.choice(pool), ship(b''), ship(bytes(rng.randrange(256) for _ in range(rng.choice([3, 8, 200]))))])
        pairs.append([k, v])
    keys = [p[0] for p in pairs]
    absent = [ship(x) for x in ODD] + [ship('k%d' % i) for i in range(9)] + rng.sample(allc, min(9, len(allc)))
    for k in keys[:3]:
        absent += near(rng, k)
    return {'pairs': pairs, 'ops': lookups(rng, keys, absent, rng.choice([5, 25])), 'source': rng.choice(['list', 'gen', 'lists'])}


def judge(ctx, scripts, results):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        steps = [{k: v for k, v in e.items() if k != 'what'} for e in r['steps']]
        traces.append({'id': s['id'], 'pairs': [[list(raw(k)), list(raw(v))] for k, v in s['pairs']], 'steps': steps})
    byid = {s['id']: (s, r) for s, r in zip(scripts, results)}
    for x in ctx.validate('TCdb', TCFG, traces, shards=min(vlib.CORES, len(traces))):
        s, r = byid[x['reject']]
        e = dict(r['steps'][x['step'] - 1])
        if 'bytes' in e:
            e['bytes'] = bytes(e['bytes']).hex()
        ctx.violation(x['why'], {'script': s, 'step': x['step'], 'observed': e})
    for s in scripts[-2:]:
        ctx.sample({'pairs': s['pairs'][:4], 'ops': s['ops'][:4]})


def run(ctx):
    rng = ctx.rng
    items = ctx.model_check('MCCdb', 'SPECIFICATION Spec\nINVARIANT FindsFirst FindsAll\nACTION_CONSTRAINT Emit\nCONSTANTS '
                            'Keys = {1, 2, 3} MaxPairs = %d\n' % ctx.pick(3, 4))
    ctx.log('%d databases of the model' % len(items))
    col = Colliders(rng)
    ctx.log('colliding keys found')
    chosen = items if ctx.thorough() else rng.sample(items, min(len(items), 500))
    scripts = [from_model(ctx, x, col) for x in chosen]
    scripts += [random_script(ctx, col) for _ in range(ctx.pick(200, 2500))]
    # Sizes that need more than two bytes; a smaller copy of the key or value is another one.
    for _ in range(ctx.pick(2, 8)):
        n = rng.choice([65535, 65536, 65537, 70000])
        k = ship('k' * rng.choice([1, 300]))
        pairs = [[ship('before'), ship('1')], [k, ship(bytes(rng.randrange(256) for _ in range(50)) * (n // 50) + b'x' * (n % 50))], [ship('after'), ship('2')]]
        ops = [{'op': 'get', 'key': x, 'how': rng.choice(['item', 'get'])} for x, _ in pairs]
        scripts.append({'pairs': pairs, 'ops': ops + [{'op': 'items', 'how': 'items'}, {'op': 'all', 'key': k, 'how': 'start'}], 'source': 'list'})
    longer = Longer(rng)
    ctx.log('%d pairs of keys of different length with one hash' % len(longer.found))
    scripts += [longer_script(ctx, col, longer) for _ in range(ctx.pick(60, 600)) if longer.found]
    for i, s in enumerate(scripts):
        s['id'] = i
    results = ctx.drive('drv_cdb', scripts, timeout=ctx.pick(200, 2000))
    ctx.log('driven')
    judge(ctx, scripts, results)
    ctx.assumptions.append('files stay below 16 MB')
    return ctx.finish('model_checking', databases=len(scripts), of_model=len(items))


def replay(ctx, saved):
    s = saved['detail']['script']
    r = ctx.drive('drv_cdb', [s])
    judge(ctx, [s], r)
    return 1 if ctx.violations else 0
