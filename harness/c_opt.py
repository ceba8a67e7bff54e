"""C28: the kinds of tokens that are off by default."""
import copy

import c_head
from c_head import codes, meant, piece

FLAGS = ['count', 'absence', 'received', 'prefixes', 'suffixes', 'habeas', 'reduce', 'news', 'blot', 'pick', 'noskip', 'short', 'images', 'octets', 'lookup']
TCFG = c_head.TCFG
INVS = 'INVARIANTS Picked Hops Together InRow\n'

HOSTS = ['mail.example.com', 'Relay-1.EXAMPLE.org', 'localhost', 'a', 'ab', 'x_y.z', 'host.1', 'a..b', '10.0.0.1', '-x-.com', 'foo.bar.']
QUADS = ['1.2.3.4', '127.0.0.1', '192.168.100.200', '010.001.0.255', '999.999.999.999']
COMPLAINTS = ['(may be forged)', '(May  Be\n Forged)', '(one)', '(helo two)', '(two words here )', '( two words)', '(v1 two)', '(two w0rds)', '(no quoted)']


def received(rng):
    """A Received line of likely and unlikely pieces."""
    out = ''
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        x = rng.random()
        host, quad = rng.choice(HOSTS), rng.choice(QUADS)
        if x < .3:
            out += '%s %s%s' % (rng.choice(['from', 'From', 'from', 'xfrom', 'from:', 'FROM']), host, rng.choice([' ', ')', '\n\t', ';', '', '(', ' ']))
        elif x < .6:
            out += rng.choice(['[%s]', '(%s)', '[%s)', '([%s])', ' %s ', '[ %s]', '[%s', '(HELO [%s])', '{%s}', '(x [%s] y)']) % quad
        elif x < .8:
            out += rng.choice(COMPLAINTS)
        else:
            out += rng.choice([' by ', 'with SMTP', ' id abc;', 'Mon, 1 Jan 2001', ' ', '\n ', '(', ')', '[', '[]', '()', '[1.2.3]', '(1.2.3.4.5)', 'from ', '[::1]'])
        if rng.random() < .6:
            out += ' '
    return out.strip(' \t\n') or 'x'


URLGUTS = ['www.example.com', 'a', '1.2.3.4', '1.2.3.4:80', '1234', '12.34', '1.2.3.4.5', '1.2.3.4.', '1..2.3.4', ':81', ':80', ':443', ':', ':8a', '@', 'user:pw@', 'me%40', '/', '/path', '?x=y', '#f', '%41', '%2f', '%3a', '%zz', '%', '%4', '%25%34%31', '%e9', '%C3%A9', '%20', '%40',
           '.', '..', '!', '&a;b', 'x.y:81:82', '%2E', '%3F', '+', '$', ',', '=', '0', '%30', 'a@b@c', '%00', '~', '(', '%7e']
SHORT = ['a', 'b', 'xy', '!', '\xe9', 'I', '<b>', '&#65;', 'Z', '..']
LONG = ['long', 'word', 'abc', 'thirteenchars', 'x' * 20, '\xe9' * 14, 'caf\xe9', 'ctrl\x01\x02\x7f', '\x00\x01\x02', 'a@b.cdefghijklm', 'y' * 13 + '\xff', '\xe9\xe8\xe7', 'na\xefvet\xe9', 'skip:x', 'bell\x07' * 4]


def body(rng):
    out = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        x = rng.random()
        if x < .35:
            out += [rng.choice(SHORT) for _ in range(rng.choice([1, 2, 3, 4, 7, 8, 9, 17]))]
        elif x < .65:
            out.append(rng.choice(LONG))
        elif x < .95:
            out.append(rng.choice(['http://', 'http://', 'https://', 'ftp://', 'HTTP://']) + rng.choice(['', '', rng.choice(WEB)]) + ''.join(rng.choice(URLGUTS) for _ in range(rng.choice([1, 2, 3, 5]))))
        else:
            out.append(rng.choice(['<script>', 'width=0', '<!-- x -->', '<style>a</style>', '<p>', '&nbsp;']))
    out.append('final')
    t = ''
    for w in out:
        t += (rng.choice([' ', ' ', '\n', '  ', '\t']) if t else '') + w
    return t


PEOPLE = ['ann@example.com', 'anna@example.com', 'annabel@example.org', 'bob@example.com', 'Ann@EXAMPLE.com', 'x@y', 'ann@x.example.com', 'annabelle.longname@example.com']
HAIKU = ['winter into spring', 'brightly anticipated', 'like Habeas SWE (tm)', 'Copyright 2002 Habeas (tm)', 'Sender Warranted Email (SWE) (tm). The sender of this',
         'email in exchange for a license for this Habeas', 'warrant mark warrants that this is a Habeas Compliant', 'Message (HCM) and not spam. Please report use of this',
         'mark in spam to <http://www.habeas.com/report/>.']
NAMES = ['news.example.com', 'a.b.c.d.example', 'single', 'x.y', 'Mixed.Case.ORG', 'trailing.dot.']
WEB = ['www.example.com', 'a', '1.2.3.4', 'www.example.coma', '1234', 'awww.example.com', '..', 'x.y']


def dns(rng):
    names, hosts = {}, {}
    addrs = ['.'.join(str(rng.choice([0, 1, 9, 10, 127, 128, 255, rng.randrange(256)])) for _ in range(4)) for _ in range(4)]
    for n in NAMES:
        if rng.random() < .6:
            names[n] = sorted(set(rng.choice(addrs) for _ in range(rng.choice([1, 1, 2, 3]))))
    for n in WEB:
        if rng.random() < .7:
            some = addrs + ['%d.%d.%d.%d' % (1 + j % 3, j // 2, rng.randrange(256), j) for j in range(rng.choice([0, 0, 12]))]
            names[n] = rng.sample(some, rng.choice([1, 1, 2, 3, 4, len(some)]))
    for a in addrs:
        if rng.random() < .6:
            hosts[a] = rng.choice(NAMES)
    return names, hosts, addrs


def octets(a):
    return [int(x) for x in a.split('.')]


def message(rng):
    o = {f: int(rng.random() < .4) for f in FLAGS}
    if rng.random() < .2:
        o = {f: int(f == rng.choice(FLAGS)) for f in FLAGS}
    if o['pick'] and rng.random() < .4:
        o['lookup'] = 1
    names, hosts, addrs = dns(rng)
    extra = {'texts': [], 'images': [], 'octets': [], 'posting': []}

    def more(form):
        lines = []
        if rng.random() < .5:
            lines += [('Received', received(rng)) for _ in range(rng.choice([1, 1, 2, 4]))]
        if rng.random() < .3:
            whole = rng.random() < .6
            odd = rng.sample(range(1, 10), rng.choice([0, 1, 1, 2]))
            missing = rng.random() < .5
            for k, text in enumerate(HAIKU, 1):
                if not (missing and k in odd) if whole else rng.random() < .5:
                    good = k not in odd if whole else rng.random() < .6
                    lines.append((c_head.spelled(rng, 'X-Habeas-SWE-%d' % k), text if good else rng.choice([text + ' ', text.upper() + '!', 'x', text[:-1]]).rstrip('\n')))
        if rng.random() < .4:
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < .5:
                    a = rng.choice(addrs)
                    lines.append(('NNTP-Posting-Host', a))
                    extra['posting'].append({'addr': octets(a), 'name': []})
                else:
                    n = rng.choice(NAMES)
                    lines.append(('NNTP-Posting-Host', n))
                    extra['posting'].append({'addr': [], 'name': codes(n)})
        return lines

    def fill(says):
        t = ''.join(map(chr, says['type']))
        if t.startswith('text/'):
            b = body(rng) if rng.random() < .8 else ''
            if rng.random() < .3:
                b += rng.choice([' ', '\n']) + ' '.join(rng.choice(['a', 'bc', 'x!']) for _ in range(rng.choice([1, 2, 4, 9])))
            extra['texts'].append(codes(b))
            return b
        b = ''.join(rng.choice('ab\x00\xff\xe9 -x') for _ in range(rng.choice([0, 1, 4, 5, 6, 45, 46, 90, 91, 1000, rng.randrange(3000)])))
        if t.startswith('image/'):
            extra['images'].append(len(b))
        elif t == 'application/octet-stream':
            extra['octets'].append(codes(b))
        return b
    op = c_head.message(rng, more, fill)
    m = op['m']
    # recipients that are alike
    if rng.random() < .3 and not m['to']['lines']:
        names2 = [rng.choice(PEOPLE[:rng.choice([2, 3, 8])]) for _ in range(rng.choice([1, 2, 3, 4, 6, 12]))]
        raw = ', '.join(names2)
        m['to'] = {'lines': [codes(raw)], 'boxes': [{'name': [], 'addr': codes(a)} for a in names2]}
        m['heads'].insert(0, {'name': codes('To'), 'text': codes(raw), 'skip': 0})
        if op['form'] == 'object':
            op['lines'].insert(0, ('To', raw))
        else:
            op['raw'] = 'To: %s\n' % raw + op['raw']
    m.update(extra)
    m['forward'] = [{'name': codes(n), 'addrs': [octets(a) for a in x]} for n, x in names.items()]
    m['reverse'] = [{'addr': octets(a), 'name': codes(n)} for a, n in hosts.items()]
    op.update(o=o, names=names, hosts=hosts)
    return op


def of_model(x):
    """A message for a text of the model."""
    s = [''.join(map(chr, c)) for c in x['s']]
    m = c_head.blank()
    m.update(texts=[], images=[], octets=[], posting=[], forward=[], reverse=[],
             parts=[{'type': codes('text/plain'), 'kind': [], 'charset': [], 'disposition': [], 'filename': []}])
    o = {f: 0 for f in FLAGS}
    lines, payload, names = [], '', {}
    if x['kind'] == 'url':
        o['pick'] = 1
        payload = 'http://' + ''.join(s)
        if len(payload) % 2:
            o['lookup'] = 1
            names = {n: ['1.2.3.4', '1.2.9.4', '77.0.255.1', '1.2.9.5', '5.6.7.8', '0.0.0.0'][:1 + j % 6] for j, n in enumerate(('a', 'aa', 'A', '1.2', '1.24.', 'aA', '1.21.2', '81'))}
    elif x['kind'] == 'received':
        o['received'] = 1
        lines = [('Received', ''.join(s))]
    elif x['kind'] == 'rows':
        o['short'] = 1
        payload = ' '.join(s)
    else:
        o['prefixes'] = o['suffixes'] = 1
        raw = ', '.join(a or '<>' for a in s)
        lines = [('Cc', raw)]
        m['cc'] = {'lines': [codes(raw)], 'boxes': [{'name': [], 'addr': codes(a)} for a in s]}
    m['texts'] = [codes(payload)]
    m['forward'] = [{'name': codes(n), 'addrs': [octets(a) for a in x]} for n, x in names.items()]
    m['heads'] = [{'name': codes(k), 'text': codes(v), 'skip': c_head.skipped(k)} for k, v in lines]
    return {'form': 'object', 'basic': 0, 'lines': lines, 'payload': payload, 'm': m, 'o': o, 'names': names, 'hosts': {}}


def scripts(ctx):
    rng = ctx.rng
    ops = []
    for kind, n in (('url', ctx.pick(4, 5)), ('received', ctx.pick(4, 5)), ('people', ctx.pick(3, 5)), ('rows', ctx.pick(5, 7))):
        items = ctx.model_check('MCOpt', 'SPECIFICATION Spec\n' + INVS + 'ACTION_CONSTRAINT Emit\nCONSTANTS Kind = "%s"\nMaxLen = %d\n' % (kind, n), timeout=1500)
        if len(items) > ctx.pick(2500, 40000):
            items = rng.sample(items, ctx.pick(2500, 40000))
        ctx.log('%d %s texts of the model' % (len(items), kind))
        ops += [of_model(x) for x in items]
    for _ in range(ctx.pick(6000, 40000)):
        ops.append(message(rng))
    rng.shuffle(ops)
    return [{'prop': 'C28', 'ops': ops[j:j + 25]} for j in range(0, len(ops), 25)]


def run(ctx):
    return c_head.run(ctx, scripts, 'TOpt')


def replay(ctx, saved):
    s = saved['detail']['script']
    c_head.judge(ctx, [s], ctx.drive('drv_head', [copy.deepcopy(s)]), 'TOpt')
    return 1 if ctx.violations else 0
