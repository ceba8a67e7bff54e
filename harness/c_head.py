"""C27: the tokens of header lines.

Messages are made from parts whose meaning is known here (the pieces of a
subject, the mailboxes of an address line, the parameters of a part), so that
the specification need not take encoded words and addresses apart.
"""
import base64
import copy

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
INVS = 'INVARIANTS Covered Valid Normal Counts NearestOk\n'
HIGH = '\xe9\xfc\xc9\xb2\xb5\xb7\xd7\xa0'
WIDE = '\u20ac\u0142\u0141\u0391\u03b1\u4e2d\ufffd'
WORDS = ['hello', 'FREE', 'Free', 'a', 'of', '$100.00', '100%', 'V.I.A.G.R.A', 'x_y', 'twelve_chars', 'thirteen_char', 'z' * 19, 'Z' * 20, 'q' * 45, "don't", 'a@b.c', '-', '--', '!!!', '...', '$$$', '***',
         're:', '[list]', '(1)', '1,000', 'end.', '"x"', 'a/b', '?', '&#65;', '<b>', '#1', '\x7f', '~', 'a=b']
HWORDS = ['caf\xe9', '\xc9T\xc9', '\xfc\xfc\xfc', '\xe9' * 7, 'na\xa0na', '\xd7', '\xb7\xb7', 'x\xb2', '\xb5m', 'abcdefghij\xe9\xe9\xe9\xe9', '\xa0']
WWORDS = ['\u20ac', '5\u20ac', 'z\u0142oty', '\u0141\xf3dz'.replace('\xf3', 'o'), '\u4e2d\u4e2d', '\u0391\u03b1', '\u4e2d' * 6, '\u20ac\u20ac', '\ufffd']
BYTEFORMS = ('bytes', 'email')


def codes(t):
    return [ord(c) for c in t]


def piece(text, charset=''):
    return {'charset': codes(charset), 'text': codes(text)}


def meant(text, form):
    """What non-ASCII bytes of a message become."""
    return ''.join('\ufffd' if ord(c) > 127 else c for c in text) if form in BYTEFORMS else text


def phrase(rng, n, wide=0, sep=(' ', ' ', ' ', '  ', '', '\t')):
    pool = WORDS + (HWORDS * 3 if wide > 0 else []) + (WWORDS * 4 if wide > 1 else [])
    out = ''
    for j in range(n):
        out += (rng.choice(sep) if j else '') + rng.choice(pool)
    return out


def encoded(rng, text, charset):
    """One encoded word: raw and its bytes."""
    try:
        data = text.encode(charset)
    except LookupError:
        data = text.encode('latin-1')
    except UnicodeError:
        data = text.encode('latin-1')
    name = rng.choice([charset, charset, charset.upper(), charset.capitalize()])
    if rng.random() < .5:
        body = base64.b64encode(data).decode('ascii')
        return '=?%s?%s?%s?=' % (name, rng.choice('bB'), body), data
    body = ''
    for c in data:
        if chr(c).isalnum() and c < 128 and rng.random() < .95:
            body += chr(c)
        elif c == 32:
            body += rng.choice(['_', '=20'])
        else:
            body += '=%02X' % c
    return '=?%s?%s?%s?=' % (name, rng.choice('qQ'), body), data


def fits(text, charset):
    try:
        text.encode(charset)
        return True
    except LookupError:
        return all(ord(c) < 256 for c in text)
    except UnicodeError:
        # undecodable in its charset: Latin-1 is what is left
        if not all(ord(c) < 256 for c in text):
            return False
        data = text.encode('latin-1')
        try:
            data.decode(charset)
            return False
        except UnicodeError:
            return True


def display(rng, wide_ok=True, words=None, fold=True):
    """Encoded and plain text mixed: raw (ASCII) and its pieces."""
    words = words or (lambda w: phrase(rng, rng.choice([1, 1, 2, 3]), w))
    raw = ''
    pieces = []          # [charset, bytes or str]
    last = None
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        if last != 'plain' and rng.random() < .35:
            text = words(0).strip()
            if not text or '=?' in text or '?=' in text:
                continue
            if last == 'encoded':
                raw += ' '
                pieces.append(['', ' ' + text])
            else:
                pieces.append(['', text])
            raw += text
            last = 'plain'
        else:
            charset = rng.choice(['utf-8', 'utf-8', 'iso-8859-1', 'us-ascii', 'x-unknown', 'utf-16-le'])
            text = words(2 if charset.startswith('utf') else 1)
            if not text or not fits(text, charset):
                continue
            if last:
                raw += ' ' if last == 'plain' or not fold else rng.choice([' ', ' ', '\n ', '\n\t'])
                if last == 'plain':
                    pieces[-1][1] += ' '
            word, data = encoded(rng, text, charset)
            raw += word
            if pieces and pieces[-1][0] == charset:
                pieces[-1][1] += data
            else:
                pieces.append([charset, data])
            last = 'encoded'
    if not raw:
        return 'x', [piece('x')]
    out = []
    for charset, data in pieces:
        if isinstance(data, bytes):
            try:
                data = data.decode(charset)
            except (LookupError, UnicodeError):
                data = data.decode('latin-1')
        out.append(piece(data, charset))
    return raw, out


def tame(pieces):
    """Only characters the specification knows."""
    known = set(HIGH + WIDE + '\U0001f600')
    return all(c < 128 or chr(c) in known for p in pieces for c in p['text'])


INVALID = ['=?utf-8?b?A?=', '=?utf-8?b?QUJDR?=', 'Re: =?iso-8859-1?B?A?= x', '=?utf-8?b?YWJj?= =?utf-8?b?Q?=']


def subject(rng, form):
    x = rng.random()
    if x < .5:
        return display(rng)
    if x < .57:
        raw = rng.choice(INVALID)
        return raw, [piece(raw, 'invalid')]
    wide = 1 if form in BYTEFORMS else 2
    text = phrase(rng, rng.choice([1, 2, 4, 9]), rng.choice([0, wide])).strip(' \t')
    if form == 'object' and rng.random() < .5:
        text = rng.choice(['', ' ', '\r', '\t']) + text + rng.choice(['', ' ', '\r\r'])
    elif rng.random() < .15:
        text += rng.choice([' ', '\n more', '\n  \tMORE'])
    return text, [piece(meant(text, form))]


ADDRS = ['a@b.c', 'User.Name@Example.COM', 'local', 'UPPER@X', '"a b"@c.d', '"A@b"@c.d', '"@"@x', 'x+y=z@sub.domain.example', 'postmaster@[1.2.3.4]'.replace('[', '').replace(']', ''), 'a-b@c-d', '%@&']
NAMES = ['Ann', 'Ann Bee', 'J. R. Smith', 'ALL CAPS', "O'Neil", 'a-b', 'FREE $$$ Offer!', 'x' * 50]


def box(rng, form):
    """A mailbox: raw, pieces of its name, address."""
    addr = rng.choice(ADDRS)
    x = rng.random()
    if x < .2:
        return addr, [], addr
    if x < .3:
        return '<%s>' % addr, [], addr
    if x < .5:
        name = rng.choice(NAMES)
        shown = name.replace(' ', rng.choice([' ', '  ']))
        return '%s <%s>' % (shown, addr), [piece(name)], addr
    if x < .65:
        name = rng.choice(['Bee, Ann', 'ann@example.com', 'A  B', 'a <b>', 'q\\"q', 'semi;colon', '(paren)', 'Tab', '"'.replace('"', '\\"')])
        return '"%s" <%s>' % (name, addr), [piece(name.replace('\\"', '"'))], addr
    if x < .7:
        return '%s (Ann Comment)' % addr, [piece('Ann Comment')], addr
    if x < .73:
        return 'Nobody <>', [piece('Nobody')], ''
    if x < .75:
        return '<>', [], ''
    if x < .8:
        name = rng.choice(['J\xf6rg'.replace('\xf6', '\xfc'), '\xc9T\xc9', '\xe9'] + (['\u0141o', '\u4e2d \u0391b'] if form not in BYTEFORMS else []))
        return '"%s" <%s>' % (name, addr), [piece(meant(name, form))], addr
    if x < .83:
        return '=?utf-8?b?A?= <%s>' % addr, [piece('=?utf-8?b?A?=', 'invalid')], addr

    def words(w):
        pool = ['ann', 'Bee', 'SMITH', 'x_y', 'two words'] + (['J\xfcrg', '\xc9T\xc9', 'a\xa0b', '\xb5\xb2', '"', ',', '@', ', x'] if w else []) + (['\u0141o', '\u4e2d\u4e2d', '\u0391', '5\u20ac'] if w > 1 else [])
        return rng.choice(pool)
    raw, pieces = display(rng, words=words, fold=False)
    if rng.random() < .2:
        return '"%s" <%s>' % (raw, addr), pieces, addr
    return '%s <%s>' % (raw, addr), pieces, addr


def address(rng, form, alone):
    """An address header line: raw and its mailboxes."""
    if alone and rng.random() < .05:
        return rng.choice(['', 'undisclosed-recipients:;']), [([], '')]
    n = rng.choice([1, 1, 1, 2, 3, 5, 6, 11, 12, 22, 23, 45, 46, 90])
    simple = n > 5
    raw, boxes = '', []
    for j in range(n):
        if simple and rng.random() < .8:
            a = rng.choice(ADDRS[:2])
            r, name, a = a, [], a
        else:
            r, name, a = box(rng, form)
        raw += (rng.choice([', ', ',', ',\n ', ' , ']) if j else '') + r
        boxes.append((name, a))
    return raw, boxes


MSGIDS = ['<a@b>', '<a@b.c.d>', ' <a@b>', '<1.2.3@Host.EXAMPLE>  ', '<a@b@c>', '<a@b> junk', 'a@b', '<@b>', '<a@>', '<a@b', '<ab>', '', '<>', '<a b@c d>', '<a@b>>', '<<a@b>', '<a>@b>', 'x <a@b>', '\t<a@b>', '<a@ >', '<a\n @b>', '@<a@b>', '<a@@>', '<@@b>', '<caf\xe9@b\xe9>', '<x@>y>']
MAILERS = ['Mutt 1.5', 'The Bat! (v1.62)', 'MICROSOFT  Outlook\tExpress', '', 'none', ' lead', 'trail ', 'folded\n line', '\xc9x\xa0y', '=?utf-8?q?a?=', 'a  b   c', 'X']
EXTRA = ['Date', 'DATE', 'date', 'X-Foo', 'x-face', 'X-Face', 'Received', 'RECEIVED', 'Errors-To', 'In-Reply-To', 'User-Agent', 'Organization', 'organization', 'Importance', 'Return-Path', 'Mime-Version', 'X-Complaints-To', 'X-Abuse-Info', 'Abuse-Reports-To', 'List-Id', 'Lines', 'Bcc', 'Xdate', 'Comments', 'To-Do', 'X-Mailer-Version', 'Froms', 'Resent-To']


def spelled(rng, name):
    return rng.choice([name, name, name, name.upper(), name.lower(), name.capitalize(), name.swapcase()])


TYPES = ['text/plain', 'text/html', 'TEXT/Html', 'image/gif', 'application/x-zip', 'application/octet-stream', 'text/x-vcard', 'Application/PDF', 'audio/x-wav']
FILES = ['a.txt', 'a b.txt', 'report', 'dir/file.exe', 'c:\\dos\\x.y.z', 'A.B', 'a;b', 'a=b&c', '/abs', 'trailing/', 'a..b', 'x' * 60, "q'q", 'UP.EXE', 'a:b', '$1+2,3']


def param(rng, name, value, wide=False):
    """name=value in one of the ways to write it."""
    special = any(c in value for c in ' ()<>@,;:\\"/[]?=\'')
    if any(ord(c) > 127 for c in value) or rng.random() < .2 and '"' not in value:
        cs = rng.choice(['utf-8', 'UTF-8'])
        data = ''.join(chr(b) if chr(b).isalnum() and b < 128 else '%%%02X' % b for b in value.encode('utf-8'))
        if rng.random() < .3 and len(data) > 4 and '%' not in data:
            k = len(data) // 2
            return "%s*0*=%s''%s;\n %s*1*=%s" % (name, cs, data[:k], name, data[k:])
        return "%s*=%s'%s'%s" % (name, cs, rng.choice(['', 'en']), data)
    if not special and rng.random() < .6:
        return '%s=%s' % (name, value)
    return '%s="%s"' % (name, value.replace('\\', '\\\\').replace('"', '\\"'))


def part(rng, ctype=None, boundary=None):
    """Header lines of a part and what they say."""
    lines = []
    says = {'type': codes('text/plain'), 'kind': [], 'charset': [], 'disposition': [], 'filename': []}
    name = None
    if boundary or rng.random() < .8:
        t = ctype or rng.choice(TYPES)
        says['type'] = codes(t.lower())
        x = rng.random()
        v = t
        if not boundary and x < .1:
            v = rng.choice(['text', 'a/b/c', '', 'garbage here', 'plain', '/'])
            says['type'] = codes('text/plain')
            if v == '/':
                v, says['type'] = 'text', codes('text/plain')
        else:
            ps = []
            if boundary:
                ps.append('boundary="%s"' % boundary)
            if rng.random() < .45:
                c = rng.choice(['utf-8', 'us-ascii', 'ISO-8859-1', 'Windows-1252', 'x-Bogus'])
                ps.append(param(rng, 'charset', c))
                says['charset'] = [codes(c)]
            if rng.random() < .2:
                k = rng.choice(['text/html', 'Multipart/Alternative', 'x'])
                ps.append(param(rng, 'type', k))
                says['kind'] = [codes(k)]
            if rng.random() < .25:
                name = rng.choice(FILES + ['caf\xe9.txt', '\u20ac/x.y'])
                ps.append(param(rng, 'name', name))
            rng.shuffle(ps)
            for p in ps:
                v += rng.choice(['; ', ';\n ', ';']) + p
        lines.append((spelled(rng, 'Content-Type'), v))
    if rng.random() < .35:
        v = rng.choice(['inline', 'attachment', 'Attachment', 'INLINE'])
        if rng.random() < .6:
            f = rng.choice(FILES + ['caf\xe9.txt', '\u20ac/x.y'])
            v += '; ' + param(rng, 'filename', f)
            name = f
        lines.append((spelled(rng, 'Content-Disposition'), v))
        says['disposition'] = [codes(v)]
    if name is not None:
        says['filename'] = [codes(name)]
    return lines, says


FIELDS = [('From', 'from'), ('To', 'to'), ('Cc', 'cc'), ('Sender', 'sender'), ('Reply-To', 'replyto')]


def blank():
    m = {'subject': [], 'mailer': [], 'msgid': [], 'heads': [], 'parts': [], 'basic': 0}
    for _, f in FIELDS:
        m[f] = {'lines': [], 'boxes': []}
    return m


def skipped(name):
    n = name.lower()
    return int(n in ('received', 'date') or n.startswith('x-'))


def message(rng, more=None, fill=None):
    """more(form): further header lines. fill(says): the body of a part."""
    form = rng.choice(['bytes', 'bytes', 'email', 'string', 'emailstr', 'str', 'object', 'object'])
    m = blank()
    lines = []

    def add(name, raw):
        lines.append((spelled(rng, name), raw))
    busy = rng.choice([.2, .5, .9])
    if rng.random() < max(busy, .6):
        for _ in range(rng.choice([1, 1, 1, 2])):
            raw, ps = subject(rng, form)
            if not tame(ps) or form != 'object' and raw != raw.lstrip(' \t'):
                raw, ps = 'plain', [piece('plain')]
            if not m['subject']:
                m['subject'] = ps
            add('Subject', raw)
    for head, f in FIELDS:
        if rng.random() < busy:
            boxes = []
            k = rng.choice([1, 1, 1, 1, 2])
            for _ in range(k):
                raw, bs = address(rng, form, k == 1)
                boxes += bs
                m[f]['lines'].append(codes(meant(raw, form)))
                add(head, raw)
            m[f]['boxes'] = [{'name': n, 'addr': codes(a)} for n, a in boxes]
    if rng.random() < busy:
        for _ in range(rng.choice([1, 1, 1, 2])):
            # The first one counts.
            raw = rng.choice(MAILERS)
            m['mailer'].append(codes(meant(raw, form)))
            add('X-Mailer', raw)
    if rng.random() < max(busy, .5):
        for _ in range(rng.choice([1, 1, 1, 2])):
            raw = rng.choice(MSGIDS)
            if form != 'object':
                raw = raw.lstrip(' \t')
            m['msgid'].append(codes(meant(raw, form)))
            add('Message-Id', raw)
    for _ in range(rng.choice([0, 0, 1, 3, 8])):
        add(rng.choice(EXTRA), rng.choice(['x', 'some text', 'Mon, 1 Jan 2001', '\xe9t\xe9 x', 'a b c d']))
    m['basic'] = 0 if fill else rng.choice([0, 0, 0, 0, 1, 2])
    lines += more(form) if more else []
    fill = fill or (lambda says: '')
    lines = mixed(rng, lines)
    body = ''
    if form == 'object' or rng.random() < .6:
        ls, says = part(rng)
        m['parts'] = [says]
        lines += ls
        body = fill(says)
    else:
        b = '=-=%d' % rng.randrange(100)
        ls, says = part(rng, rng.choice(['multipart/mixed', 'Multipart/Related', 'multipart/alternative']), b)
        m['parts'] = [says]
        lines += ls
        for _ in range(rng.choice([1, 2, 3])):
            ls, says = part(rng)
            m['parts'].append(says)
            body += '--%s\n%s\n%s\n' % (b, ''.join('%s: %s\n' % l for l in ls), fill(says))
        body += '--%s--\n' % b
    seen = []
    for k, v in lines:
        seen.append({'name': codes(k), 'text': codes(meant(v, form)), 'skip': skipped(k)})
    m['heads'] = seen
    raw = ''.join('%s: %s\n' % l for l in lines) + '\n' + body
    op = {'form': form, 'basic': m['basic'], 'm': m}
    if form == 'object':
        op['lines'] = lines
        op['payload'] = body
    else:
        op['raw'] = raw
    return op


def mixed(rng, lines):
    """The lines in another order; those of one name stay in order."""
    queues = {}
    for l in lines:
        queues.setdefault(l[0].lower(), []).append(l)
    order = [l[0].lower() for l in lines]
    rng.shuffle(order)
    return [queues[k].pop(0) for k in order]


def of_model(x):
    """A message for a text of the model."""
    m = blank()
    m['parts'] = [{'type': codes('text/plain'), 'kind': [], 'charset': [], 'disposition': [], 'filename': []}]
    s = x['s']
    if x['kind'] == 'names':
        lines = [(''.join(map(chr, n)), 'a@b') for n in s]
        k = len([n for n in s if bytes(n).lower() == b'to'])
        if k:
            m['to'] = {'lines': [codes('a@b')] * k, 'boxes': [{'name': [], 'addr': codes('a@b')}] * k}
    elif x['kind'] == 'people':
        raw = ', '.join('N <a@b>' if c else 'a@b' for c in s)
        lines = [('Cc', raw)]
        m['cc'] = {'lines': [codes(raw)], 'boxes': [{'name': [piece('N')] if c else [], 'addr': codes('a@b')} for c in s]}
    else:
        text = ''.join(map(chr, s))
        name, f = {'subject': ('Subject', 'subject'), 'msgid': ('Message-Id', 'msgid'), 'mailer': ('X-Mailer', 'mailer')}[x['kind']]
        lines = [(name, text)]
        m[f] = [piece(text)] if f == 'subject' else [s]
    m['heads'] = [{'name': codes(k), 'text': codes(v), 'skip': skipped(k)} for k, v in lines]
    return {'form': 'object', 'basic': 0, 'lines': lines, 'm': m}


def scripts(ctx):
    rng = ctx.rng
    ops = []
    for kind, n in (('subject', ctx.pick(3, 4)), ('msgid', ctx.pick(6, 7)), ('mailer', ctx.pick(4, 5)), ('names', ctx.pick(4, 5)), ('people', ctx.pick(8, 12))):
        items = ctx.model_check('MCHead', 'SPECIFICATION Spec\n' + INVS + 'ACTION_CONSTRAINT Emit\nCONSTANTS Kind = "%s"\nMaxLen = %d\n' % (kind, n), timeout=1500)
        if len(items) > ctx.pick(3000, 40000):
            items = rng.sample(items, ctx.pick(3000, 40000))
        ctx.log('%d %s texts of the model' % (len(items), kind))
        ops += [of_model(x) for x in items if x['s']]
    for _ in range(ctx.pick(9000, 60000)):
        ops.append(message(rng))
    rng.shuffle(ops)
    return [{'prop': 'C27', 'ops': ops[j:j + 25]} for j in range(0, len(ops), 25)]


def show(c):
    return bytes(c).decode('utf-8', 'backslashreplace')


def judge(ctx, scripts, results, spec='THead'):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        traces.append({'id': s['id'], 'steps': [dict(e, m=op['m'], o=op.get('o', {})) for e, op in zip(r['steps'], s['ops'])]})
    byid = {s['id']: s for s in scripts}
    obs = {t['id']: t for t in traces}
    for x in ctx.validate(spec, TCFG, traces):
        op = byid[x['reject']]['ops'][x['step'] - 1]
        e = obs[x['reject']]['steps'][x['step'] - 1]
        ctx.violation(x['why'], {'missing': [[[show(w) for w in alt] for alt in d] for d in x['missing']],
                                 'extra': [show(w) for w in x['extra']], 'raised': e['raised'],
                                 'form': op['form'], 'raw': op.get('raw', op.get('lines')), 'basic': op['basic'], 'options': [k for k, v in op.get('o', {}).items() if v],
                                 'step': x['step'], 'script': byid[x['reject']]})
    for s in scripts[:3]:
        ctx.sample([{k: o.get(k) for k in ('form', 'raw', 'lines')} for o in s['ops'][:2]])


def run(ctx, make=None, spec='THead'):
    ss = (make or scripts)(ctx)
    for i, s in enumerate(ss):
        s['id'] = i
    lean = [{'id': s['id'], 'ops': [{k: v for k, v in o.items() if k != 'm'} for o in s['ops']]} for s in ss]
    results = ctx.drive('drv_head', lean, timeout=ctx.pick(300, 3000))
    ctx.log('driven')
    judge(ctx, ss, results, spec)
    return ctx.finish('model_checking', messages=sum(len(s['ops']) for s in ss))


def replay(ctx, saved):
    s = saved['detail']['script']
    judge(ctx, [s], ctx.drive('drv_head', [copy.deepcopy(s)]))
    return 1 if ctx.violations else 0
