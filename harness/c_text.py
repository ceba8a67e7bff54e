"""C20, C21, C22: the tokenizer."""
import base64
import itertools
import quopri

import vlib

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
KINDS = ['uuencode', 'url', 'fancy', 'style', 'comment', 'noframes']
INVS = 'INVARIANTS Shape Complete Exact Silent Tame\n'


def b(text):
    return [ord(c) for c in text]


# ---- texts with sections (C22) ----
PIECES = {
    'uuencode': ['begin 644 money.txt\n', 'begin  7\t/a/b:c.d;e\n', 'begin 6 x', '\nbegin 6 x\n', 'begin\n6\nx\n', 'begin 1 2 3\n', 'Begin 6 x\n',
                 'end\n', '\nend\n', 'end', 'end \t\n\n\n', 'ending\n', ' end\n', 'endx', '\n', ' ', 'M<!--$\n', 'M[O(\n', '\r\n', '\x0b', 'begin  \n', 'begin 6 \xff\x80\n',
                 'begin 6 a.b.c\r\n', 'end\r\n', 'begin 6 x\n\n\n', 'begin 666 a/b\\c:d\n'],
    'url': ['http://', 'https://', 'ftp://', 'httpx://', 'HTTP://', 'http:/', 'example.com', 'www.a.b/c/d.html', '/', '.', '?', '!', ':', '://', 'a=b&c=d',
            ' ', '>', '<', '"', "'", '\n', '\x7f', '\x80', '\xff', '@', ';', ',', '+', '$', '%41', '#x', '(', ')', 's', 'http', 'https', 'ftp', '...', '?!/.', '\x00', '~'],
    'fancy': ['www.', 'ftp.', 'www', 'ftp', 'WWW.', 'http://', 'https://', 'ftp://', 'ftp.://', 'a', 'A', '_', '9', '-', '.', '..', '/', ':', '@', ' ', '\n', '<', '>', '"', '\xe9', '\x7f', 'www.a.b', 'ftp.a.b/c?d=e', '(', 'x', 'http://www.', '\x00', '?!', 'wwww.', 'httpwww.', 'tp.', ','],
    'style': ['<style', '<style>', '< style type="text/css">', '<\n\tstyle>', '</style>', '</style', '</ style>', '</style >', '<styles>', '<style2>', '<style-x>', '<Style>', '>', '<', 'a', '{b:c}', '\n',
              'style>', '<style\xe9>', '<style_x>', '<stylea>', '</STYLE>'],
    'comment': ['<!--', '-->', '<!-', '--', '->', '<comment>', '<comment', '< \ncomment x="y">', '</comment>', '</comment', '</ comment>', '<commentary>', '<!-->', '<!--->', '>', '-', 'a', '\n', 'comment>', '--!>', '<COMMENT>', '<! --'],
    'noframes': ['<noframes>', '<noframes', '< noframes >', '<\n noframes\t>', '</noframes>', '</noframes \n>', '</noframes', '</ noframes>', '<noframes x>', '<noframesx>', '>', 'a', ' ', '\n', '<NOFRAMES>', '</NOFRAMES>', '<noframe>', 'noframes'],
}
FILL = ['text', ' ', '\n', 'some words here', '\xe9\xff', '\x00', '<b>', '<', '&#65;', 'a.b@c.d', '', '\r\n', '\t']


def sectioned(rng, kind, n):
    own = PIECES[kind]
    other = FILL + [x for k in KINDS for x in PIECES[k][:6]]
    return ''.join(rng.choice(own) if rng.random() < .75 else rng.choice(other) for _ in range(n))


def c22(ctx):
    rng = ctx.rng
    ops = []
    for kind in KINDS:
        items = ctx.model_check('MCStrip', 'SPECIFICATION Spec\n' + INVS + 'ACTION_CONSTRAINT Emit\nCONSTANTS Kind = "%s"\nMaxLen = %d\n'
                                % (kind, ctx.pick(4, 6 if kind in ('noframes', 'comment') else 5)), timeout=1500)
        ctx.log('%d %s texts of the model' % (len(items), kind))
        ops += [{'op': 'crack', 'kind': kind, 'text': x['text']} for x in items]
        ops += [{'op': 'crack', 'kind': kind, 'text': []}]
        for _ in range(ctx.pick(2000, 10000)):
            ops.append({'op': 'crack', 'kind': kind, 'text': b(sectioned(rng, kind, rng.randrange(1, 14)))})
        for _ in range(ctx.pick(20, 200)):
            ops.append({'op': 'crack', 'kind': kind, 'text': b(sectioned(rng, kind, rng.randrange(20, 60)))})
    for _ in range(ctx.pick(4000, 20000)):
        parts = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            text = ''.join(sectioned(rng, rng.choice(KINDS), rng.randrange(1, 6)) + rng.choice([' ', '\n', '', 'word']) for _ in range(rng.randrange(1, 5)))
            if rng.random() < .3:
                text = ''.join(c.upper() if ord(c) < 128 and (j % 3 or rng.random() < .5) else c for j, c in enumerate(text))
            parts.append(text)
        ops.append(message(rng, parts))
    rng.shuffle(ops)
    return [{'prop': 'C22', 'ops': ops[j:j + 25]} for j in range(0, len(ops), 25)]


# ---- body texts (C21) ----
ATOMS = ['ab', 'abc', 'ABC', 'Hello', 'twelve_chars', 'thirteen_char', 'a' * 11, 'b' * 12, 'c' * 13, 'D' * 19, 'e' * 20, 'f' * 39, 'g' * 40, 'h' * 99, 'i' * 100, 'J' * 250,
         'user@example.com', 'user@examplecom_', 'a@b.c@d.eeeeeeee', '@example.com.org', 'someone@', '.........@....', 'u' * 26 + '@example.com', 'u' * 27 + '@example.com', 'u' * 28 + '@example.com',
         'U' * 60 + '@e.x', 'a.b', '@.@', 'x@y.z', '\xe9\xe8', '\xe9\xe8\xe7', 'caf\xe9' * 4, '\xff' * 13, '\xc3\xa9' * 10, 'abcdefghijkl\xe9', '\xe9' + 'a' * 15, '\xe9\xe9' + 'b' * 14, '\xe9' * 3 + 'b' * 13, '\xe9\xea\xeb\xec\xed' + 'c' * 11,
         '\x00', '\x00\x01\x02', '\x7f' * 14, '\x80' * 14, '\x0b', '\x1c', '\x1d\x1e\x1f', '\x85', '\xa0', '%d%d%d%d%d%d%d', '%s', '$100.00', "don't", '1,000,000.00']
SPACES = [' ', '  ', '\n', '\t', '\r\n', '\x0b', '\x0c', ' \n ']
MARKS = ['<b>', '</b>', '<br>', '<BR>', '<br/>', '<br />', '<p>', '<P>', '<p >', '<p class="x">', '</p>', '&nbsp;', '&NBSP;', '&nbsp', '&amp;', '<', '>', '<>', '< a>', '<<b>>', '<a<b>', 'a<b', 'b>a', '<a\nhref="x">', '<\xe9>', '<!x>',
         '<' + 'x' * 255 + '>', '<' + 'x' * 256 + '>', '<' + 'x' * 257 + '>', '<' + 'y' * 300, '<3', '<font color="#ff0000">', '<a', '">', '<td\x00>', '<\x0b>', '<\x1c>']
ENTS = ['&#65;', '&#97;', '&#065;', '&#0000000000000000000000000000065;', '&#32;', '&#10;', '&#233;', '&#8364;', '&#128512;', '&#55296;', '&#57343;', '&#57344;', '&#1114111;', '&#1114112;', '&#99999999999999999999;', '&#0;', '&#60;b&#62;', '&#64;', '&#46;',
        '&#;', '&#x41;', '&# 65;', '&#65', '&#-5;', '&&#65;', '&#&#65;;', '&#127;', '&#128;', '&#2047;', '&#2048;', '&#65535;', '&#65536;', '&#955;', '&#38;#65;', '&#65;;', '&#9999999;', '&#10000000;', '&#1234567;']
VIRUS = ['<script>', '<SCRIPT language="x">', '</script>', '</ script>', '<  iframe ', '<iframe', '<iframes>', '<scripts>', '<script-x>', '< / script>', '<\nscript', 'src=cid:', 'src="cid:x"', "src='cid:x'", ' src=cid:', 'xsrc=cid:', '_src=cid:', '-src=cid:', 'src= cid:', "src=\"'cid:",
         'height=0', 'height="0"', "width='0", 'width=01', 'width=1', 'xheight=0', 'height= 0', 'width="', ' width=0 height=0', '<img src=cid:a width=0>', '\xe9src=cid:', '<iframe src=cid:1 height=0 width=0>', 'HEIGHT=0', 'height=0height=0', 'heightwidth=0']


def word_soup(rng, n):
    out = []
    for _ in range(n):
        x = rng.random()
        pool = ATOMS if x < .45 else MARKS if x < .62 else ENTS if x < .8 else VIRUS if x < .92 else None
        if pool is None:
            k = rng.choice([2, 3, 12, 13, 14, 16, 20, 39, 40, 41, 50, rng.randrange(60), rng.randrange(300)])
            al = rng.choice(['ab', 'aB.@', 'a\xe9', '\xe9\xff\x80a', 'a@.\x00', '<>a', '&#6;5'])
            out.append(''.join(rng.choice(al) for _ in range(k)))
        else:
            out.append(rng.choice(pool))
        if rng.random() < .5:
            out.append(rng.choice(SPACES))
    return ''.join(out)


def has_section(text):
    t = text.lower()
    return any(x in t for x in ('begin', 'http', 'ftp', 'style', '<!--', 'comment', 'noframes')) or '#' in text and any(
        x in t for x in ('&#58;', '&#060', '&#047'))


HEADS = ['', 'Subject: Hello there\n', 'From: A B <a@example.com>\nTo: c@d\n', 'Subject: x\nX-Mailer: y\nMessage-Id: <1@2>\n']


def encode(rng, text):
    """One text part: headers, body and body when empty."""
    kind = rng.choice(['plain', 'plain', 'html', 'x-unknown'])
    cset = rng.choice(['', '; charset="iso-8859-1"', '; charset=utf-8', '; charset=nonsense'])
    cte = rng.choice(['', '8bit', '8bit', 'base64', 'quoted-printable', '7bit', 'unknown', 'binary'])
    head = 'Content-Type: text/%s%s\n' % (kind, cset) if rng.random() < .8 or kind != 'plain' or cset else ''
    if cte:
        head += 'Content-Transfer-Encoding: %s\n' % cte
    data = text
    if cte == 'base64':
        data = base64.encodebytes(text.encode('latin-1')).decode('ascii')
    elif cte == 'quoted-printable':
        data = quopri.encodestring(text.encode('latin-1')).decode('ascii')
    return head, data


def message(rng, parts):
    form = rng.choice(['bytes', 'bytes', 'email', 'emailstr', 'str', 'string'])
    top = rng.choice(HEADS)
    if form in ('emailstr', 'str', 'string') and rng.random() < .3:
        parts = [''.join(chr(rng.choice([0x20ac, 0x142, 0x1f600])) if c == '\xe9' and rng.random() < .5 else c for c in p) for p in parts]
    if len(parts) == 1:
        if form in ('emailstr', 'str', 'string'):
            head, data = 'Content-Type: text/plain\n', parts[0]
            if all(ord(c) < 256 for c in data):
                head, data = encode(rng, data)
        else:
            head, data = encode(rng, parts[0])
        return {'op': 'body', 'form': form, 'raw': top + head + '\n' + data, 'empty': top + head + '\n'}
    raw = empty = top + 'MIME-Version: 1.0\nContent-Type: multipart/%s; boundary="=-=-="\n\npreamble is no text\n' % rng.choice(['mixed', 'alternative'])
    for p in parts:
        p = p.replace('\r', ' ')
        head, data = encode(rng, p) if all(ord(c) < 256 for c in p) else ('', p)
        raw += '--=-=-=\n' + head + '\n' + data + '\n'
        empty += '--=-=-=\n' + head + '\n\n'
        if rng.random() < .3:
            extra = '--=-=-=\n' + rng.choice(['Content-Type: image/gif\n', 'Content-Type: application/octet-stream\nContent-Transfer-Encoding: base64\n']) + '\nbinaries are not text here\n'
            raw += extra
            empty += extra
    return {'op': 'body', 'form': form, 'raw': raw + '--=-=-=--\nepilogue\n', 'empty': empty + '--=-=-=--\nepilogue\n'}


def c21(ctx):
    rng = ctx.rng
    items = ctx.model_check('MCStrip', 'SPECIFICATION Spec\n' + INVS + 'ACTION_CONSTRAINT Emit\nCONSTANTS Kind = "body"\nMaxLen = %d\n'
                            % ctx.pick(3, 4), timeout=1500)
    ctx.log('%d texts of the model' % len(items))
    ops = []
    for x in items:
        ops.append({'op': 'body', 'form': 'bytes', 'raw': '\n' + ''.join(map(chr, x['text'])), 'empty': '\n'})
    while len(ops) < len(items) + ctx.pick(14000, 80000):
        parts = [word_soup(rng, rng.choice([1, 2, 3, 5, 8, 14])) for _ in range(rng.choice([1, 1, 1, 1, 2, 3]))]
        if not any(has_section(p) for p in parts):
            ops.append(message(rng, parts))
    rng.shuffle(ops)
    return [{'prop': 'C21', 'ops': ops[j:j + 25]} for j in range(0, len(ops), 25)]


# ---- any message (C20) ----
SUBJ = ['hello', '=?utf-8?q?caf=C3=A9?=', '=?utf-8?b?Y2Fmw6k=?=', '=?utf-8?b?Y2Fmw6k?=', '=?x-unknown?q?abc?=', '=?utf-8?b?!!!!?=', '=?iso-2022-jp?b?GyRCRnxLXBsoQg==?=', '=?utf-16?b?AAAA?=', '=?utf-8?q?=ZZ?=', '=?idna?q?xn--a?=', '=?unicode_escape?q?=5Cx?=',
        '=?utf-8?q?\xff?=', '=?utf-8?x?abc?=', '=?utf-8?q?a', '=?\xe9?q?a?=', '\xff\xfe\x80', 'a\x00b', '=?utf-7?q?+AAA-?=', '=?punycode?q?abc?=', '=?base64?q?abc?=', '=?rot13?q?abc?=', '=?hex?q?4?=', '=?zlib?b?AAAA?=', '=?utf-8*en?q?a?=', '=??q?a?=', '=?us-ascii?q?=FF?=',
        '=?utf-8?q?=ED=A0=80?=', 'x' * 1000, '$$$ %%% ...', '\u2028', 'folded\n line', 'folded\n\tline\n  x', ' ', '=?utf-8?b?' + 'QUJD' * 50 + '?=', '=?utf-8?b?A?=', '=?utf-8?b?=?=', 'Re: =?utf-8?q?a?= =?latin1?q?=E9?= b', '=?mbcs?q?a?=', '=?undefined?q?a?=', '=?string_escape?q?a?=', '=?raw_unicode_escape?q?=5Cud800?=', '=?unicode_escape?q?=5Cud800?=', '=?utf-8-sig?q?a?=', '=?utf_7?q?+2AA-?=', '=?cp65001?q?a?=', '=?oem?q?a?=']
ADDR = ['a@b.c', 'Name <a@b.c>', '"Quoted, Name" <a@b.c>', '=?utf-8?q?N=C3=A9?= <a@b>', '=?x?b?!?= <a@b>', '<>', '', ',', ',,,', '@', 'a@@b', '(comment) a@b', '\xe9 <\xff@b>', 'group: a@b, c@d;', 'undisclosed-recipients:;', 'a' * 300, '"unterminated <a@b>', 'a@b (c', 'a@[1.2.3.4]', ', '.join(['x@y'] * 40), '"\\"', '<<<a@b>>>', '=?utf-8?b?A?= <x@y>', 'a b c', '\x00@\x00', '=?unicode_escape?q?=5Cud800?= <a@b>', '"=?idna?q?xn--\xff?=" <q@r>', 'a@b\n <c@d>', '\\', ':', ';', '(', '[', 'a:b:c', '"']
CT = ['text/plain', 'text/html; charset=utf-8', 'text', '/', 'text/', '/plain', 'text/plain; charset', 'text/plain; charset=', 'text/plain; charset="', "text/plain; charset*=utf-8''caf%C3%A9", "text/plain; charset*=x'y", "text/plain; charset*=bogus'en'%FF", 'text/plain; charset*0*=a; charset*1*=b',
      'multipart/mixed', 'multipart/mixed; boundary=', 'multipart/mixed; boundary="qq"', 'multipart/mixed; boundary="zz"', 'multipart/digest; boundary=qq', 'multipart/signed; boundary=qq', 'message/rfc822', 'message/delivery-status', 'message/partial', 'message/external-body', 'message/bogus', 'application/octet-stream', 'image/gif; name="x.gif"', 'text/plain; type=', "text/plain; type*=utf-8''%FF", "multipart/related; boundary=qq; type*=bogus''x",
      "text/plain; name*=utf-8''%E9; name=b", 'text/plain; name="a/b\\c:d.e"', "application/x; name*0*=nope''a; name*1=b", 'text/plain; name==?utf-8?b?A?=', '\xe9/\xff', 'text/plain; charset=\xe9', 'TEXT/PLAIN; CHARSET=UTF-8', ';', '', 'text/plain; charset=utf-8; charset=latin1', 'text/\x00', 'text/plain;;;=;x', 'text/plain; charset=unicode_escape', 'text/plain; charset=idna', 'text/plain; charset=base64', "text/plain; charset*=''", "text/plain; type*=idna''xn--%FF", "text/plain; name*=unicode_escape''%5C", "text/plain; charset*=utf-16''ab",
      "text/plain; name*=base64''abc", "text/plain; type*=hex''zz", "text/plain; charset*=rot13''abc", "text/plain; name*=zlib''abc"]
CTE = ['base64', 'quoted-printable', '7bit', '8bit', 'binary', 'x-uuencode', 'uuencode', 'uue', 'x-uue', 'bogus', '', '\xe9', 'BASE64', 'base64 ', 'base64; x', 'quoted-printable\n x']
CD = ['inline', 'attachment; filename="a.txt"', "attachment; filename*=utf-8''a%FF", "attachment; filename*0*=bogus'x'a; filename*1*=b", 'attachment; filename==?utf-8?q?a?=', '\xff', 'attachment; filename=\xe9', '', 'attachment; filename="a\x00b"', 'attachment; filename=', "attachment; filename*=idna''xn--%FF", "attachment; filename*='", "attachment; filename*=base64''x", 'attachment; filename="' + 'x/' * 50 + '"', "a; filename*=unicode_escape''%5Cud800"]
MISC = ['Message-Id: <a@b>', 'Message-Id: \xff', 'Message-Id: <a@\xe9>', 'Message-ID: <@>', 'X-Mailer: \xe9 x', 'X-Mailer:', 'Received: from a by b', 'Received: from \xe9.com ([1.2.3.4]) (may be\n  forged) by x', 'Received: \xff', 'received: from =?x?= (a b) [999.1.1.1]', 'X-Habeas-SWE-1: winter into spring', 'X-Habeas-SWE-3: \xe9', 'X-HABEAS-SWE-9:', 'NNTP-Posting-Host: news.example.com', 'NNTP-Posting-Host: \xe9.x', 'NNTP-Posting-Host:', 'NNTP-Posting-Host: ::1', 'NNTP-Posting-Host: 1.2.3.4', 'NNTP-Posting-Host: ::ffff:1.2.3.4%25eth0', 'nntp-posting-host: 2001:db8::1', 'NNTP-Posting-Host: a..b', 'NNTP-Posting-Host: ' + 'x' * 70 + '.com', 'NNTP-Posting-Host: localhost\n .x', 'Date: x', 'From ', 'Bogus Header: x', ': x', ':', 'NoColon', ' leading: x', '\xe9: x', 'Lines: 1', 'List-Id: x', 'Reply-To: ', 'Content-Type', 'MIME-Version: 1.0', 'Organization: \x00', 'Mime-Version: 2', 'In-Reply-To: ' + 'x' * 2000, 'To', 'X-Mailer: =?x?', 'nntp-posting-host: 1.2.3.4', 'Sender: =?utf-8?b?/////?= <>', 'Importance: a', 'IMPORTANCE: b', 'errors-to: c', 'X: \ud800']
BODY = ['', '\n', 'text\n', '\xff\xfe\x00', '====', '=\n=3', 'QUJD\n', 'QUJ\n', '!!!\n', '--qq\n\na\n--qq--\n', '--qq\nContent-Type: text/plain\n\nx\n', '--qq\n--qq\n', '--qq--\n', '--qq\nContent-Type: multipart/mixed; boundary=zz\n\n--zz\n\n--qq\n', 'begin 644 x\n#0V%T\n`\nend\n', 'begin 644 x\n#0V%T\n', 'begin bogus\n', 'begin 6 \xff\nend\n', '&#' + '9' * 5000 + ';', '&#99999999999;', '&#55296;', '<' * 50, '<!--' * 20, 'http://', 'http://\x00', 'http://[', 'https://a]b[c/', 'ftp://x:y@z:99999/', 'http://x:y', 'https://[::1]:80/', 'http://%e9%ff:8/%', 'http://1.2.3.4:8a', 'http://a@b@c', 'a b c d e f g h i j', 'begin 644 a/b\nend\n', 'a' * 5000, '\xe9' * 300, ' '.join(['@.'] * 30), '%c %d %s', '\r\r\n\n\r', 'Subject: inner\n\nbody\n', 'Subject: =?x?b?!?=\nFrom: \xff\n\nbody http://x/\n', 'From x\n\n', '\x0c\x1c\x85', '--qq\nContent-Type: message/rfc822\n\nSubject: a\n\nb\n--qq--\n', '--qq\nContent-Type: message/delivery-status\n\nA: b\n\nC: d\n--qq--\n', '--qq\nContent-Type: text/html\nContent-Transfer-Encoding: base64\n\n\xff\xff==\n--qq--\n', '--qq\nContent-Transfer-Encoding: x-uuencode\n\nbegin 644 f\nbad line \x80\nend\n--qq--\n', 'A' * 77 + '=\n', 'QQ==QQ==', 'QUJDR', 'QUJ\x80D', '=?']
WIDE = ['\u20ac', '\ud800', '\udcff', '\U0001f600', '\u0130', '\u2028', '\ufeff', '\udce9', '\x85', '\u0660', '&#\u0661\u0662;', '\u3000']


def weird(rng, wide):
    lines = []
    if rng.random() < .1:
        lines.append(rng.choice(['From me Mon\n', '>From x\n', '\n', '\ufeff' if wide else '\xef\xbb\xbf']))

    def add(name, pool, p, more=.12):
        while rng.random() < p:
            v = rng.choice(pool)
            if rng.random() < .15:
                v += rng.choice([' ', ', ', '; ', '\n ']) + rng.choice(pool)
            lines.append('%s: %s\n' % (rng.choice([name, name, name.lower(), name.upper()]), v))
            p = more
    add('Subject', SUBJ, .7)
    for f in ('From', 'To', 'Cc', 'Sender', 'Reply-To'):
        add(f, ADDR, .4)
    add('Content-Type', CT, .6, .05)
    add('Content-Transfer-Encoding', CTE, .45, .05)
    add('Content-Disposition', CD, .3)
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        lines.append(rng.choice(MISC) + '\n')
    if rng.random() < .3:
        rng.shuffle(lines)
    raw = ''.join(lines) + rng.choice(['\n', '\n', '\n', '', '\r\n'])
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        raw += rng.choice(BODY) if rng.random() < .7 else word_soup(rng, 4) if rng.random() < .5 else sectioned(rng, rng.choice(KINDS), 4)
        raw += rng.choice(['', '\n'])
    style = rng.random()
    if style < .1:
        raw = raw.replace('\n', '\r\n')
    elif style < .15:
        raw = raw.replace('\n', '\r')
    if rng.random() < .35:                      # damage
        s = list(raw)
        for _ in range(rng.choice([1, 2, 5, 20])):
            if not s:
                break
            j = rng.randrange(len(s))
            x = rng.random()
            if x < .3:
                del s[j:j + rng.choice([1, 1, 3, 20])]
            elif x < .6:
                s[j] = chr(rng.randrange(256))
            elif x < .8:
                s.insert(j, rng.choice(['\n', ':', '=', ';', '"', '\x00', '\xff', '*', "'", '?', '=?', '%', '&#', '<']))
            else:
                k = rng.randrange(len(s))
                s[j:j] = s[k:k + rng.randrange(30)]
        raw = ''.join(s)
    if wide:
        s = list(raw)
        for _ in range(rng.choice([0, 1, 3, 8])):
            s.insert(rng.randrange(len(s) + 1), rng.choice(WIDE))
        raw = ''.join(s)
    else:
        raw = ''.join(c if ord(c) < 256 else '?' for c in raw)
    return raw


def parcel(rng):
    """A well-formed message of many parts."""
    raw = 'Subject: parcel\nMIME-Version: 1.0\nContent-Type: multipart/%s; boundary="=-="\n\n' % rng.choice(['mixed', 'related', 'alternative'])
    for j in range(rng.choice([2, 4, 8, 12])):
        kind = rng.choice(['application/octet-stream', 'application/octet-stream', 'image/gif', 'text/plain', 'text/html', 'application/pdf'])
        raw += '--=-=\nContent-Type: %s; name="f%d.x"\n\n%d part %s\n' % (kind, j, j * 1111, rng.choice(SECTIONS))
    return raw + '--=-=--\n'


SECTIONS = ['', 'http://a.b/c one', '<script> height=0', '&#65; word', '\nbegin 644 x/y.z\nM1\nend\n', 'a b c d e f']


TYPES = ['text/plain', 'text/html', 'image/gif', 'application/octet-stream', 'message/rfc822', 'multipart/mixed; boundary=xx']
LINES = ['Content-Type', 'Content-Transfer-Encoding', 'Content-Disposition', 'Subject', 'To', 'From', 'Received', 'NNTP-Posting-Host',
         'Message-ID', 'X-Mailer', 'X-Habeas-SWE-1', 'body']
ODD = ['\ud800', '\udc80', '\udfff', '\xff', '\0', '\u2028', '\x85', '\U0001f600']
USUAL = {'Content-Transfer-Encoding': 'base64', 'Content-Disposition': 'attachment; filename="a.b"', 'Subject': 'one two', 'To': 'A B <a@b.c>',
         'From': 'c@d.e', 'Received': 'from a.b (c [1.2.3.4]) by d (bad)', 'NNTP-Posting-Host': 'news.example.com', 'Message-ID': '<1@x.y>', 'X-Mailer': 'm'}


def one_odd(kind, line, char):
    """A usual message, but for one character in one line."""
    lines = dict(USUAL)
    lines['Content-Type'] = kind
    if line != 'body':
        v = lines.get(line, 'x y')
        lines[line] = v[:len(v) // 2] + char + v[len(v) // 2:]
    body = '--xx\nContent-Type: image/png\n\nQUJD\n--xx--\n' if 'xx' in kind else 'QUJDRA http://a.b/c%41 <b>\n'
    if line == 'body':
        body = body[:3] + char + body[3:]
    return ''.join('%s: %s\n' % x for x in lines.items()) + '\n' + body


def weird_message(rng):
    if rng.random() < .06:
        return [parcel(rng), rng.choice(['bytes', 'email', 'str', 'string'])]
    form = rng.choice(['bytes', 'bytes', 'bytes', 'email', 'str', 'emailstr', 'string'])
    return [weird(rng, form in ('str', 'emailstr', 'string') and rng.random() < .6), form]


FLAGS = ['count', 'absence', 'received', 'prefixes', 'suffixes', 'habeas', 'reduce', 'news', 'blot', 'pick', 'noskip', 'short', 'images', 'octets', 'lookup']


def options(rng):
    """How the tokenizer is set: as it comes, everything on, or anything."""
    p = rng.choice([0, 0, 1, .5, .2])
    return {k: int(rng.random() < p) for k in FLAGS}


def surroundings(rng):
    return {'o': options(rng), 'names': {'localhost': ['127.0.0.1'], 'news.example.com': ['1.2.3.4', '10.0.0.1'], 'a': ['9.9.9.9'], 'a.b': rng.choice([['7.7.7.7', '7.7.8.8'], ['%d.%d.1.%d' % (1 + j // 5, j // 2, j) for j in range(rng.randrange(12))]])},
            'hosts': {'1.2.3.4': 'news.example.com', '127.0.0.1': 'localhost'}}


def c20(ctx):
    rng = ctx.rng
    trans = ctx.model_check('MCTok', 'SPECIFICATION Spec\nINVARIANTS Functional Prefixes\nCONSTANTS MaxOpens = %d\n' % ctx.pick(3, 4), timeout=900)
    paths = vlib.tours(trans, rng, max_len=30)
    ctx.log('%d transitions of the model in %d histories' % (len(trans), len(paths)))
    scripts = []
    paths = rng.sample(paths, min(len(paths), ctx.pick(1000, 4000)))
    for p in paths:
        ops = []
        for tr in p:
            a = dict(tr['act'])
            a['m'] -= 1
            ops.append(a)
        # finish what is still open, so that everything is compared
        ops += [{'op': 'read', 'g': g, 'm': 0, 'n': -1} for g in (1, 2)]
        scripts.append(dict(surroundings(rng), prop='C20', messages=[weird_message(rng) for _ in range(2)], ops=ops))
    for _ in range(ctx.pick(6000, 40000)):
        k = 4
        ops = []
        for m in range(k):
            ops.append({'op': 'open', 'g': 1, 'm': m, 'fresh': 1})
            ops.append({'op': 'read', 'g': 1, 'm': m, 'n': -1})
        for _ in range(rng.choice([4, 6])):
            m = rng.randrange(k)
            ops.append({'op': 'open', 'g': 1, 'm': m, 'fresh': rng.randrange(2)})
            if rng.random() < .3:
                ops.append({'op': 'read', 'g': 1, 'm': m, 'n': rng.randrange(5)})
            if rng.random() < .9:
                ops.append({'op': 'read', 'g': 1, 'm': m, 'n': -1})
        scripts.append(dict(surroundings(rng), prop='C20', messages=[weird_message(rng) for _ in range(k)], ops=ops))
    odd = [[one_odd(*x), rng.choice(['str', 'string', 'emailstr'])] for x in itertools.product(TYPES, LINES, ODD)]
    rng.shuffle(odd)
    for j in range(0, len(odd), 5):
        ms = odd[j:j + 5]
        around = surroundings(rng)
        around['o'] = {k: int(rng.random() < .9) for k in FLAGS}
        scripts.append(dict(around, prop='C20', messages=ms, ops=[
            {'op': op, 'g': 1, 'm': m, 'fresh': 1, 'n': -1} for m in range(len(ms)) for op in ('open', 'read')]))
    return scripts


def judge(ctx, scripts, results, again=None):
    traces = []
    for j, (s, r) in enumerate(zip(scripts, results)):
        rs = [r] + ([again[j]] if again else [])
        if any(x.get('skipped') for x in rs):
            continue
        bad = [x for x in rs if 'crash' in x]
        if bad:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': bad[0]['crash']})
            continue
        steps = [e for x in rs for e in x['steps'] if e['op'] != 'skip']
        if s['prop'] == 'C20':
            steps = [{k: (e[k] + 1 if k == 'm' else e[k]) for k in ('op', 'm', 'raised', 'bad', 'digest', 'changed')} for e in steps]
            t = {'id': s['id'], 'messages': len(s['messages']), 'steps': steps}
        else:
            t = {'id': s['id'], 'steps': steps}
        if steps:
            traces.append(t)
    byid = {t['id']: t for t in traces}
    for x in ctx.validate('TTok' if scripts[0]['prop'] == 'C20' else 'TBody', TCFG, traces):
        t = byid[x['reject']]
        e = t['steps'][x['step'] - 1]
        s = next(q for q in scripts if q['id'] == x['reject'])
        if s['prop'] == 'C20':
            detail = {'message': s['messages'][e['m'] - 1], 'observed': e}
        else:
            want = {'rest': show(x['want']['rest']), 'tokens': [show(y) for y in x['want']['tokens']]}
            got = {k: (show(v) if k in ('text', 'rest') else [show(y) for y in v] if k in ('tokens', 'parts') else v) for k, v in e.items()}
            detail = {'expected': want, 'observed': got}
        detail.update(step=x['step'], script=s)
        ctx.violation(x['why'], detail)
    for s in scripts[:1] + scripts[-2:]:
        ctx.sample({'ops': s['ops'][:3], 'messages': s.get('messages', [])[:1]})


def show(codes):
    return ''.join(chr(c) if c >= 0 else '<not bytes>' for c in codes)


def run(ctx):
    scripts = {'C20': c20, 'C21': c21, 'C22': c22}[ctx.prop](ctx)
    for i, s in enumerate(scripts):
        s['id'] = i
    ctx.log('%d histories' % len(scripts))
    results = ctx.drive('drv_text', scripts, timeout=ctx.pick(300, 3000))
    again = None
    if ctx.prop == 'C20':
        # once more in other processes, with another hash seed
        ctx.seed += 7777
        again = ctx.drive('drv_text', scripts, timeout=ctx.pick(300, 3000), shards=3)
        ctx.seed -= 7777
    ctx.log('driven')
    judge(ctx, scripts, results, again)
    return ctx.finish('model_checking', histories=len(scripts))


def replay(ctx, saved):
    s = saved['detail']['script']
    r = ctx.drive('drv_text', [s])
    again = ctx.drive('drv_text', [s], env={'PYTHONHASHSEED': '99'}) if s['prop'] == 'C20' else None
    judge(ctx, [s], r, again)
    return 1 if ctx.violations else 0
