"""Driver for the tokenizer: section strippers, body texts, whole messages."""
import email
import email.message
import hashlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib

M = {}


def setup():
    import sbclassifier.message
    import sbclassifier.strippers as st
    import sbclassifier.tokenizer as tk
    M['tok'] = tk
    M['strip'] = st
    M['from_bytes'] = sbclassifier.message.from_bytes
    M['from_string'] = sbclassifier.message.from_string
    names = {'uuencode': ('crack_uuencode', lambda: st.UUencodeStripper().analyze),
             'url': ('crack_urls', lambda: st.URLStripper().analyze),
             'style': ('crack_html_style', lambda: st.StyleStripper.analyze),
             'comment': ('crack_html_comment', lambda: st.CommentStripper.analyze),
             'noframes': ('crack_noframes', lambda: st.NoframesStripper.analyze)}
    def fancy(text):
        st.FANCY_URL_RECOGNITION = True
        try:
            return st.URLStripper().analyze(text)
        finally:
            st.FANCY_URL_RECOGNITION = False
    names['fancy'] = ('', lambda: fancy)
    M['crack'] = {}
    for k, (name, other) in names.items():
        M['crack'][k] = name and getattr(tk, name, None) or other()


def ints(x):
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    return [-1] + [ord(c) for c in x] if isinstance(x, str) else [-2]


def parse(form, raw):
    """raw is text with one character per byte, or arbitrary text for form str."""
    if form == 'str':
        email.message_from_string(raw)      # raises if it cannot be parsed
        return raw
    if form == 'email':
        return email.message_from_bytes(raw.encode('latin-1'))
    if form == 'emailstr':
        return email.message_from_string(raw)
    if form == 'string':
        return M['from_string'](raw)
    return M['from_bytes'](raw.encode('latin-1'))


def crack(op):
    e = {'op': 'crack', 'kind': op['kind'], 'text': op['text'], 'raised': '', 'rest': [], 'tokens': []}
    try:
        rest, tokens = M['crack'][op['kind']](bytes(op['text']))
        e['rest'] = ints(rest)
        e['tokens'] = [ints(x) for x in tokens]
    except Exception as x:
        e['raised'] = repr(x)
    return e


def payloads(raw, form):
    """The decoded text parts, by the standard library alone."""
    if form in ('bytes', 'string'):
        # The package reads every line end as LF.
        raw = raw.replace('\r\n', '\n').replace('\r', '\n')
    m = email.message_from_string(raw) if form in ('str', 'emailstr', 'string') \
        else email.message_from_bytes(raw.encode('latin-1'))
    return [p.get_payload(decode=True) for p in m.walk() if p.get_content_maintype() == 'text']


def body(op):
    e = {'op': 'body', 'parts': [], 'raised': '', 'tokens': []}
    parts = payloads(op['raw'], op['form'])
    if any(p is None for p in parts):
        return None
    e['parts'] = [list(p) for p in parts]
    tokenize = M['tok'].tokenize
    try:
        whole = list(tokenize(parse(op['form'], op['raw'])))
        head = list(tokenize(parse(op['form'], op['empty'])))
    except Exception as x:
        e['raised'] = repr(x)
        return e
    if whole[:len(head)] == head:
        rest = whole[len(head):]
    else:
        rest = list(whole)
        for x in head:
            if x in rest:
                rest.remove(x)
            else:
                rest.append(b'(missing header token) ' + x)
    e['tokens'] = [ints(x) for x in rest]
    return e


def digest(tokens):
    """Tokens, with their types, as a short string and a shorter list for people."""
    h = hashlib.sha256()
    for x in tokens:
        h.update((type(x).__name__ + repr(x) + '\n').encode('utf-8', 'surrogatepass'))
    return h.hexdigest()[:20]


def image(m):
    """Everything that can be seen of a message."""
    if isinstance(m, str):
        return m
    try:
        text = m.as_bytes().decode('latin-1')
    except Exception:
        text = 'unprintable'
    parts = []
    for p in m.walk():
        body = p._payload
        heads = [(k, repr(v) if isinstance(v, str) else repr(list(getattr(v, '_chunks', [])))) for k, v in p.raw_items()]
        parts.append((heads, len(body) if isinstance(body, list) else repr(body), repr(p.preamble), repr(p.epilogue), p.get_default_type(), p.get_unixfrom()))
    extra = []
    for a in ('id', 'classification', 'is_trained'):
        f = getattr(m, a, None)
        if callable(f):
            try:
                extra.append(repr(f()))
            except Exception as x:
                extra.append(repr(x))
    return hashlib.sha256(repr((text, parts, extra)).encode('utf-8', 'surrogatepass')).hexdigest()


def stable(s):
    """A history of reading tokens of messages, several at a time."""
    tokenize = M['tok'].tokenize
    if 'o' in s:
        drvlib.choose((M['tok'], M['strip']), s['o'])
        drvlib.stand_in(s, (M['tok'], M['strip']))
    parsed = {}
    gens = {}
    out = []
    for op in s['ops']:
        raw, form = s['messages'][op['m']]
        e = {'op': op['op'], 'm': op['m'], 'form': form, 'raised': '', 'bad': 0, 'digest': '', 'n': 0, 'changed': 0, 'show': ''}
        try:
            if op['op'] == 'open':
                if op['fresh'] or op['m'] not in parsed:
                    try:
                        parsed[op['m']] = parse(form, raw)
                    except Exception as x:
                        out.append(dict(e, op='skip'))
                        parsed.pop(op['m'], None)
                        continue
                msg = parsed[op['m']]
                e['g'] = op['g']
                gens[op['g']] = [msg, image(msg), iter(tokenize(msg)), [], op['m']]
            elif op['g'] not in gens:
                out.append(dict(e, op='skip'))
                continue
            else:
                msg, before, it, got, e['m'] = gens[op['g']]
                e['form'] = s['messages'][e['m']][1]
                e['g'] = op['g']
                todo = op['n']
                done = False
                while todo:
                    try:
                        x = next(it)
                    except StopIteration:
                        done = True
                        break
                    got.append(x)
                    todo -= 1
                    if type(x) is not bytes:
                        e['bad'] = 1
                        e['show'] = repr(x)[:200]
                if op['n'] < 0:
                    done = True
                e['n'] = len(got)
                if done:
                    e['op'] = 'finished'
                    e['digest'] = digest(got)
                    e['changed'] = int(image(msg) != before)
                    del gens[op['g']]
        except Exception as x:
            import traceback
            e['raised'] = '%s: %s' % (type(x).__name__, traceback.format_exc()[-500:])
            gens.pop(op.get('g'), None)
        out.append(e)
    return out


def run(s):
    if s['prop'] == 'C20':
        return {'steps': stable(s)}
    steps = []
    for op in s['ops']:
        e = crack(op) if op['op'] == 'crack' else body(op)
        steps.append(e if e is not None else {'op': 'skip'})
    return {'steps': steps}


drvlib.main(run, setup)
