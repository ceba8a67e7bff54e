"""Runs histories on real messages: identity, headers, marks, line ends."""
import email
import hashlib
import pickle
import traceback
from email.generator import Generator
from email.policy import Compat32
from io import StringIO

import drvlib


def setup():
    global message, Classification
    from sbclassifier import message
    from sbclassifier.message import Classification


class AsRead(Compat32):
    """Header lines of plain text are written as they are, however long."""
    def fold(self, name, value):
        if isinstance(value, str) and value.isascii():
            return name + ': ' + value + self.linesep
        return super().fold(name, value)


class Reference(Generator):
    def _handle_multipart(self, msg):
        if isinstance(msg._payload, str):
            self.write(msg._payload)
        else:
            super()._handle_multipart(msg)


def ints(text):
    return [ord(c) for c in text]


def ident(x):
    if x is None:
        return []
    return [ints(x)] if isinstance(x, str) else [[-1]]


def classname(c):
    if c is None:
        return 'none'
    return c.name if isinstance(c, Classification) else 'other'


def markname(t):
    return 'none' if t is None else 'spam' if t is True else 'ham' if t is False else 'other'


def body(m):
    p = m.get_payload()
    if isinstance(p, list):
        p = [x.as_bytes() for x in p]
    return hashlib.md5(repr((p, m.preamble, m.epilogue)).encode()).hexdigest()


def observe(m):
    return {'id': ident(m.id()), 'cls': classname(m.classification()), 'mark': markname(m.is_trained()),
            'hdrs': [{'n': n, 'l': n.lower(), 'v': ints(v) if isinstance(v, str) else [-1]} for n, v in m.raw_items()],
            'body': body(m)}


def arg_of(op):
    a = op['arg']
    if a['t'] == 'text':
        return ''.join(map(chr, a['v']))
    if a['t'] == 'none':
        return None
    return {'int': 17, 'bytes': b'abc', 'float': 1.5, 'tuple': ('a',), 'list': ['a'], 'header': email.header.Header('abc'),
            'zero': 0, 'false': False, 'same': ints}[op.get('other', 'int')]


def classes(names, how):
    cs = [Classification[n] for n in names]
    return {'tuple': tuple, 'list': list, 'set': set}[how](cs)


class Boom(Exception):
    pass


EXC = {'value': ValueError, 'boom': Boom, 'key': KeyError, 'os': OSError, 'base': KeyboardInterrupt}


def fail(op):
    if op.get('chain'):
        try:
            raise RuntimeError('first\nof all')
        except RuntimeError as e:
            raise EXC[op['exc']](op['what']) from e
    raise EXC[op['exc']](op['what'])


def text_step(op):
    e = {'op': op['op'], 'raised': '', 'out': [], 'text': [], 'details': [], 'want': [], 'ident': []}
    try:
        if op['op'] == 'crlf':
            e['text'] = ints(op['text'])
            e['out'] = ints(message.force_crlf(op['text']))
        elif op['op'] == 'text':
            parse = email.message_from_bytes if op.get('bytes') else email.message_from_string
            src = op['text'].encode('latin-1') if op.get('bytes') else op['text']
            kw = dict(op.get('kw', {}))
            try:
                fp = StringIO()
                lf = op['text'].replace('\r\n', '\n').replace('\r', '\n')
                Reference(fp, mangle_from_=kw.get('mangle_from_', True), policy=AsRead()).flatten(
                    parse(lf.encode('latin-1') if op.get('bytes') else lf), kw.get('unixfrom', False))
            except Exception:
                e['op'] = 'skip'
                return e
            m = message.from_bytes(src) if op.get('bytes') else message.from_string(src)
            e['text'] = ints(fp.getvalue())
            if kw.get('unixfrom') and 'From nobody' in fp.getvalue()[:11]:
                # The envelope line has the current time.
                e['op'] = 'skip'
                return e
            e['out'] = ints(m.as_string(**kw))
        else:
            e['text'] = ints(op['text'])
            e['ident'] = ints(op.get('ident') or '')
            try:
                fail(op)
            except BaseException:
                e['want'] = ints(traceback.format_exc())
                if op.get('ident') is None:
                    out = message.insert_exception_header(op['text'])
                else:
                    out = message.insert_exception_header(op['text'], op['ident'])
            e['out'], e['details'] = ints(out[0]), ints(out[1])
    except BaseException as err:
        e['raised'] = type(err).__name__
        e['what'] = str(err)[:200]
    return e


def begin(s, raw):
    """The message of a script; its identifier, if any, is given in one of the possible ways."""
    mid = s.get('mid')
    way = s['id'] % 4 if mid is not None else 0
    args = {'message_id': mid} if way in (1, 2) else {}
    m = message.from_string(s['raw'], **args) if s.get('text') else message.from_bytes(raw, **args)
    if way == 3:
        x = message.Message(mid) if s['id'] % 8 == 3 else message.Message(message_id=mid)
        for n, v in m.raw_items():
            x.set_raw(n, v)
        x.set_payload(m.get_payload())
        x.preamble, x.epilogue = m.preamble, m.epilogue
        return x
    if way == 0 and mid is not None:
        m.set_id(mid)
    return m


def run_script(s):
    if s['prop'] == 'C19':
        return {'steps': [text_step(op) for op in s['ops']]}
    raw = s['raw'].encode('latin-1')
    m = begin(s, raw)
    steps = [{'op': 'start', 'mid': ident(s.get('mid')), 'obs': observe(m)}]
    for op in s['ops']:
        e = {'op': op['op'], 'raised': ''}
        try:
            if op['op'] == 'classify':
                m.set_classification(op['prob'])
            elif op['op'] == 'class':
                m.set_classification(Classification[op['x']])
            elif op['op'] == 'add':
                kw = dict(op['kw'])
                for n in ('notate_to', 'notate_subject'):
                    if kw.get(n) is not None:
                        kw[n] = classes(*kw[n])
                clues = [(w.encode('latin-1'), k / 10**6) for w, k in op['clues']]
                m.add_sb_headers(op['prob'], clues if op.get('list', 1) else tuple(clues), **kw)
            elif op['op'] == 'notate':
                m.add_notations(classes(op['to'], 'tuple'), classes(op['subj'], 'list'))
            elif op['op'] == 'remove':
                m.remove_sb_headers(**op['kw'])
            elif op['op'] == 'unmark':
                m.remove_notations(**op['kw'])
            elif op['op'] == 'report':
                e['report'] = []
                for n, v in m.current_sb_headers().items():
                    first = next((x for y, x in m.raw_items() if y.lower() == n.lower()), '')
                    plain = int(isinstance(v, str) and first.isascii())
                    e['report'].append({'l': n.lower(), 'v': ints(v) if plain else [], 'plain': plain})
            elif op['op'] == 'setid':
                m.set_id(arg_of(op))
            elif op['op'] == 'payload':
                first = next((x for y, x in m.raw_items() if y.lower() == 'x-spambayes-mailid'), '')
                e['plain'] = int(not any(0xdc80 <= ord(c) <= 0xdcff for c in first))
                e['res'] = []
                e['res'] = ident(m.set_id_from_payload())
            elif op['op'] == 'remember':
                m.remember_trained({'spam': True, 'ham': False, 'none': None}[op['x']])
            elif op['op'] == 'restore':
                e['copies'] = []
                for p in range(2, 6):
                    c = pickle.loads(pickle.dumps(m, p))
                    e['copies'].append({'id': ident(c.id()), 'cls': classname(c.classification()), 'mark': markname(c.is_trained())})
                new = message.Message()
                for n, v in m.raw_items():
                    new.set_raw(n, v)
                new.set_payload(m.get_payload())
                if op.get('used'):
                    new.remember_trained(True)
                    new.set_classification(0.5)
                new.__setstate__(m.__getstate__())
                m = new
        except BaseException as err:
            e['raised'] = type(err).__name__
            e['what'] = str(err)[:200]
        e['obs'] = observe(m)
        steps.append(e)
    return {'steps': steps}


drvlib.main(run_script, setup)
