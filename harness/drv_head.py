"""Driver for the tokens of header lines: whole messages with empty texts."""
import email
import email.message
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib

M = {}


def setup():
    import sbclassifier.message
    import sbclassifier.tokenizer as tk
    import sbclassifier.strippers as st
    M['tok'] = tk
    M['strip'] = st
    M['defaults'] = {}
    M['from_bytes'] = sbclassifier.message.from_bytes
    M['from_string'] = sbclassifier.message.from_string


def build(op):
    form, raw = op['form'], op.get('raw')
    if form == 'object':
        m = email.message.Message()
        for k, v in op['lines']:
            m[k] = v
        m.set_payload(op.get('payload', ''))
        return m
    if form == 'str':
        return raw
    if form == 'emailstr':
        return email.message_from_string(raw)
    if form == 'string':
        return M['from_string'](raw)
    if form == 'email':
        return email.message_from_bytes(raw.encode('latin-1'))
    return M['from_bytes'](raw.encode('latin-1'))


def ints(x):
    return list(x) if isinstance(x, (bytes, bytearray)) else [-1]


def run(s):
    steps = []
    for op in s['ops']:
        e = {'raised': '', 'tokens': []}
        try:
            m = build(op)
            if 'o' in op:
                drvlib.choose((M['tok'], M['strip']), op['o'])
                drvlib.stand_in(op, (M['tok'], M['strip']))
            if op['basic']:
                got = M['tok'].tokenize(m, basic_header_tokenize=True, basic_header_tokenize_only=op['basic'] == 2)
            else:
                got = M['tok'].tokenize(m)
            e['tokens'] = [list(x) for x in sorted({bytes(ints(x)) if isinstance(x, (bytes, bytearray)) else b'(not bytes)' for x in got})]
        except Exception as x:
            e['raised'] = repr(x)
        steps.append(e)
    return {'steps': steps}


drvlib.main(run, setup)
