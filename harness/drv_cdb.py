"""Writes and reads constant databases with the real code.

A script: {pairs: [[key, value]...], ops: [...], source: kind of iterable}.
Keys and values are shipped as ['s', text] or ['b', latin-1 text].
"""
import os
import tempfile

import drvlib


def setup():
    global Cdb, cdb_make
    from sbclassifier.cdb import Cdb, cdb_make


def decode(x):
    return x[1].encode('latin-1') if x[0] == 'b' else x[1]


def ints(b):
    return list(b)


def run_script(s):
    pairs = [(decode(k), decode(v)) for k, v in s['pairs']]
    steps = []

    def step(op, fn, **kw):
        e = dict(op=op, raised='', **kw)
        try:
            e.update(fn())
        except BaseException as x:
            e['raised'] = type(x).__name__
            e['what'] = str(x)[:200]
        steps.append(e)
        return e

    with tempfile.TemporaryDirectory(dir=os.getcwd()) as d:
        path = os.path.join(d, 'x.cdb')

        def create():
            src = pairs
            if s['source'] == 'gen':
                src = (p for p in pairs)
            elif s['source'] == 'lists':
                src = [list(p) for p in pairs]
            with open(path, 'wb') as f:
                cdb_make(f, src)
            return {}
        if step('create', create)['raised']:
            return {'steps': steps}

        def whole():
            with open(path, 'rb') as f:
                return {'bytes': ints(f.read())}
        step('file', whole)
        state = {}

        def reader():
            state['fp'] = open(path, 'rb')
            state['db'] = Cdb(state['fp'])
            return {}
        if step('create', reader)['raised']:
            return {'steps': steps}
        its = {}
        for op in s['ops']:
            db = state['db']
            if op['op'] == 'get':
                key = decode(op['key'])
                kb = ints(key.encode('utf-8', 'surrogatepass') if isinstance(key, str) else key)

                def get():
                    how = op['how']
                    if how == 'item':
                        try:
                            return {'found': 1, 'res': ints(db[key])}
                        except KeyError:
                            return {'found': 0, 'res': []}
                    miss = object()
                    r = db.get(key, miss) if how == 'default' else db.get(key)
                    if r is miss or r is None:
                        return {'found': 0, 'res': []}
                    return {'found': 1, 'res': ints(r)}
                step('get', get, key=kb)
            elif op['op'] == 'all':
                # Every value of a key, one after another.
                key = decode(op['key'])
                kb = ints(key.encode('utf-8', 'surrogatepass') if isinstance(key, str) else key)

                def all_of():
                    res = []
                    try:
                        if op['how'] == 'start':
                            db.findstart()
                            res.append(ints(db.findnext(key)))
                        elif op['how'] == 'get':
                            v = db.get(key)
                            if v is None:
                                return {'res': []}
                            res.append(ints(v))
                        else:
                            res.append(ints(db[key]))
                        while len(res) <= len(pairs):
                            res.append(ints(db.findnext(key)))
                    except KeyError:
                        pass
                    return {'res': res}
                step('all', all_of, key=kb)
            elif op['op'] == 'walk':
                # An iteration with lookups in between.
                def walk():
                    res = []
                    for n, (k, v) in enumerate(db):
                        res.append([ints(k), ints(v)])
                        if n < len(pairs):
                            db.get(pairs[-1 - n][0])
                    return {'res': res}
                step('items', walk)
            elif op['op'] == 'items':
                f = {'items': db.items, 'iteritems': db.iteritems, 'iter': db.__iter__}[op['how']]
                step('items', lambda: {'res': [[ints(k), ints(v)] for k, v in f()]})
            elif op['op'] == 'keys':
                f = {'keys': db.keys, 'iterkeys': db.iterkeys}[op['how']]
                step('keys', lambda: {'res': [ints(k) for k in f()]})
            elif op['op'] == 'values':
                f = {'values': db.values, 'itervalues': db.itervalues}[op['how']]
                step('values', lambda: {'res': [ints(v) for v in f()]})
            elif op['op'] == 'reopen':
                def again():
                    state['db'].close()
                    state['fp'].close()
                    return reader()
                if step('create', again)['raised']:
                    return {'steps': steps}
        state['db'].close()
        state['fp'].close()
    return {'steps': steps}


drvlib.main(run_script, setup)
