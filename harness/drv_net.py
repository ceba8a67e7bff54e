"""Driver for name lookups and address clues. The resolver is a stand-in."""
import ipaddress
import os
import socket
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib

M = {}
ADDRS = ['192.0.2.1', '192.0.2.7', '2001:db8::1']


class Odd(Exception):
    pass


ERRORS = {
    'timeout': [lambda: socket.timeout('timed out'), lambda: TimeoutError(110, 'timed out')],
    'noname': [lambda: socket.herror(1, 'Unknown host')],
    'error': [lambda: OSError(24, 'Too many open files'), lambda: UnicodeError('label too long'), lambda: ValueError('embedded null'),
              KeyboardInterrupt, MemoryError, SystemExit, Odd, RecursionError, lambda: ConnectionRefusedError(111, 'refused'), lambda: BlockingIOError(11, 'again')],
}


class Lookups:
    """Executes a list of operations in which lookups are properly nested."""

    def __init__(self, ops):
        self.ops = list(ops)
        self.steps = []
        self.n = 0
        self.open = []

    def now(self):
        return repr(socket.getdefaulttimeout())

    def note(self, op, **kw):
        e = {'op': op, 'kind': '', 'outcome': '', 'result': '', 'v': '', 'timeout': self.now()}
        e.update(kw)
        self.steps.append(e)

    def run(self):
        while self.ops:
            op = self.ops.pop(0)
            if op['op'] == 'set':
                socket.setdefaulttimeout(op['v'])
                v = op['v']
                self.note('set', v=repr(v if v is None else float(v)))
            elif op['op'] == 'begin':
                self.lookup(op)
            else:
                raise RuntimeError('badly nested')

    def lookup(self, op):
        self.n += 1
        me = {'kind': op['kind'], 'arg': 'host%d.example' % self.n if op['kind'] == 'forward' else '10.0.%d.%d' % (self.n // 250, self.n % 250 + 1),
              'state': 'new', 'end': None}
        self.open.append(me)
        f = M['dns'].dns_lookup if op['kind'] == 'forward' else M['dns'].reverse_dns_lookup
        try:
            r = f(me['arg'])
            try:
                r = list(r)
                want = ADDRS if op['kind'] == 'forward' else ['name.of.' + me['arg']]
                res = 'empty' if not r else 'answer' if sorted(set(r)) == sorted(want) else 'other'
            except BaseException as x:
                res = 'not a collection'
        except BaseException as x:
            res = 'raised'
        self.open.pop()
        if me['state'] == 'new':
            # never asked: the lookup is not one
            self.note('begin', kind=op['kind'])
            depth = 1
            while depth:
                o = self.ops.pop(0)
                depth += {'begin': 1, 'end': -1}.get(o['op'], 0)
            me['end'] = o
        self.note('end', kind=op['kind'], outcome=me['end']['outcome'], result=res)

    def resolve(self, kind, arg):
        me = self.open[-1] if self.open else None
        if me is None or me['kind'] != kind or me['arg'] != arg:
            raise RuntimeError('unexpected lookup of %r' % (arg,))
        if me['state'] == 'new':
            me['state'] = 'asked'
            self.note('begin', kind=kind)
            while self.ops[0]['op'] == 'begin':
                self.lookup(self.ops.pop(0))
            me['end'] = self.ops.pop(0)
        out = me['end']['outcome']
        if out != 'answer':
            if out == 'noname' and kind == 'forward':
                raise socket.gaierror(-2, 'Name or service not known')
            pool = ERRORS[out]
            raise pool[me['end'].get('which', 0) % len(pool)]()
        if kind == 'reverse':
            return ('name.of.' + arg, [], [arg])
        return [(socket.AF_INET6 if ':' in a else socket.AF_INET, socket.SOCK_STREAM, p, '', (a, 80) + ((0, 0) if ':' in a else ())) for a in ADDRS for p in (6, 17)]


def lookups(s):
    run = M['run'] = Lookups(s['ops'])
    d = s['default']
    socket.setdefaulttimeout(d)
    limit = getattr(M['dns'], 'DEFAULT_TIMEOUT', 10)
    try:
        run.run()
    finally:
        socket.setdefaulttimeout(None)
    return {'steps': run.steps, 'default': repr(d if d is None else float(d)), 'limit': repr(float(limit))}


def networks(s):
    ip = M['ip']
    out = []
    for op in s['ops']:
        e = dict(op, result=[], raised='')
        text = '.'.join(map(str, op['addr']))
        a = text if op['form'] == 'text' else ipaddress.IPv4Address(text)
        try:
            if op['op'] == 'clues':
                e['result'] = [str(x) for x in ip.gen_dotted_quad_clues(op['prefix'], a)]
            elif op['default']:
                e['result'] = [str(x) for x in ip.subnets(a)]
            else:
                ls = {0: list, 1: tuple, 2: iter}[op['seq']](op['lengths'])
                e['result'] = [str(x) for x in ip.subnets(a, ls)]
        except Exception as x:
            e['raised'] = repr(x)
        out.append(e)
    return {'steps': out}


def setup():
    def getaddrinfo(host, port, *args, **kw):
        return M['run'].resolve('forward', host)

    def gethostbyaddr(address):
        return M['run'].resolve('reverse', address)
    socket.getaddrinfo = getaddrinfo
    socket.gethostbyaddr = gethostbyaddr
    import sbclassifier.dnsutils
    import sbclassifier.iputils
    M['dns'] = sbclassifier.dnsutils
    M['ip'] = sbclassifier.iputils


drvlib.main(lambda s: lookups(s) if s['prop'] == 'C24' else networks(s), setup)
