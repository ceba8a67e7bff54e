"""Common code of the drivers: read scripts, write one observation per script."""
import json
import os
import re
import socket
import sys
import traceback
import types


# The resolver, reached through these even by code that imported the functions by name.
REAL_RESOLVER = {n: getattr(socket, n) for n in ('getaddrinfo', 'gethostbyaddr')}
RESOLVER = dict(REAL_RESOLVER)
socket.getaddrinfo = lambda *a, **k: RESOLVER['getaddrinfo'](*a, **k)
socket.gethostbyaddr = lambda *a, **k: RESOLVER['gethostbyaddr'](*a, **k)


def main(run_script, setup=None):
    with open(sys.argv[1]) as f:
        scripts = json.load(f)
    out = os.open(sys.argv[2], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
    try:
        if setup:
            setup()
    except BaseException:
        # The code under test cannot even be imported or set up: every script fails.
        err = traceback.format_exc()
        for s in scripts:
            os.write(out, (json.dumps({'id': s['id'], 'crash': err}) + '\n').encode())
        os._exit(0)
    for s in scripts:
        try:
            res = run_script(s)
        except BaseException:
            res = {'crash': traceback.format_exc()}
        res['id'] = s['id']
        os.write(out, (json.dumps(res) + '\n').encode())
    os._exit(0)


def scaled(x, unit=10**9):
    """A float in [0, 1] as an integer; values outside give -1 or -2."""
    try:
        if not (-1e-9 <= x <= 1 + 1e-9):
            return -1
        return int(round(x * unit))
    except Exception:
        return -2


# ---- options of the tokenizer ----
OPTIONS = {'count': 'COUNT_ALL_HEADER_LINES', 'absence': 'RECORD_HEADER_ABSENCE', 'received': 'MINE_RECEIVED_HEADERS',
           'prefixes': 'SUMMARIZE_EMAIL_PREFIXES', 'suffixes': 'SUMMARIZE_EMAIL_SUFFIXES', 'habeas': 'X_SEARCH_FOR_HABEAS_HEADERS',
           'reduce': 'X_REDUCE_HABEAS_HEADERS', 'news': 'X_MINE_NNTP_HEADERS', 'blot': 'REPLACE_NONASCII_CHARS', 'pick': 'X_PICK_APART_URLS',
           'noskip': 'GENERATE_LONG_SKIPS', 'short': 'X_SHORT_RUNS', 'images': 'IMAGE_SIZE', 'octets': 'CHECK_OCTETS',
           'lookup': 'X_LOOKUP_IP'}


def choose(modules, o):
    """Set the options; GENERATE_LONG_SKIPS is the only one that is on by default."""
    for k, name in OPTIONS.items():
        mods = [m for m in modules if hasattr(m, name)]
        if not mods:
            raise AttributeError(name)
        for m in mods:
            setattr(m, name, not o[k] if k == 'noskip' else bool(o[k]))


def stand_in(op, modules=()):
    """A resolver that knows the names of the script."""
    def real(host):
        # what the real one does with names first
        if isinstance(host, str):
            host.encode('idna')
            host = host.split('\0')[0]
        else:
            host = bytes(host).decode('ascii')
        return host

    def getaddrinfo(host, port, *a, **k):
        got = op['names'].get(real(host))
        if not got:
            raise socket.gaierror(-2, 'Name or service not known')
        return [(socket.AF_INET, t, 6, '', (x, port)) for x in got for t in (1, 2)]

    def gethostbyaddr(addr):
        if '%' in real(addr):
            raise socket.gaierror(-2, 'Name or service not known')
        if addr not in op['hosts']:
            raise socket.herror(1, 'Unknown host')
        return (op['hosts'][addr], [], [addr])

    def lookup(host, *a, **k):
        # a cache of a resolver, as that of the package spambayes: the addresses of a host
        host = re.sub(r':\d*$', '', host.rpartition('@')[2])
        return list(op['names'].get(host, []))
    for m in modules:
        if hasattr(m, 'cache'):
            m.cache = types.SimpleNamespace(lookup=lookup, close=lambda: None)
    RESOLVER.update(getaddrinfo=getaddrinfo, gethostbyaddr=gethostbyaddr)
