"""Driver for the link-following classifier, with a web server on the loopback
interface behind a stand-in for the resolver."""
import email
import hashlib
import http.server
import json
import os
import pickle
import shutil
import socket
import sys
import tempfile
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import drvlib
from c_words import SPAM, HAM, NEUT

M = {}
REAL = drvlib.REAL_RESOLVER['getaddrinfo']
NAMES = {'nores': 'url:non_resolving', 'plain': 'url:non_html', 'image': 'url:non_html', 'noctype': 'url:non_html', 'empty': 'url:non_html',
         'drop': 'url:unknown_error', 'gzip': 'url:unknown_error', 'loop': 'url:unknown_error', 'junk': 'url:unknown_error', 'lost': 'url:unknown_error'}


#: content type, body, words that are certainly among its tokens
PAGES = [
    ('text/html', ' '.join(SPAM).encode(), SPAM),
    ('text/html; charset=utf-8', ' '.join(HAM).encode(), HAM),
    ('text/html', b'<html><body>' + ' '.join(NEUT).encode() + b'</body></html>', NEUT),
    ('text/html; charset=iso-8859-1', b'<a href="http://inner.example/deep/link">' + ' '.join(SPAM[:4]).encode() + b'</a> http://inner.example/x caf\xe9 ', SPAM[:4]),
    ('text/html; charset=utf-8', 'Größe \u20ac '.encode() + ' '.join(SPAM[:3] + HAM[:3]).encode(), SPAM[:3] + HAM[:3]),
    ('text/html', b'', []),
    ('text/html', b'From me\r\nSubject: fake\r\n\r\n' + ' '.join(HAM[:5]).encode() + b'\r\n.\r\nFrom you\n', HAM[:5]),
    ('text/html;x="', b'\x00\x80 ' + ' '.join(NEUT[:3] + SPAM).encode(), NEUT[:3] + SPAM),
]


def outcome(name):
    """What the specification calls an outcome."""
    if ':' in name:
        return {'tok': '', 'page': int(name.split(':')[1])}
    if name.startswith('http_'):
        return {'tok': 'url:' + name, 'page': 0}
    return {'tok': NAMES[name], 'page': 0}


class Handler(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def answer(self, code, headers, body=b''):
        self.send_response_only(code)
        for k, v in headers:
            self.send_header(k, v)
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def page(self, k):
        ctype, body, _w = PAGES[k - 1]
        self.answer(200, [('Content-Type', ctype)], body)

    def do_GET(self):
        web = M['web']
        host = self.headers['Host']
        if self.path.startswith('http://'):
            # We are the proxy.
            self.path = '/' + self.path[7:].partition('/')[2]
        elif M.get('proxied'):
            web.direct += 1
        if host == 'nores.example':
            # A proxy that cannot find the host.
            self.close_connection = True
            return self.connection.shutdown(socket.SHUT_RDWR)
        if host == 'target.example':
            return self.page(int(self.path.split('/')[-1]))
        if host == 'loop.example':
            return self.answer(302, [('Location', 'http://loop.example/again')])
        if host == 'probe.example':
            return self.page(int(self.path.split('/')[-1]))
        j = web.keys.get('http://' + host + self.path, 0)
        web.gets.append(j)
        out = web.world[j - 1] if j else 'http_404'
        if out.startswith('page:'):
            return self.page(int(out.split(':')[1]))
        if out.startswith('redirect:'):
            return self.answer(301, [('Location', 'http://target.example/t/' + out.split(':')[1]), ('Content-Type', 'text/plain')])
        if out.startswith('http_'):
            return self.answer(int(out[5:]), [('Content-Type', 'text/html')], b'<p>' + ' '.join(SPAM).encode())
        if out == 'loop':
            return self.answer(302, [('Location', 'http://loop.example/')])
        if out == 'lost':
            return self.answer(302, [('Location', 'http://nores.example/')])
        if out == 'plain':
            return self.answer(200, [('Content-Type', 'text/plain')], ' '.join(SPAM).encode())
        if out == 'noctype':
            return self.answer(200, [], ' '.join(SPAM).encode())
        if out == 'empty':
            return self.answer(204, [])
        if out == 'gzip':
            return self.answer(200, [('Content-Type', 'text/html'), ('Content-Encoding', 'gzip')], b'this is no gzip')
        if out == 'junk':
            self.wfile.write(b'this is no http\r\n\r\n')
        self.close_connection = True
        self.connection.shutdown(socket.SHUT_RDWR)


class Server(http.server.ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 50

    def handle_error(self, request, client_address):
        pass

    def server_bind(self):
        # without asking for the name of the host
        http.server.socketserver.TCPServer.server_bind(self)
        self.server_name, self.server_port = 'localhost', self.server_address[1]


class Web:
    """The network as the script wants it."""

    def __init__(self, urls, world):
        import requests
        self.urls, self.world = urls, list(world)
        self.keys = {}
        for j, u in enumerate(urls):
            try:
                self.keys[requests.Request('GET', 'http://' + u).prepare().url] = j + 1
            except Exception:
                pass
        self.hosts = {}
        for j, u in enumerate(urls):
            self.hosts.setdefault(u.split('/')[0].split('?')[0].split(':')[0], []).append(j)
        self.gets = []
        self.lookups = 0
        self.direct = 0
        self.server = Server(('127.0.0.1', 0), Handler)
        self.port = self.server.server_address[1]
        threading.Thread(target=self.server.serve_forever, kwargs={'poll_interval': .01}, daemon=True).start()

    def resolve(self, host, port, *args, **kw):
        h = host.decode('ascii', 'replace') if isinstance(host, bytes) else str(host)
        if h == '127.0.0.1':
            return REAL(host, port, *args, **kw)
        self.lookups += 1
        js = self.hosts.get(h, [])
        if h == 'nores.example' or any(self.world[j] == 'nores' for j in js):
            raise socket.gaierror(-2, 'Name or service not known')
        return REAL('127.0.0.1', self.port, socket.AF_INET, socket.SOCK_STREAM)


def text(x):
    return x.decode('latin-1') if isinstance(x, bytes) else 'text:' + repr(x)


def message(parts):
    """The text of a message with these text parts; None is a part that is no text."""
    if len(parts) == 1 and parts[0] is not None:
        return 'Subject: hello\n\n' + parts[0]
    raw = 'Subject: hello\nMIME-Version: 1.0\nContent-Type: multipart/mixed; boundary="=-="\n\nhttp://preamble.example/\n'
    for p in parts:
        raw += '--=-=\n' + ('Content-Type: application/x-data\n\nhttp://data.example/\n' if p is None else '\n' + p + '\n')
    return raw + '--=-=--\nhttp://epilogue.example/\n'


OPTIONS = {'prefix': 'X_WEB_PREFIX', 'base': 'X_ONLY_SLURP_BASE', 'limit': 'X_CACHE_EXPIRY_DAYS', 'dir': 'X_CACHE_DIRECTORY'}


def configure(opts, port):
    mod = M['slurping']
    for k, name in OPTIONS.items():
        if k in opts:
            if not hasattr(mod, name):
                raise RuntimeError('no option ' + name)
            setattr(mod, name, opts[k])
    M['proxied'] = 0
    if opts.get('proxy'):
        M['proxied'] = 1
        mod.PROXY_SERVER, mod.PROXY_PORT, mod.PROXY_USERNAME, mod.PROXY_PASSWORD = '127.0.0.1', port, 'me', 'pw'


class Run:
    def __init__(self, script, web, put, carry=None):
        self.s, self.web, self.put = script, web, put
        self.opts = script.get('opts', {})
        self.prefix = self.opts.get('prefix', '').encode()
        configure(self.opts, web.port)
        if carry:
            with open(carry, 'rb') as f:
                self.c = pickle.load(f)
        elif self.opts.get('bigrams'):
            self.c = M['slurping'].SlurpingClassifier(use_bigrams=True)
        else:
            self.c = M['slurping'].SlurpingClassifier()

    def obs(self, e):
        e['tot'] = [self.c.nspam, self.c.nham]
        e['recs'] = [[text(w), r.spamcount, r.hamcount] for w, r in sorted(self.c.wordinfo.items(), key=lambda x: text(x[0]))]

    def plain(self):
        b = M['basic'].Classifier()
        b.nspam, b.nham = self.c.nspam, self.c.nham
        b.wordinfo = {w: M['basic'].WordInfo(r.spamcount, r.hamcount) for w, r in self.c.wordinfo.items()}
        return b

    def judged(self, res, ev):
        if not ev:
            return {'score': drvlib.scaled(res[0] if isinstance(res, tuple) else res), 'ev': ''}
        p, clues = res
        names = sorted((text(w), '%.7f' % x) for w, x in clues)
        return {'score': drvlib.scaled(p), 'ev': hashlib.sha1(repr(names).encode()).hexdigest()[:10]}

    def step(self, op):
        web = self.web
        e = {'op': op['op'], 'raised': '', 'gets': [], 'lookups': 0}
        web.gets.clear()
        web.lookups = web.direct = 0
        parts = op.get('parts')
        got = []
        tokens = None
        if parts is not None:
            raw = message(parts)
            msg = M['from_string'](raw)
            std = email.message_from_string(raw)
            a = {'op': 'analyze', 'raised': '', 'gets': [], 'lookups': 0,
                 'texts': [list(p.get_payload(decode=True).lower()) for p in std.walk() if p.get_content_maintype() == 'text']}
            stream = M['tok'].tokenize(msg)
            if op['op'] == 'analyze' or not op.get('lazy'):
                try:
                    got.extend(stream)
                except Exception as x:
                    a['raised'] = repr(x)
                a['gets'] = list(web.gets)
                self.put(a)
                if op['op'] == 'analyze':
                    return
                tokens = list(got)
            else:
                self.put(a)

                def spy():
                    for x in stream:
                        got.append(x)
                        yield x
                tokens = spy()
        elif 'words' in op:
            got = [w.encode() for w in op['words']]
            tokens = list(got) if not op.get('lazy') else iter(list(got))
        try:
            if op['op'] in ('learn', 'unlearn'):
                e['k'] = op['k']
                f = self.c.learn if op['op'] == 'learn' else self.c.unlearn
                if op.get('alias'):
                    getattr(self.c, '%s_%s' % (op['op'], op['k']))(tokens)
                else:
                    f(tokens, op['k'] == 'spam')
                e['tokens'] = [text(x) for x in got]
                if self.opts.get('bigrams'):
                    e['tokens'] += ['bi:%s %s' % (text(a), text(b)) for a, b in zip(got, got[1:])]
            elif op['op'] == 'score':
                ev = op.get('ev', 1)
                res = self.c.spamprob(tokens, True) if ev else self.c.spamprob(tokens)
                e['got'] = self.judged(res, ev)
                gets, lookups = list(web.gets), web.lookups
                b = self.plain()
                base = b.spamprob(list(got), True)
                e['base'] = self.judged(base, ev)
                clues = [w for w, _p in base[1][2:]]
                e['many'] = int(len(clues) >= 150)
                e['options'] = []
                for name in M['names'](self.s):
                    out = outcome(name)
                    toks = [self.prefix + w for w in M['pages'][out['page'] - 1]] if out['page'] else [out['tok'].encode()]
                    e['options'].append(dict(self.judged(b.spamprob(list(toks) + clues, True), ev), out=out))
                web.gets[:] = gets
                web.lookups = lookups
            elif op['op'] == 'world':
                self.web.world[op['url'] - 1] = op['out']
                e['url'] = op['url']
                e['out'] = outcome(op['out'])
        except Exception as x:
            e['raised'] = '%s: %s' % (type(x).__name__, traceback.format_exc()[-600:])
        if op['op'] != 'world':
            try:
                self.obs(e)
            except Exception as x:
                e['raised'] = e['raised'] or repr(x)
        e['gets'] = [j for j in web.gets]
        e['lookups'] = web.lookups
        e['direct'] = web.direct
        self.put(e)


def names(s):
    """All outcomes that may matter in a script."""
    ns = {'nores', 'image'} | set(s['world']) | {op['out'] for op in s['ops'] if op['op'] == 'world'}
    seen = {}
    for n in sorted(ns):
        seen.setdefault(json.dumps(outcome(n), sort_keys=True), n)
    return sorted(seen.values())


def child(f):
    """Runs f(put) in a child process; returns what it put."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            out = os.fdopen(w, 'w')

            def put(x):
                out.write(json.dumps(x) + '\n')
                out.flush()
            try:
                f(put)
            except BaseException:
                put({'crash': traceback.format_exc()})
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as inp:
        lines = [json.loads(x) for x in inp]
    os.waitpid(pid, 0)
    return lines


def connect(web):
    M['web'] = web
    drvlib.RESOLVER['getaddrinfo'] = web.resolve


def run(s):
    home = tempfile.mkdtemp(dir=os.getcwd())
    back = os.getcwd()
    os.chdir(home)
    try:
        return history(s)
    finally:
        os.chdir(back)
        shutil.rmtree(home, True)


def history(s):
    segments = [[]]
    for op in s['ops']:
        if op['op'] == 'restart':
            segments.append([])
        segments[-1].append(op)
    world = list(s['world'])
    opts = s.get('opts', {})
    cachedir = opts.get('dir', 'url-cache')
    steps = [{'op': 'pages', 'raised': '', 'gets': [], 'lookups': 0}]
    for ops in segments:
        carry = None
        if ops and ops[0]['op'] == 'restart':
            days = ops[0]['days']
            carry = 'saved' if ops[0].get('carry') else None
            steps.append({'op': 'restart', 'raised': '', 'gets': [], 'lookups': 0, 'days': days, 'carry': int(bool(carry))})
            ops = ops[1:]
            for base, _d, files in os.walk(cachedir):
                for f in files:
                    p = os.path.join(base, f)
                    st = os.stat(p)
                    os.utime(p, (st.st_atime - days * 86400, st.st_mtime - days * 86400))

        def segment(put):
            web = Web(s['urls'], world)
            connect(web)
            r = Run(s, web, put, carry)
            for op in ops:
                r.step(op)
            with open('saved', 'wb') as f:
                pickle.dump(r.c, f)
        got = child(segment)
        bad = [x for x in got if 'crash' in x]
        if bad:
            return bad[0]
        steps += got
        for op in ops:
            if op['op'] == 'world':
                world[op['url'] - 1] = op['out']
    # tokens become numbers
    number = {}

    def num(t):
        return number.setdefault(t, len(number) + 1)
    prefix = opts.get('prefix', '')
    pages = [{'ids': [num(prefix + text(x)) for x in p], 'words': [num(prefix + x) for x in PAGES[j][2]]} for j, p in enumerate(M['pages'])]
    fails = [{'tok': t, 'id': num(t)} for t in sorted({outcome(n)['tok'] for n in names(s)} - {''})]
    for e in steps:
        if 'tokens' in e:
            e['tokens'] = [num(x) for x in e['tokens']]
        if 'recs' in e:
            e['recs'] = [[num(w), a, b] for w, a, b in e['recs']]
    return {'steps': steps, 'n': len(number), 'pages': pages, 'fails': fails, 'urls': [list(u.encode()) for u in s['urls']],
            'world': [outcome(n) for n in s['world']], 'limit': opts.get('limit', M['limit']), 'base': opts.get('base', 0),
            'proxy': opts.get('proxy', 0), 'names': sorted(number, key=number.get)}


def setup():
    import sbclassifier.classifiers.basic as basic
    import sbclassifier.classifiers.slurping as slurping
    import sbclassifier.message as message_
    import sbclassifier.tokenizer as tok
    M.update(basic=basic, slurping=slurping, tok=tok, from_string=message_.from_string, names=names)
    M['limit'] = int(getattr(slurping, 'X_CACHE_EXPIRY_DAYS', 7))
    # as the class tells its users
    tok.crack_urls = slurping.SlurpingURLStripper().analyze

    def probe(put):
        os.chdir(tempfile.mkdtemp(dir=os.getcwd()))
        connect(Web([], []))
        for k in range(1, len(PAGES) + 1):
            c = slurping.SlurpingClassifier()
            list(tok.tokenize(message_.from_string('\nhttp://probe.example/%d' % k)))
            c.learn([], True)
            put([text(x) for x in sorted(c.wordinfo)])
    pages = child(probe)
    if any(isinstance(p, dict) for p in pages) or len(pages) != len(PAGES):
        raise RuntimeError('pages cannot be learned: %s' % pages[-1:])
    M['pages'] = [[x.encode('latin-1') for x in p] for p in pages]


drvlib.main(run, setup)
