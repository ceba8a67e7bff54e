"""C11, C12, C13, C14, C15, C26: corpora, their signals, trainers, expiry."""
import vlib

TCFG = 'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n'
WORDS = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'zeta', 'viagra', 'meeting', 'cheap', 'report', 'lunch', 'x',
         'supercalifragilistic', 'someone@example.com', 'http://www.example.com/a/b', 'money', 'caf\xc3\xa9']
PLAIN = ['m1', 'm2', 'm3', 'm4', 'm5', 'm10', 'a', 'b', 'ab', 'x.eml', 'y.eml', 'z.txt', 'M1', 'msg-7']
ODD = ['.hidden', 'a b', '\xe9t\xe9', '-x', '~', '#1#', '..x', '...', 'x.eml.bak', '*', '[a]', '?', 'm1 ', '0', 'None',
       'a\nb', 'caf\u20ac', "'", '$HOME', 'y' * 120, '\\', 'a\\b', '%2e%2e%2f', '=?utf-8?q?x?=']
EVIL = ['../x', '../victim', '@ROOT@/victim', '@ROOT@/x', '../corpus2/m1', '../corpus1/../x', '..', '.', '', '/',
        '../sub/victim', 'x\0y', '../../x', '@ROOT@/sub', '@ROOT@/sub/victim', '..//victim', './../victim', '../.',
        '../victim\0', '@ROOT@/corpus2/m1', '/../x']
OUTSIDE = ['victim', 'x', 'sub/victim', 'm1', 'msg.txt']


def lit(text):
    return [{'t': 'lit', 'c': ord(c), 'cs': [], 'neg': 0} for c in text]


ANY = {'t': 'any', 'c': 0, 'cs': [], 'neg': 0}
ONE = {'t': 'one', 'c': 0, 'cs': [], 'neg': 0}


def cset(chars, neg=0):
    return {'t': 'set', 'c': 0, 'cs': [ord(c) for c in chars], 'neg': neg}


FILTERS = [(None, [ANY]), ('*', [ANY]), ('*.eml', [ANY] + lit('.eml')), ('m*', lit('m') + [ANY]),
           ('m[0-9]*', lit('m') + [cset('0123456789'), ANY]), ('?', [ONE]), ('??', [ONE, ONE]),
           ('[!a]*', [cset('a', 1), ANY]), ('*[ab]*', [ANY, cset('ab'), ANY]), ('msg-?', lit('msg-') + [ONE]),
           ('x.eml', lit('x.eml')), ('*.*', [ANY] + lit('.') + [ANY])]


def matches(pat, name):
    """Used only to choose histories; the verdict is the specification's."""
    if not pat:
        return not name
    h = pat[0]
    if h['t'] == 'any':
        return any(matches(pat[1:], name[j:]) for j in range(len(name) + 1))
    if not name:
        return False
    if h['t'] == 'lit' and ord(name[0]) != h['c']:
        return False
    if h['t'] == 'set' and (ord(name[0]) in h['cs']) == bool(h['neg']):
        return False
    return matches(pat[1:], name[1:])


def plain(name):
    return name not in ('', '.', '..') and '/' not in name and '\0' not in name


def raw_message(rng, j):
    """Text of message j as latin-1; all are different."""
    words = ' '.join(rng.choice(WORDS) for _ in range(rng.randrange(6)))
    style = rng.randrange(6)
    if style == 0:
        return '\nbody %d %s\n' % (j, words)
    if style == 1:
        return 'Subject: %d %s\n\n' % (j, words[:40].replace('\xc3\xa9', 'e'))
    if style == 2:
        return ('From: a%d@example.com\nContent-Type: multipart/mixed; boundary="qq"\n\n--qq\n\n%s\n--qq\n'
                'Content-Type: text/html\n\n<b>%d</b>\n--qq--\n' % (j, words, j))
    if style == 3:
        return 'From: x\nSubject: s%d\nTo: y\n\n%s\xff\xfe %d\n' % (j, words, j)
    if style == 4:
        return 'X-Number: %d\n\nFrom nobody %s\n' % (j, words)
    return 'Subject: s\nDate: today %d\n\n%s\n\n%s\n' % (j, words, words)


class Conf:
    def __init__(self, kind, limit=0, pattern=None, cache=None, age=0):
        self.kind, self.limit, self.cache, self.age = kind, limit, cache, age
        self.pattern, self.pat = pattern or FILTERS[0]
        self.init, self.dirs, self.given = [], [], False

    def script(self):
        return {'kind': self.kind, 'limit': self.limit, 'pattern': self.pattern, 'cache': self.cache, 'age': self.age,
                'init': self.init, 'dirs': self.dirs, 'given': self.given, 'pat': self.pat}


class Gen:
    """Builds a script; keeps track of what is where so as to stay within the properties."""

    def __init__(self, rng, prop, confs, names, versions, watch=(), nclf=0):
        self.rng, self.prop, self.confs, self.names = rng, prop, confs, names
        self.versions = versions
        self.objs = []
        for v in range(versions):
            for k in range(1, len(names) + 1):
                via = 'header' if prop == 'C26' and rng.random() < .4 else 'id'
                if prop in ('C12', 'C15') and rng.random() < .15:
                    # A message without an identifier: it is stored under a key that is given.
                    via = 'none'
                raw = '' if prop == 'C12' and not self.objs and rng.random() < .2 else raw_message(rng, len(self.objs))
                self.objs.append({'k': k, 'raw': raw, 'via': via})
        self.watch, self.nclf = list(watch), nclf
        self.ops = []
        self.at = [[] for _ in confs]          # (key, object, trained) in order
        self.used = [set() for _ in confs]     # objects ever added with a signal
        self.outside = []
        self.see_p = 1.0

    def nobj(self, k, v):
        return (v - 1) * len(self.names) + k

    def has(self, c, k):
        return next((x for x in self.at[c - 1] if x[0] == k), None)

    def storable(self, c, k):
        f = self.confs[c - 1]
        return f.kind == 'mem' or (plain(self.names[k - 1]) and matches(f.pat, self.names[k - 1]))

    def emit(self, op, c=0, see=None, **kw):
        d = {'op': op, 'c': c}
        d.update(kw)
        if see is None:
            see = list(range(1, len(self.confs) + 1)) if self.rng.random() < self.see_p else []
        d['see'] = see
        if self.rng.random() < .2:
            d['explicit'] = 1
        self.ops.append(d)

    def add(self, c, o, k=None, emit=1, fails=0, **kw):
        k = k or self.objs[o - 1]['k']
        if self.storable(c, k) and not fails:
            old = self.has(c, k)
            trained = int(bool(emit and not kw.get('broken')))
            if old:
                self.at[c - 1][self.at[c - 1].index(old)] = (k, o, trained)
            else:
                self.at[c - 1].append((k, o, trained))
                lim = self.confs[c - 1].limit
                if lim and len(self.at[c - 1]) > lim:
                    self.at[c - 1].pop(0)
            self.used[c - 1].add(o)
        if fails:
            kw['fails'] = fails
        if self.rng.random() < .15 or self.objs[o - 1]['via'] == 'none':
            kw['givekey'] = 1
        self.emit('add', c, o=o, k=k, emit=emit, **kw)

    def remove(self, c, o, emit=1, drop=False, k=None, **kw):
        k = k or self.objs[o - 1]['k']
        if self.objs[o - 1]['via'] == 'none' and not drop:
            # It does not know its key: only what was looked up can be removed.
            if not self.has(c, k) or not self.storable(c, k) or self.prop == 'C15':
                return
            drop = True
        if self.storable(c, k):
            self.at[c - 1] = [x for x in self.at[c - 1] if x[0] != k]
        if drop:
            self.emit('drop', c, k=k, emit=emit, **kw)
        else:
            self.emit('remove', c, o=o, k=k, emit=emit, **kw)

    def script(self, **kw):
        s = {'prop': self.prop, 'corpora': [f.script() for f in self.confs], 'names': self.names, 'objs': self.objs,
             'watch': self.watch, 'nclf': self.nclf, 'ops': self.ops, 'outside': self.outside}
        s.update(kw)
        return s

    def fill(self, c, keys, ages=None, version=1):
        for k in keys:
            o = self.nobj(k, version)
            age = ages(k) if ages else self.rng.choice([0, 5, 1000])
            self.confs[c - 1].init.append([k, o, age])
            self.at[c - 1].append((k, o, 0))


def some_names(rng, n, pool=None):
    pool = pool or (PLAIN if rng.random() < .5 else PLAIN + ODD)
    return rng.sample(pool, n)


def from_path(rng, prop, path, confs, names, versions, **kw):
    """Replay of a path of MCCorpus."""
    g = Gen(rng, prop, confs, names, versions, **kw)
    for tr in path:
        a = tr['act']
        c, o = a['c'], a['o']
        if rng.random() < .1 and prop != 'C14':
            g.emit(rng.choice(['query', 'gc'] if confs[c - 1].kind == 'mem' else ['query', 'reopen', 'gc']), c)
        if a['op'] == 'add':
            g.add(c, o)
        elif a['op'] == 'remove':
            there = g.has(c, g.objs[o - 1]['k'])
            g.remove(c, o, drop=bool(there) and rng.random() < .3)
        else:
            first = rng.random() < .5
            if first:
                g.add(a['c2'], o)
            g.remove(c, o)
            if not first:
                g.add(a['c2'], o)
    return g.script()


def mem(rng, limit=None):
    f = Conf('mem', limit=rng.choice([0, 0, 1, 2, 3, 7]) if limit is None else limit)
    f.given = rng.random() < .5
    return f


def filec(rng, pattern=None, kind='file', age=0):
    return Conf(kind, pattern=pattern or rng.choice(FILTERS if rng.random() < .5 else FILTERS[:2]),
                cache=rng.choice([None, 0, 1, 2, 3, 256]), age=age)


# ---- C11 ----

def c11(ctx):
    rng = ctx.rng
    scripts = []
    for limit in (0, 1, 2) + ((3,) if ctx.thorough() else ()):
        n = ctx.pick(3, 4) if limit else 3
        items = ctx.model_check('MCCorpus', MC % (n, 2, 1, limit, 'TRUE'))
        for path in vlib.tours(items, rng, max_len=40):
            scripts.append(from_path(rng, 'C11', path, [mem(rng, limit)], some_names(rng, n), 2))
    for _ in range(ctx.pick(300, 4000)):
        n = rng.choice([3, 6, 14])
        g = Gen(rng, 'C11', [mem(rng)], some_names(rng, n), 2)
        for _ in range(rng.choice([10, 40])):
            o = rng.randint(1, 2 * n)
            r = rng.random()
            if r < .6:
                # A key may be given that is not the message's own.
                g.add(1, o, k=rng.randint(1, n) if rng.random() < .2 else None, emit=rng.choice([1, 1, 0]))
            elif r < .9:
                g.remove(1, o, emit=rng.choice([1, 1, 0]))
            else:
                g.emit(rng.choice(['query', 'look']), 1, k=rng.randint(1, n))
            if g.ops[-1]['op'] in ('add', 'remove') and g.ops[-1].get('emit', 1) == 0 and rng.random() < .5:
                # The cache is used without the corpus.
                g.ops[-1]['how'] = 'cache'
        scripts.append(g.script())
    return scripts


MC = ('SPECIFICATION Spec\nVIEW View\nINVARIANTS Bounded KeysUnique TrainedAreStored\nPROPERTIES FirstInFirstOut OrderKept '
      'NewestStays\nACTION_CONSTRAINT Emit\nCONSTANTS NKeys = %d Versions = %d Corpora = %d Limit = %d Replace = %s\n')


# ---- C12 ----

def fill_dir(g, c, p=.5):
    """Files that are in the directory before it is opened."""
    rng = g.rng
    keys = [k for k in range(1, len(g.names) + 1) if plain(g.names[k - 1]) and rng.random() < p]
    g.fill(c, keys, version=rng.randint(1, g.versions))
    if rng.random() < .4:
        g.confs[c - 1].dirs = [d for d in rng.sample(['adir', 'm99', 'd.eml', 'q'], 2)]


def c12(ctx):
    rng = ctx.rng
    scripts = []
    items = ctx.model_check('MCCorpus', MC % (3, 2, 1, 0, 'TRUE'))
    for path in vlib.tours(items, rng, max_len=30):
        for cache in rng.sample((0, 1, 2, None), ctx.pick(1, 4)):
            f = Conf('file', cache=cache)
            scripts.append(from_path(rng, 'C12', path, [f], some_names(rng, 3), 2))
    for _ in range(ctx.pick(300, 6000)):
        n = rng.choice([3, 6, 12])
        confs = [filec(rng) for _ in range(rng.choice([1, 1, 2]))]
        g = Gen(rng, 'C12', confs, some_names(rng, n), 2)
        for c in range(1, len(confs) + 1):
            if rng.random() < .6:
                fill_dir(g, c, rng.choice([.3, .8]))
        g.see_p = rng.choice([1, .4])
        for _ in range(rng.choice([8, 25])):
            c = rng.randint(1, len(confs))
            o = rng.randint(1, 2 * n)
            k = g.objs[o - 1]['k']
            if rng.random() < .2:
                k = rng.randint(1, n)
            r = rng.random()
            if r < .4:
                # Sometimes under a key that is not the message's own identifier.
                g.add(c, o, k=k, emit=rng.choice([1, 1, 0]))
            elif r < .6:
                g.remove(c, o, emit=rng.choice([1, 1, 0]))
            elif r < .7 and g.has(c, k) and g.storable(c, k):
                g.remove(c, o, k=k, drop=True)
            elif r < .8:
                g.emit('look', c, k=k)
            elif r < .9:
                g.emit('reopen', c)
            elif r < .93 and not g.has(c, k):
                # Somebody else puts a new file there.
                g.at[c - 1].append((k, o, 0))
                g.emit('plant', c, o=o, k=k, age=0, how=rng.choice(['file', 'file', 'link']))
            elif r < .96:
                g.add(c, o, k=k, fails=2 if g.has(c, k) else rng.choice([1, 2]))
            else:
                g.emit('gc', c)
        g.emit('query', 1, see=list(range(1, len(confs) + 1)))
        scripts.append(g.script())
    # Many more messages than the memory cache has room for.
    for cache in (1, 3, 256, None):
        n = 300 if cache is None or cache == 256 else 40
        g = Gen(rng, 'C12', [Conf('file', cache=cache)], ['n%03d' % j for j in range(n)], 1)
        g.see_p = 0
        for k in range(1, n + 1):
            g.add(1, k, emit=0)
        for k in rng.sample(range(1, n + 1), 20):
            g.remove(1, k)
        g.emit('query', 1, see=[1])
        g.emit('reopen', 1, see=[1])
        scripts.append(g.script())
    return scripts


# ---- C13 ----

def c13(ctx):
    rng = ctx.rng
    scripts = []
    items = ctx.model_check('MCCorpus', MC % (2, 2, 1, 0, 'TRUE'))
    items1 = ctx.model_check('MCCorpus', MC % (2, 2, 1, 1, 'TRUE'))
    for its, limit in ((items, 0), (items1, 1)):
        for other in ('mem', 'file'):
            for path in vlib.tours(its, rng, max_len=30):
                confs = [mem(rng, limit)] if limit else [mem(rng, 0) if rng.random() < .5 else filec(rng)]
                confs.append(mem(rng) if other == 'mem' else filec(rng))
                scripts.append(from_path(rng, 'C13', path, confs, some_names(rng, 2), 2))
    for _ in range(ctx.pick(600, 8000)):
        n = rng.choice([2, 4, 8])
        confs = [rng.choice([mem, filec])(rng) for _ in range(rng.choice([1, 2, 3]))]
        g = Gen(rng, 'C13', confs, some_names(rng, n), 2)
        for c, f in enumerate(confs, 1):
            if f.kind != 'mem' and rng.random() < .5:
                fill_dir(g, c)
        g.see_p = .6
        for _ in range(rng.choice([8, 30])):
            c = rng.randint(1, len(confs))
            isfile = confs[c - 1].kind != 'mem'
            o = rng.randint(1, 2 * n)
            k = g.objs[o - 1]['k']
            r = rng.random()
            emit = rng.choice([1, 1, 0])
            if isfile and rng.random() < .15:
                k = rng.randint(1, n)
            if r < .5:
                g.add(c, o, k=k, emit=emit)
            elif r < .7:
                g.remove(c, o, emit=emit)
            elif r < .8 and g.has(c, k) and g.storable(c, k):
                g.remove(c, o, k=k, drop=True, emit=emit)
            elif r < .85 and isfile:
                g.add(c, o, k=k, fails=2 if g.has(c, k) else rng.choice([1, 2]), emit=emit)
            elif r < .9 and isfile:
                g.emit('reopen', c)
            else:
                g.emit(rng.choice(['query', 'gc', 'look']), c, k=k)
        scripts.append(g.script())
    return scripts


# ---- C14 ----

def watchers(rng, n):
    """Trainers over n corpora; returns them and the number of classifiers."""
    style = rng.randrange(4)
    if n == 1:
        return [{'clf': 1, 'kind': rng.choice(['spam', 'ham']), 'corpora': [1]}], 1
    if style == 0:
        w = [{'clf': 1, 'kind': 'spam', 'corpora': [1]}, {'clf': 1, 'kind': 'ham', 'corpora': [2]}]
    elif style == 1:
        w = [{'clf': 1, 'kind': 'ham', 'corpora': [1, 2]}, {'clf': 1, 'kind': 'spam', 'corpora': list(range(3, n + 1))}]
    elif style == 2:
        w = [{'clf': 1, 'kind': 'spam', 'corpora': [1]}, {'clf': 2, 'kind': 'ham', 'corpora': [1]},
             {'clf': 2, 'kind': 'spam', 'corpora': [2]}]
    else:
        w = [{'clf': 1, 'kind': 'spam', 'corpora': [2]}]
    for x in w:
        x['base'] = rng.random() < .3
    return [x for x in w if x['corpora']], max(x['clf'] for x in w)


def broken(rng, watch, c):
    """Sometimes the classifier fails, if it is only one that can fail."""
    return {'broken': 1} if rng.random() < .1 and sum(c in w['corpora'] for w in watch) == 1 else {}


def c14(ctx):
    rng = ctx.rng
    scripts = []
    for limit in (0, 1):
        items = ctx.model_check('MCCorpus', MC % (2, 2, 2, limit, 'FALSE'), timeout=900)
        for path in vlib.tours(items, rng, max_len=40):
            w = [{'clf': 1, 'kind': 'spam', 'corpora': [1]}, {'clf': 1, 'kind': 'ham', 'corpora': [2]}]
            confs = [mem(rng, limit) if limit or rng.random() < .5 else filec(rng, FILTERS[0]) for _ in range(2)]
            scripts.append(from_path(rng, 'C14', path, confs, some_names(rng, 2, PLAIN), 2, watch=w, nclf=1))
    rng.shuffle(scripts)
    scripts = scripts[:ctx.pick(400, 20000)]
    for _ in range(ctx.pick(600, 8000)):
        n = rng.choice([3, 6, 10])
        confs = [rng.choice([mem, filec])(rng) for _ in range(rng.choice([1, 2, 3, 4]))]
        w, nclf = watchers(rng, len(confs))
        g = Gen(rng, 'C14', confs, some_names(rng, n), 2, watch=w, nclf=nclf)
        for c, f in enumerate(confs, 1):
            if f.kind != 'mem' and rng.random() < .4:
                fill_dir(g, c)
        g.see_p = .4
        for _ in range(rng.choice([10, 30])):
            c = rng.randint(1, len(confs))
            o = rng.randint(1, 2 * n)
            k = g.objs[o - 1]['k']
            r = rng.random()
            here = g.has(c, k)
            if r < .5:
                if not here and o not in g.used[c - 1]:
                    g.add(c, o, emit=rng.choice([1, 1, 1, 0]), **broken(rng, w, c))
                elif not g.storable(c, k):
                    g.add(c, o)
            elif r < .75:
                if here and g.storable(c, k):
                    # What was added silently is removed silently.
                    g.remove(c, here[1], emit=here[2] and rng.choice([1, 1, 1, 1, 0]), drop=rng.random() < .3, **broken(rng, w, c))
            elif r < .85:
                d = rng.randint(1, len(confs))
                if here and here[2] and d != c and g.storable(c, k) and not g.has(d, k) and here[1] not in g.used[d - 1]:
                    g.remove(c, here[1])
                    g.add(d, here[1])
            elif r < .9 and confs[c - 1].kind != 'mem':
                g.add(c, o, fails=2 if here else rng.choice([1, 2]))
            else:
                g.emit(rng.choice(['query', 'gc', 'look']), c, k=k)
        scripts.append(g.script())
    return scripts


# ---- C15 ----

def c15(ctx):
    rng = ctx.rng
    scripts = []
    age = 2
    items = ctx.model_check('MCExpiry', 'SPECIFICATION Spec\nVIEW View\nPROPERTY PassRemovesExactlyOld\n'
                            'ACTION_CONSTRAINT Emit\nCONSTANTS NKeys = 2 Age = %d MaxTime = %d\n' % (age, ctx.pick(7, 9)),
                            timeout=900)
    ctx.log('%d transitions of the expiry model' % len(items))
    paths = vlib.tours(items, rng, max_len=60)
    rng.shuffle(paths)
    for path in paths[:ctx.pick(250, 4000)]:
        f = Conf('expiry', age=age, cache=rng.choice([None, 1]))
        g = Gen(rng, 'C15', [f], some_names(rng, 2), 2, watch=[{'clf': 1, 'kind': 'spam', 'corpora': [1]}], nclf=1)
        g.see_p = .3
        for tr in path:
            a = tr['act']
            if a['op'] == 'tick':
                g.emit('tick', 0, see=[], age=1)
            elif a['op'] == 'pass':
                g.emit('pass', 1)
            elif a['op'] == 'add':
                g.add(1, g.nobj(a['k'], rng.randint(1, 2)), emit=0)
            else:
                g.remove(1, g.nobj(a['k'], 1), emit=0)
        unit = rng.choice([1, 1, .01, 100, 86400])
        scripts.append(g.script(unit=unit, exact=int(unit >= 1 and rng.random() < .5)))
    for _ in range(ctx.pick(600, 9000)):
        n = rng.choice([3, 6, 12])
        # Several expiring corpora may be open at once, each with its own limit.
        ages = [rng.choice([0, 1, 10, 1000, 604800]) for _ in range(rng.choice([1, 1, 2, 3]))]
        confs = [filec(rng, kind='expiry', age=age) for age in ages]
        w = [{'clf': 1, 'kind': rng.choice(['spam', 'ham']), 'corpora': [1]}]
        if len(confs) > 1 and rng.random() < .5:
            w.append({'clf': 1, 'kind': rng.choice(['spam', 'ham']), 'corpora': [2]})
        g = Gen(rng, 'C15', confs, some_names(rng, n), 2, watch=w, nclf=1)

        def near(*a):
            span = max(1, rng.choice(ages))
            return max(0, rng.choice([0, 1, span // 2, span - 1, span, span + 1, 2 * span, 3 * span]))
        for c in range(1, len(confs) + 1):
            if rng.random() < .7:
                g.fill(c, [k for k in range(1, n + 1) if rng.random() < .6], ages=near)
        g.see_p = .3
        trained = set()
        for _ in range(rng.choice([10, 30])):
            c = rng.randint(1, len(confs))
            o = rng.randint(1, 2 * n)
            k = g.objs[o - 1]['k']
            r = rng.random()
            if r < .3:
                if not g.has(c, k) and o not in trained:
                    # Only what was never there is announced, so that training stays defined.
                    emit = int(o not in g.used[c - 1])
                    if emit:
                        trained.add(o)
                    g.add(c, o, emit=emit)
                else:
                    # Sometimes under a key that is not the message's own identifier.
                    g.add(c, o, k=rng.randint(1, n) if rng.random() < .3 else None, emit=0)
            elif r < .4 and not g.has(c, k):
                g.at[c - 1].append((k, o, 0))
                g.emit('plant', c, o=o, k=k, age=near())
            elif r < .5:
                g.remove(c, o, emit=0)
            elif r < .75:
                g.emit('tick', 0, see=[], age=near())
            elif r < .95:
                g.emit('pass', c)
                if rng.random() < .3:
                    g.emit('pass', rng.choice([c, rng.randint(1, len(confs))]))
            else:
                g.emit('reopen', c)
        for c in range(1, len(confs) + 1):
            g.emit('pass', c)
        unit = rng.choice([1, 1, 1, .01, 60])
        scripts.append(g.script(unit=unit, exact=int(unit >= 1 and min(ages) > 0 and rng.random() < .5)))
    return scripts


# ---- C26 ----

def c26(ctx):
    rng = ctx.rng
    scripts = []
    for i in range(ctx.pick(600, 8000)):
        evil = rng.sample(EVIL, rng.choice([2, 5, 10]))
        names = some_names(rng, rng.choice([2, 4])) + evil
        n = len(names)
        confs = [filec(rng, kind=rng.choice(['file', 'file', 'expiry']), age=10 ** 8) for _ in range(rng.choice([1, 2]))]
        g = Gen(rng, 'C26', confs, names, 1)
        g.outside = rng.sample(OUTSIDE, rng.choice([1, 3, 5]))
        for c in range(1, len(confs) + 1):
            if rng.random() < .4:
                fill_dir(g, c)
        g.see_p = .7
        keys = list(range(1, n + 1))
        for _ in range(rng.choice([10, 25])):
            c = rng.randint(1, len(confs))
            k = rng.choice(keys)
            r = rng.random()
            if r < .4:
                g.add(c, k, emit=rng.choice([1, 1, 0]))
            elif r < .6:
                g.remove(c, k, emit=rng.choice([1, 1, 0]))
            elif r < .9:
                g.emit('look', c, k=k)
            elif r < .95 and g.storable(c, k) and not g.has(c, k):
                # A link to a file somewhere else, which is only looked at and removed.
                g.at[c - 1].append((k, k, 0))
                g.emit('plant', c, o=k, k=k, age=0, how='link')
                g.emit('look', c, k=k)
                g.remove(c, k, emit=rng.choice([1, 1, 0]))
            else:
                g.emit('reopen', c)
        scripts.append(g.script(cwd=rng.random() < .3))
    items = ctx.model_check('MCCorpus', MC % (3, 1, 1, 0, 'TRUE'))
    for path in vlib.tours(items, rng, max_len=30):
        names = some_names(rng, 1) + rng.sample(EVIL, 2)
        s = from_path(rng, 'C26', path, [filec(rng)], names, 1)
        s['outside'] = OUTSIDE
        for op in s['ops']:
            if op['op'] == 'drop':
                op['op'] = 'look'
        scripts.append(s)
    return scripts


def trace_of(s, r):
    names = r['names']
    keep = ('broken', 'op', 'c', 'o', 'k', 'emit', 'fails', 'age', 'raised', 'found', 'mark0', 'mark', 'clf', 'see', 'outside', 'tree', 'sig', 'held')
    steps = [{k: e[k] for k in keep} for e in r['steps']]
    return {'id': s['id'], 'prop': s['prop'], 'names': [[ord(c) for c in n] for n in names],
            'corpora': [dict({k: c[k] for k in ('kind', 'limit', 'age', 'pat', 'init')}, cache=256 if c['cache'] is None else c['cache'])
                        for c in s['corpora']],
            'objs': [{'k': o['k'], 'toks': t} for o, t in zip(s['objs'], r['toks'])],
            'watch': [{k: w[k] for k in ('clf', 'kind', 'corpora')} for w in s['watch']], 'nclf': s['nclf'], 'steps': steps}


def judge(ctx, scripts, results):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        traces.append(trace_of(s, r))
    byid = {s['id']: (s, r) for s, r in zip(scripts, results)}
    for x in ctx.validate('TCorpus', TCFG, traces):
        s, r = byid[x['reject']]
        ctx.violation(x['why'], {'expected': x.get('expected'), 'training': x.get('training'), 'now': x['now'],
                                 'step': x['step'], 'observed': r['steps'][x['step'] - 1], 'script': s})
    for s in scripts[:1] + scripts[-2:]:
        ctx.sample({'corpora': [{k: c[k] for k in ('kind', 'limit', 'pattern', 'cache', 'age', 'init')} for c in s['corpora']],
                    'names': s['names'], 'ops': [{k: v for k, v in o.items() if k != 'see'} for o in s['ops'][:12]]})


def run(ctx):
    scripts = {'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C26': c26}[ctx.prop](ctx)
    for i, s in enumerate(scripts):
        s['id'] = i
        if ctx.prop in ('C11', 'C12'):
            s['ops'].append({'op': 'held', 'see': []})
    ctx.log('%d histories' % len(scripts))
    results = ctx.drive('drv_corpus', scripts, timeout=ctx.pick(300, 3000))
    ctx.log('driven')
    judge(ctx, scripts, results)
    return ctx.finish('model_checking', histories=len(scripts))


def replay(ctx, saved):
    s = saved['detail']['script']
    r = ctx.drive('drv_corpus', [s])
    judge(ctx, [s], r)
    return 1 if ctx.violations else 0
