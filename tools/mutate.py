"""Small syntactic changes to the code under test, and which checks notice them.

usage: mutate.py FILE(under sbclassifier/) OUT.jsonl [-j N] [--only REGEX of function] [--sample N]

Each mutant that passes the tests that pass without it is run against the
checks that are responsible for its function, until one reports a violation.
Survivors are listed for inspection: equivalent, outside every property, or a gap.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

MAP = {
    'classifiers/basic.py': [('.*', ['C01', 'C02', 'C03', 'C04', 'C05', 'C06'])],
    'classifiers/storage.py': [('.*', ['C06', 'C07', 'C09', 'C02', 'C03'])],
    'classifiers/slurping.py': [('.*', ['C23'])],
    'cdb.py': [('.*', ['C10', 'C06'])],
    'safepickle.py': [('.*', ['C08', 'C09'])],
    'corpora/caches.py': [('.*', ['C12', 'C11', 'C26'])],
    'corpora/base.py': [('.*', ['C13', 'C11', 'C12'])],
    'corpora/filesystem.py': [('.*', ['C15', 'C12'])],
    'trainers.py': [('.*', ['C14', 'C29'])],
    'message.py': [('from_|as_|_Gen|fold', ['C29', 'C12', 'C19']), ('add_|set_classification|classification', ['C16', 'C17']),
                   ('remove_|current_|_raw', ['C17', 'C16']),
                   ('id|state|trained|__init__|from_', ['C18', 'C12']),
                   ('.*', ['C19', 'C16', 'C17', 'C18', 'C12'])],
    'tokenizer.py': [('tokenize_body|tokenize_text|tokenize_word|find_html|numeric', ['C21', 'C28', 'C20']),
                     ('headers|decode_header|log2', ['C27', 'C28', 'C20']),
                     ('.*', ['C28', 'C20', 'C21', 'C27'])],
    'strippers.py': [('crack_content', ['C27', 'C20']), ('crack_filename', ['C27', 'C22']), ('tokenize|URL|analyze', ['C22', 'C28', 'C21']), ('.*', ['C22', 'C21', 'C28'])],
    'dnsutils.py': [('.*', ['C24'])],
    'iputils.py': [('.*', ['C25'])],
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult,
       ast.Mod: ast.Add, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitXor: ast.BitOr}


def functions(tree):
    """node -> name of the enclosing function or class"""
    out = {}

    def walk(n, name):
        for c in ast.iter_child_nodes(n):
            m = name
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                m = (name + '.' if name else '') + c.name
            out[id(c)] = m
            walk(c, m)
    walk(tree, '')
    return out


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'logging' in ast.unparse(n.value.func)


def mutants(src):
    """yields (description, line, function, source)"""
    tree = ast.parse(src)
    fn = functions(tree)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if is_log(n) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) \
                or isinstance(n, (ast.Import, ast.ImportFrom)) or (isinstance(n, ast.Raise)):
            for c in ast.walk(n):
                skip.add(id(c))

    def emit(n, what):
        return (what, getattr(n, 'lineno', 0), fn.get(id(n), ''), ast.unparse(tree))

    for n in nodes:
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    old = n.ops[i]
                    before = ast.unparse(n)
                    n.ops[i] = new()
                    yield emit(n, '%s -> %s' % (before, ast.unparse(n)))
                    n.ops[i] = old
        elif isinstance(n, ast.BoolOp):
            old = n.op
            before = ast.unparse(n)
            n.op = ast.Or() if isinstance(old, ast.And) else ast.And()
            yield emit(n, '%s -> %s' % (before, ast.unparse(n)))
            n.op = old
            for i in range(len(n.values)):
                v = n.values
                n.values = v[:i] + v[i + 1:]
                if len(n.values) == 1:
                    n.values = [n.values[0], n.values[0]]
                yield emit(n, '%s -> %s' % (before, ast.unparse(n)))
                n.values = v
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            old = n.op
            before = ast.unparse(n)
            n.op = BIN[type(old)]()
            yield emit(n, '%s -> %s' % (before, ast.unparse(n)))
            n.op = old
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            old = n.op
            before = ast.unparse(n)
            n.op = BIN[type(old)]()
            yield emit(n, '%s -> %s' % (before, ast.unparse(n)))
            n.op = old
        elif isinstance(n, ast.Constant):
            v = n.value
            new = []
            if v is True or v is False:
                new = [not v]
            elif isinstance(v, (int, float)):
                new = [v + 1] + ([v - 1] if v else [])
            elif isinstance(v, str):
                new = [v + 'X'] + ([''] if v else [])
            elif isinstance(v, bytes):
                new = [v + b'X'] + ([b''] if v else [])
            elif v is None:
                new = [0]
            for x in new:
                n.value = x
                yield emit(n, '%r -> %r' % (v, x))
            n.value = v
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            old, operand = n.op, n.operand
            before = ast.unparse(n)
            n.operand = ast.UnaryOp(ast.Not(), operand)
            yield emit(n, '%s -> %s' % (before, ast.unparse(n)))
            n.operand = operand
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            old = n.test
            for c in ([True, False] if not isinstance(n, ast.While) else [False]):
                n.test = ast.Constant(c)
                yield emit(n, '[%s] %s -> %s' % (type(n).__name__, ast.unparse(old), c))
            n.test = old
        elif isinstance(n, ast.Slice):
            for f in 'lower', 'upper':
                old = getattr(n, f)
                if old is not None:
                    setattr(n, f, None)
                    yield emit(old, 'slice without %s %s' % (f, ast.unparse(old)))
                    setattr(n, f, old)
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            old = n.type
            n.type = ast.Name('ZeroDivisionError', ast.Load())
            yield emit(n, 'except %s never' % ast.unparse(old))
            n.type = old
        elif isinstance(n, ast.comprehension):
            old = n.ifs
            if old:
                n.ifs = []
                yield emit(old[0], 'comprehension without if %s' % ast.unparse(old[0]))
                n.ifs = old
        elif isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                old = n.keywords
                n.keywords = old[:i] + old[i + 1:]
                yield emit(n, 'without keyword %s' % ast.unparse(k))
                n.keywords = old
        # leave out statements
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and isinstance(n, ast.stmt) and not isinstance(n, ast.ClassDef):
                for i, st in enumerate(b):
                    if id(st) in skip or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.If, ast.For,
                                                         ast.While, ast.Try, ast.With, ast.Global)):
                        continue
                    old = b[i]
                    b[i] = ast.Pass()
                    yield emit(old, 'without: %s' % ast.unparse(old).splitlines()[0][:80])
                    b[i] = old


def try_one(job):
    f, k, (what, line, func, src), baseline = job
    d, c = plant.copy_repo('mut')
    try:
        with open(os.path.join(c, 'sbclassifier', f), 'w') as h:
            h.write(src)
        r = {'file': f, 'n': k, 'what': what, 'line': line, 'func': func}
        try:
            t = plant.tests(c)
        except subprocess.TimeoutExpired:
            return dict(r, result='tests')
        if t != baseline:
            return dict(r, result='tests')
        for rx, checks in MAP[f]:
            if re.search(rx, func.split('.')[-1]):
                break
        notes = {}
        for p in checks:
            try:
                rc, text = plant.sh([os.path.join(plant.VERIF, 'bin/check'), p], cwd=plant.VERIF,
                                    env={'VERIF_REPO': c, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick',
                                         'VERIF_EVIDENCE': d}, timeout=900)
            except subprocess.TimeoutExpired:
                notes[p] = 'timeout'
                continue
            if rc == 1 and 'VIOLATION property=%s ' % p in text:
                return dict(r, result='caught', by=p, notes=notes)
            notes[p] = rc if rc == 0 else [rc, text[-400:]]
        return dict(r, result='SURVIVED', notes=notes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('file')
    a.add_argument('out')
    a.add_argument('-j', type=int, default=3)
    a.add_argument('--only')
    a.add_argument('--sample', type=int)
    a = a.parse_args()
    src = open(os.path.join('/repo/sbclassifier', a.file)).read()
    seen = {ast.unparse(ast.parse(src))}
    jobs = []
    for m in mutants(src):
        if a.only and not re.search(a.only, m[2]):
            continue
        if m[3] in seen:
            continue
        seen.add(m[3])
        jobs.append(m)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            r = json.loads(l)
            done.add((r['what'], r['line'], r['n']))
    jobs = list(enumerate(jobs))
    if a.sample and len(jobs) > a.sample:
        jobs = sorted(random.Random(5).sample(jobs, a.sample))
    jobs = [(k, m) for k, m in jobs if (m[0], m[1], k) not in done]
    d, c = plant.copy_repo('base')
    baseline = plant.tests(c)
    shutil.rmtree(d)
    print(a.file, len(jobs), 'mutants', flush=True)
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex, open(a.out, 'a') as out:
        for r in ex.map(try_one, [(a.file, k, m, baseline) for k, m in jobs]):
            out.write(json.dumps(r) + '\n')
            out.flush()
            if r['result'] == 'SURVIVED':
                print('SURVIVED', r['func'], r['line'], r['what'], r['notes'], flush=True)
    print(a.file, 'done', flush=True)


if __name__ == '__main__':
    main()
