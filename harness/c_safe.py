"""C08, C09: pickle files."""
import json
import os

import vlib

TCFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
PAUSES = list(range(1, 60))


def model(ctx, writers, readers, parts, mode='replace', expect=None):
    cfg = ('SPECIFICATION Spec\nINVARIANTS FileComplete FileIsLastCommit ReadsCommitted OneHolder ErrorsChangeNothing\n'
           'PROPERTY OnlyRenameCommits\nCONSTANTS Writers = {%s} Readers = {%s} Parts = %d Mode = "%s"\n'
           % (writers, readers, parts, mode))
    if expect is None:
        ctx.model_check('SafePickle', cfg, emit=False, workers=4)
        return
    rc, text = ctx.tlc('SafePickle', cfg, workers=1)
    if 'is violated' not in text:
        raise vlib.MachineryError('the model does not find the defect of mode ' + mode + vlib.tail(text))


def check_models(ctx):
    model(ctx, '1, 2', '3', 2)
    if ctx.thorough():
        model(ctx, '1, 2, 3', '4, 5', 2)
    model(ctx, '1', '3', 2, 'inplace', expect=True)
    model(ctx, '1, 2', '3', 2, 'nolock', expect=True)
    ctx.log('models checked')


def watch_scripts(ctx):
    rng = ctx.rng
    out = []
    tmps = ['same', 'other'] if other_fs() else ['same']
    for tmp in tmps:
        for old in (0, 1):
            for style in ('small', 'chatty', 'big', 'shrink'):
                out.append({'kind': 'watch', 'style': style, 'old': old, 'new': [2, 3], 'tmp': tmp,
                            'protocol': rng.choice([None, 0, 1, 2, 3, 4, 5]), 'cwd': len(out) % 3, 'relative': len(out) % 2})
            for fault in ('lambda', 'raises', 'keyboard', 'oserror', 'memory', 'key'):
                out.append({'kind': 'watch', 'style': rng.choice(['small', 'chatty', 'big']), 'old': old,
                            'new': [2, 3], 'tmp': tmp, 'fault': fault, 'protocol': rng.choice([None, 0, 2, 4])})
            out.append({'kind': 'watch', 'style': 'big', 'old': old, 'new': [2], 'tmp': tmp, 'fault': 'fsize'})
            out.append({'kind': 'watch', 'mode': 'classifier', 'old': old, 'new': [2, 3], 'tmp': tmp})
            for fault in ('lambda', 'raises', 'keyboard'):
                out.append({'kind': 'watch', 'mode': 'classifier', 'old': old, 'new': [2, 3], 'tmp': tmp, 'fault': fault})
        for how in ('kill', 'int', 'term'):
            for old in (0, 1):
                for style in ('small', 'chatty', 'shrink') if ctx.thorough() else (rng.choice(['chatty', 'shrink']),):
                    out.append({'kind': 'crash', 'how': how, 'style': style, 'old': old, 'new': [2], 'tmp': tmp})
                out.append({'kind': 'crash', 'how': how, 'mode': 'classifier', 'old': old, 'new': [2], 'tmp': tmp})
                fault = rng.choice(['lambda', 'raises', 'fsize'])
                out.append({'kind': 'crash', 'how': how, 'style': 'big' if fault == 'fsize' else 'small', 'old': old,
                            'new': [2], 'tmp': tmp, 'fault': fault})
    for j, s in enumerate(out):
        s.setdefault('cwd', rng.choice([0, 0, 2]) if s['kind'] == 'crash' else rng.choice([0, 1, 2]))
        s.setdefault('relative', rng.randrange(2))
    return out


def other_fs():
    try:
        return os.stat('/dev/shm').st_dev != os.stat('/tmp').st_dev and os.access('/dev/shm', os.W_OK)
    except OSError:
        return False


def judge_safe(ctx, scripts, results):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        steps = [dict(e, op='open') if s['kind'] == 'open' else e for e in r['steps']]
        traces.append({'id': s['id'], 'steps': steps})
    byid = {s['id']: (s, r) for s, r in zip(scripts, results)}
    for x in ctx.validate('TSafe', TCFG, traces):
        s, r = byid[x['reject']]
        n = x['step']
        ctx.violation(x['why'], {'script': s, 'step': n, 'observed': r['steps'][max(0, n - 6):n]})


def concurrent_scripts(ctx, lines):
    rng = ctx.rng
    out = []
    ats = list(range(1, lines + 8))
    if not ctx.thorough():
        ats = sorted(rng.sample(ats, min(len(ats), 70)))
    for at in ats:
        old = rng.choice([0, 1, 1])
        b = rng.choice([[('read', 0)], [('write', 3)], [('write', 3), ('read', 0)], [('badwrite', 3), ('read', 0)]])
        out.append({'kind': 'pause', 'style': rng.choice(['small', 'shrink']), 'old': old,
                    'a': rng.choice(['write', 'write', 'write', 'read', 'badwrite']), 'ka': 2, 'at': at, 'b': b,
                    'end': rng.choice(['go', 'go', 'go', 'kill']),
                    'after': rng.choice([[('read', 0)], [('write', 4), ('read', 0)]])})
    for j in range(ctx.pick(24, 200)):
        k = [1]

        def ops(n, hold):
            res = []
            for _ in range(n):
                k[0] += 1
                op = rng.choice(['read', 'read', 'write', 'write', 'badwrite'] + (['hold'] if hold else []))
                res.append((op, k[0]))
            return res
        shape = rng.choice([[1], [2], [1, 1], [1, 1, 1], [2, 1], [2, 2], [3], [1, 1, 1, 1]])
        out.append({'kind': 'stress', 'style': rng.choice(['small', 'shrink', 'big']), 'old': rng.choice([0, 1]),
                    'seed': j, 'procs': [[ops(rng.choice([3, 5]), j % 3 == 0) for _ in range(n)] for n in shape]})
    return out


def open_scripts(ctx):
    rng = ctx.rng
    out = [{'kind': 'open', 'cond': c} for c in ('absent', 'directory', 'loop', 'noperm', 'writeonly', 'locked',
                                                 'oldversion')]
    out += [{'kind': 'open', 'cond': 'good', 'protocol': p} for p in range(6)]
    out += [{'kind': 'open', 'cond': 'object', 'n': n} for n in range(7)]
    for g in ('\x00', 'garbage', '\x80', '\x80\x04', '.', '(', 'cos\nno_such_name\n.', '<html>', 'N.', '\n', 'I1\n.'):
        out.append({'kind': 'open', 'cond': 'garbage', 'bytes': g})
    for i in range(ctx.pick(60, 400)):
        out.append({'kind': 'open', 'cond': 'cut', 'where': (i + rng.random()) / ctx.pick(60, 400),
                    'protocol': rng.randrange(6)})
    return out


def judge_lin(ctx, scripts, results):
    traces = []
    for s, r in zip(scripts, results):
        if r.get('skipped'):
            continue
        if 'crash' in r:
            ctx.violation('the code under test died, hung or could not be driven', {'script': s, 'crash': r['crash']})
            continue
        for o in r['ops']:
            if o['res'].startswith('unexpected'):
                ctx.violation('an operation failed', {'script': s, 'history': r})
                break
        else:
            traces.append({'id': s['id'], 'start': r['start'], 'ops': r['ops'], 'events': r['events']})
    if not traces:
        return
    path = ctx.tmp('.ndjson')
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t) + '\n')
    rc, text = ctx.tlc('TLin', 'SPECIFICATION Spec\nINVARIANT Accept\nCHECK_DEADLOCK FALSE\n', {'TRACES': path},
                       workers=4, timeout=1500, heap='8g')
    if 'No error has been found' not in text:
        raise vlib.MachineryError('TLin failed:\n' + vlib.tail(text))
    gen, dist = vlib.counts(text)
    ctx.states += dist
    ctx.transitions += gen
    ctx.traces += len(traces)
    ctx.steps += sum(len(t['events']) for t in traces)
    ok = {x['accept'] for x in vlib.emitted(text)}
    byid = {s['id']: (s, r) for s, r in zip(scripts, results)}
    for t in traces:
        if t['id'] not in ok:
            s, r = byid[t['id']]
            ctx.violation('no order of the operations explains the results', {'script': s, 'history': r})
    ctx.sample(traces[0])
    ctx.extra['operations_refused_for_lock'] = sum(1 for t in traces for o in t['ops'] if o['res'] == 'locked')
    ctx.extra['concurrent_histories'] = len(traces)


def run(ctx):
    check_models(ctx)
    if ctx.prop == 'C08':
        scripts = watch_scripts(ctx)
        for i, s in enumerate(scripts):
            s['id'] = i
        ctx.log('%d scripts' % len(scripts))
        results = ctx.drive('drv_safe', scripts, timeout=ctx.pick(300, 2000), per=2)
        ctx.log('driven')
        judge_safe(ctx, scripts, results)
        ctx.extra['lines_watched'] = [r.get('lines') for r in results][:6]
        ctx.extra['crash_points'] = sum(r.get('lines', 0) for s, r in zip(scripts, results) if s['kind'] == 'crash')
        ctx.sample(scripts[0])
        if not other_fs():
            ctx.assumptions.append('no second file system was available')
        ctx.assumptions.append('a process is killed between two lines of Python, not inside a system call')
    else:
        probe = {'kind': 'watch', 'style': 'small', 'old': 1, 'new': [2], 'id': 0}
        r = ctx.drive('drv_safe', [probe])[0]
        lines = min(r.get('lines', 200), 600)
        ctx.log('a write has %d line events' % lines)
        scripts = concurrent_scripts(ctx, lines)
        opens = open_scripts(ctx)
        for i, s in enumerate(scripts + opens):
            s['id'] = i
        results = ctx.drive('drv_safe', scripts + opens, timeout=ctx.pick(400, 2000), per=8)
        ctx.log('driven')
        n = len(scripts)
        judge_safe(ctx, opens, results[n:])
        judge_lin(ctx, scripts, results[:n])
        ctx.extra['opened_in_condition'] = len(opens)
        ctx.assumptions.append('the clock (CLOCK_MONOTONIC) orders the events of all processes')
    return ctx.finish('model_checking', scripts=len(scripts))


def replay(ctx, saved):
    s = saved['detail']['script']
    s['id'] = 0
    r = ctx.drive('drv_safe', [s])
    (judge_safe if s['kind'] in ('watch', 'crash', 'open') else judge_lin)(ctx, [s], r)
    return 1 if ctx.violations else 0
