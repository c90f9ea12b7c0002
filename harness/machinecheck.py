"""Main-process side of the generic state machine checks."""
import json
import os

from harness.core import CPUS
from harness.core import MachineryError


def crash(ctx, name, rc, err):
    """A worker which ended unexpectedly: the code under test or the harness?"""
    last = err.strip().split('\n')
    if 'Traceback' in err and not last[-1].startswith(('MemoryError', 'KeyboardInterrupt')):
        ctx.violation('the code under test cannot be used: ' + last[-1][:200],
                      dict(world=name, stderr=err[-3000:]))
    else:
        raise MachineryError('worker {} (rc {}): {}'.format(name, rc, err[-3000:]))


def model(ctx, module, name, constants=None, invariants=(), properties=(), workers=4,
          timeout=600, label=None, constraints=(), **kw):
    """Exhaustive model -> path of the graph file, number of edges

    With the constant EMIT false the transitions are not printed and only the
    invariants are checked: what TLC prints stays in its memory.
    """
    constants = dict(constants or {})
    emit = constants.get('EMIT', True)
    kw.setdefault('heap', '5g')
    res = ctx.tlc(module, constants=constants, invariants=invariants, properties=properties,
                  workers=workers, timeout=timeout, label=label, constraints=constraints, **kw)
    if not emit:
        return None, 0
    path = os.path.join(ctx.work, 'graph-{}-{}.ndjson'.format(name, len(ctx.models)))
    n = 0
    with open(path, 'w') as f:
        for p in 'CIE':
            seen = set()
            for line in res.lines.get(p, []):
                if line in seen:
                    continue
                seen.add(line)
                x = json.loads(json.loads(line)[2:])
                f.write(json.dumps([p] + x) + '\n')
                n += p == 'E'
    if not n:
        raise MachineryError('no transitions from ' + module)
    return path, n


def replay(ctx, name, path, edges=0, walk=8, timeout=600, workers=CPUS, only=None):
    """edges: how many transitions each worker takes (0: all)
    only: predicate telling which observations contradict this property"""
    args = [[name, 'replay', path, ctx.seed, i, workers, edges, walk] for i in range(workers)]
    seen = {}
    for rc, out, err in ctx.pool('machine', args, timeout=timeout):
        if rc != 0:
            crash(ctx, name, rc, err)
            continue
        r = json.loads(out.strip().split('\n')[-1])
        ctx.count('replayed_transitions', r['edges'])
        ctx.count('model_transitions_of_replay', r['total'])
        ctx.count('replayed_steps', r['steps'])
        for k, v in r['bad'].items():
            if only and not only(v['first']['history'][-1][1]):
                ctx.count('foreign_mismatches')
                continue
            if k not in seen or len(v['first']['history']) < len(seen[k]['first']['history']):
                seen[k] = v
    for k, v in sorted(seen.items()):
        ctx.violation('{} {}'.format(name, k), v['first'])


def traces(ctx, module, name, count=40, length=60, files=CPUS, timeout=600, workers=1,
           invariants=(), constants=None, only=None):
    """Record histories of the real code and let TLC validate them."""
    paths = [os.path.join(ctx.work, 'traces-{}-{}.ndjson'.format(name, i))
             for i in range(files)]
    args = [[name, 'trace', p, ctx.seed * 1000 + i, count, length]
            for i, p in enumerate(paths)]
    good = []
    for (rc, out, err), p in zip(ctx.pool('machine', args, timeout=timeout), paths):
        if rc != 0:
            crash(ctx, name, rc, err)
            continue
        ctx.count('recorded_steps', json.loads(out.strip().split('\n')[-1])['steps'])
        good.append(p)
    validate(ctx, module, name, good, timeout, workers, invariants, constants, only)
    return good


def validate(ctx, module, name, paths, timeout=600, workers=1, invariants=(), constants=None,
             only=None):
    import threading
    results, errors = {}, []

    def one(p):
        try:
            results[p] = ctx.tlc(module, files={'traces.ndjson': p}, workers=workers,
                                 timeout=timeout, invariants=invariants,
                                 constants=constants, label='trace validation')
        except Exception as e:
            errors.append(e)
    todo = list(paths)
    while todo:
        ths = [threading.Thread(target=one, args=(p,)) for p in todo[:CPUS]]
        todo = todo[CPUS:]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    if errors:
        raise errors[0]
    seen, left = set(), set()
    for p in paths:
        res = results[p]
        lines = [json.loads(x) for x in open(p)]
        done = set(y[0] for y in res.payload('D'))
        for y in res.payload('X'):
            if y[0] in done or (p, y[0]) in left:
                continue
            # operations are chosen by what the code under test shows: it is
            # in another state than the specified one
            left.add((p, y[0]))
            if only:
                ctx.count('foreign_mismatches')
            elif len(left) < 4:
                ctx.violation('{}: the state differs from the specified one, which does not '
                              'allow {}'.format(name, json.dumps(y[2])[:200]),
                              dict(conf=lines[y[0] - 1]['C'],
                                   history=lines[y[0] - 1]['steps'][:y[1]], expected=[],
                                   meta=lines[y[0] - 1].get('meta')))
        bad = {}
        for y in res.payload('M'):
            if y[0] not in done and (y[0] not in bad or bad[y[0]][1] < y[1]):
                bad[y[0]] = y
        for tid, t in enumerate(lines, 1):
            if tid in done or not t['steps']:
                ctx.count('traces')
                ctx.count('validated_steps', len(t['steps']))
                if t['steps']:
                    ctx.sample(dict(conf=t['C'], steps=t['steps'][:6]))
                continue
            if (p, tid) in left:
                continue
            if tid not in bad:
                raise MachineryError('{}: no verdict on trace {}'.format(name, tid))
            _, i, op, out, exp = bad[tid]
            if only and not only(out):
                ctx.count('foreign_mismatches')
                continue
            what = '{} {}: observed {} instead of {}'.format(
                name, op['o'], json.dumps(out)[:80], json.dumps(exp)[:120])
            key = (op['o'], json.dumps(out)[:20])
            if key in seen:
                continue
            seen.add(key)
            ctx.violation(what, dict(conf=t['C'], history=t['steps'][:i], expected=exp,
                                     meta=t.get('meta')))
