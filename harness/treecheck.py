"""Parent side of the tree checks: exhaustive replay and trace validation."""
import fnmatch
import json
import os

from harness import core

BASE = dict(NN={'n0', 'n1', 'n2'}, KK={'k0', 'k1'}, SK=set(), PV={'CLS'},
            UU={'u0', 'u1', 'u2'}, ATT=set(), RENAMES=set(),
            OPS={'set', 'del', 'detach', 'pop', 'popitem', 'clear', 'setdefault'},
            MAXKIDS=2, Ford=True, Fval=True, Fref=False, Flife=False, Fsp=False,
            Fins=False, FROZEN=set(), FAULTS=False, TREE=True, HOSTS=None, EMIT=True)

INVARIANTS = ['KeysUnique', 'IndexExact', 'UuidUnique', 'OnePlace', 'ReservedApart',
              'HomeAgain', 'EmitS']
PROPERTIES = ['LastPlaceLocated', 'SingleParentLocated', 'OneNodeOnly',
              'RejectedNoEffect', 'OrderKept', 'SwapExact', 'InsertExact',
              'EventsTruthful', 'SpacesApart']


def key(s):
    return json.dumps(s, sort_keys=True)


class Graph(object):
    """The complete state graph of one configuration of MCTree."""

    def __init__(self, ctx, label, workers=4, **constants):
        c = dict(BASE)
        c.update(constants)
        c['HOSTS'] = c['HOSTS'] or c['NN']
        self.label, self.c = label, c
        res = ctx.tlc('MCTree', constants=c, invariants=INVARIANTS,
                      properties=PROPERTIES, constraints=['Bounded'],
                      action_constraints=['Emit'], view='View', workers=workers,
                      label=label)
        ids, self.states, self.answers = {}, [], {}

        def sid(s):
            k = key(s)
            if k not in ids:
                ids[k] = len(self.states)
                self.states.append(s)
            return ids[k]
        raw, seen = [], set()
        for e in res.payload('E'):
            h = key([e['s'], e['o'], e['r']])
            if h not in seen:
                seen.add(h)
                raw.append(e)
        empty = [e['s'] for e in raw
                 if not any(e['s']['kids'].values())
                 and all(v == 'NONE' for n, v in e['s']['name'].items() if n[0] != 'a')]
        sid(empty[0])
        edges = []
        for e in raw:
            edges.append((sid(e['s']), e['o'], e['r'], sid(e['d'])))
        # breadth first tree from the initial state
        out = {}
        for i, e in enumerate(edges):
            out.setdefault(e[0], []).append(i)
        self.parent = {0: None}
        todo = [0]
        while todo:
            nxt = []
            for s in todo:
                for i in sorted(out.get(s, ()), key=lambda i: key(edges[i][1])):
                    _, op, r, d = edges[i]
                    if d not in self.parent and r['out'][0] == 'ok':
                        self.parent[d] = (s, op)
                        nxt.append(d)
            todo = nxt
        # states beyond the bound are targets only; unreachable ones cannot be
        self.edges = [e for e in edges if e[0] in self.parent]
        for e in self.edges:
            if e[3] not in self.parent:      # reached by a failing update only
                self.parent[e[3]] = None if e[3] == 0 else (e[0], e[1])
        for a in res.payload('S'):
            k = key(a['s'])
            if k in ids:
                self.answers[ids[k]] = a['a']

    def job(self, profile, skin, sample=None, walks=0, seed=1):
        import random
        ks = sorted(self.c['KK'])
        edges = self.edges
        if sample and len(edges) > sample:
            edges = random.Random(seed).sample(edges, sample)
        return dict(label=self.label, walks=walks, seed=seed, faults=self.c['FAULTS'],
                    life=self.c['Flife'], states=self.states,
                    parent=[self.parent.get(i) for i in range(len(self.states))],
                    edges=edges, answers=self.answers, profile=profile, skin=skin,
                    uuids=sorted(self.c['UU']), prov={'n0': ['i0', 'i1', 'c0'],
                                                      'n1': ['i1', 'c0', 'c1'],
                                                      'n2': ['i1', 'i2']},
                    sorted=self.c['Ford'] or is_sorted(skin, ks))


def is_sorted(skin, ks):
    # sort order of the concrete keys must be the one of the specification
    order = {'simple': True, 'sort': len(ks) <= 2 and False, 'odd': False,
             'words': False, 'types': False,
             'blank': False}
    return bool(order.get(skin.get('keys', 'simple'))) and not skin.get('perm')


def replay(ctx, graph, jobs, clauses, sample=None, walks=4):
    """jobs: list of (profile, skin).  Reports violations of ``clauses``."""
    per = max(1, core.CPUS // max(1, len(jobs)))
    if len(jobs) < core.CPUS:
        per = max(per, 2)
    args, meta = [], []
    for i, (profile, skin) in enumerate(jobs):
        path = os.path.join(ctx.work, 'job-{}-{}.json'.format(graph.label, i))
        with open(path, 'w') as f:
            json.dump(graph.job(profile, skin, sample, walks, ctx.seed), f)
        for part in range(per):
            args.append([path, part, per])
            meta.append((profile, skin))
    for (rc, out, err), (profile, skin), a in zip(ctx.pool('treereplay', args), meta, args):
        try:
            res = json.loads(out)
        except ValueError:
            ctx.violation('replay of {} with {} did not finish: {} {}'.format(
                graph.label, profile, rc, err[-400:].replace('\n', ' ')),
                dict(kind='tree-replay-crash', config=graph.label, profile=profile,
                     skin=skin, rc=rc, stderr=err[-2000:]))
            continue
        ctx.count('traces', res['counts']['edges'])
        for k, v in res['counts'].items():
            ctx.count('replay_' + k, v)
        if graph.edges:
            ctx.sample(dict(config=graph.label, profile=profile, skin=skin,
                            transition=[graph.states[graph.edges[-1][0]]['kids'],
                                        graph.edges[-1][1], graph.edges[-1][2]]))
        for m in res['mismatches']:
            c = qualify(m['clause'], m['op'], m.get('exp'), m.get('obs'),
                        set(graph.c['SK']) | set(m['similar']), m.get('q'))
            verdict(ctx, c, clauses,
                    '[{}] {} in {} after {}: {}'.format(
                        c, m['profile'], m['config'],
                        short(m['op']), m['text']), dict(m, kind='tree-replay'))


def qualify(clause, op, exp, obs, sk, q=None):
    """clause -> clause@operation[#sp], with the outcome clause split up"""
    pre = ''
    for p in ('fail:', 'after:'):
        if clause.startswith(p):
            pre, clause = p, clause[len(p):]
    if clause == 'out' and exp and obs:
        clause = {('err', 'ok'): 'accept', ('ok', 'err'): 'reject',
                  ('err', 'err'): 'errclass', ('ok', 'ok'): 'result'}[exp[0], obs[0]]
    op = op or {}
    while op.get('o') == 'fault':
        op = op['op']
    ks = [op.get('k')] + [i[0] for i in op.get('items', ())] + [(q or {}).get('a')]
    sp = str(op.get('n', '')).startswith('a') or op.get('o') == 'attrs' \
        or any(k in sk for k in ks) or str((q or {}).get('n', '')).startswith('a')
    return '{}{}@{}{}'.format(pre, clause, op.get('o', 'read'), '#sp' if sp else '')


def verdict(ctx, clause, patterns, text, rep):
    base = clause
    for p in ('fail:', 'after:'):
        if base.startswith(p):
            base = base[len(p):]
    for pat in patterns:
        if fnmatch.fnmatchcase(clause, pat) or fnmatch.fnmatchcase(base, pat):
            ctx.violation(text, rep)
            return True
    ctx.count('foreign_mismatches')
    if len(ctx.notes) < 5:
        ctx.notes.append('deviation of another property: ' + text[:300])
    return False


def short(op):
    if not op:
        return 'reading'
    return ' '.join('{}={}'.format(k, v) for k, v in sorted(op.items()))


def traces(ctx, label, profiles, clauses, count=24, length=50, faults=False, parts=4):
    """Record random histories of the real code and validate them with TLC."""
    import threading
    files, args = [], []
    for i in range(parts):
        f = os.path.join(ctx.work, 'traces-{}-{}.ndjson'.format(label, i))
        files.append(f)
        args.append([f, '{}-{}-{}'.format(ctx.seed, label, i), count, length,
                     ','.join(profiles), '1' if faults else '0'])
    ok = []
    for (rc, out, err), a in zip(ctx.pool('treetrace', args), args):
        if rc != 0:
            ctx.violation('recording of {} did not finish: {} {}'.format(
                label, rc, err[-400:].replace('\n', ' ')),
                dict(kind='tree-trace-crash', args=a, rc=rc, stderr=err[-2000:]))
        else:
            ok.append(a[0])
            ctx.count('recorded_steps', json.loads(out)['steps'])
    errors = []

    def validate(f):
        try:
            res = ctx.tlc('TraceTree', files={'traces.ndjson': f}, view='View',
                          invariants=['IndexExact', 'UuidUnique', 'KeysUnique'],
                          workers=2, label=label)
            with open(f) as fh:
                recs = [json.loads(line) for line in fh]
            done = len(list(res.payload('D')))
            mis = list(res.payload('M'))
            bad = list(res.payload('X'))
            with lock:
                ctx.count('traces', done)
                judge(ctx, label, recs, mis, bad, done, clauses)
        except Exception as e:
            errors.append(e)
    lock = threading.Lock()
    ths = [threading.Thread(target=validate, args=(f,)) for f in ok]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errors:
        raise errors[0]


def judge(ctx, label, recs, mis, bad, done, clauses):
    for tid, i, op in bad[:3]:
        # operations are chosen by the observed state, which is not the specified one
        ctx.violation('[domain] {} trace {}: the state does not allow {}'.format(
            label, recs[tid - 1]['meta'], short(op)),
            dict(kind='tree-trace', meta=recs[tid - 1]['meta'], config=recs[tid - 1]['C'],
                 ops=[dict(s['o'], via=s['via'], fault=s['fault'])
                      for s in recs[tid - 1]['steps'][:i]]))
    if done + len(mis) + len(bad) != len([r for r in recs if r['steps']]):
        raise core.MachineryError('{}: {} of {} traces judged'.format(
            label, done + len(mis), len(recs)))
    if recs:
        r = recs[0]
        ctx.sample(dict(trace=label, meta=r['meta'], ops=[s['o'] for s in r['steps'][:12]]))
    for tid, i, cs, exp, op in mis:
        exp = exp if isinstance(exp, dict) else dict(broken=exp)
        t = recs[tid - 1]
        step = t['steps'][i - 1]
        for c in cs:
            c = qualify(c, op, exp.get('out'), step['out'],
                        set(t['C']['sk']) | set(t['meta']['similar']), exp.get('q'))
            hit = verdict(ctx, c, clauses,
                          '[{}] {} trace {} step {} after {} (via {}): expected {} observed {}'
                          .format(c, label, t['meta'], i, short(op), step['via'], exp,
                                  [step['out'], step['ev']]),
                          dict(kind='tree-trace', clause=c, meta=t['meta'], config=t['C'],
                               ops=[dict(s['o'], via=s['via'], fault=s['fault'])
                                    for s in t['steps'][:i]],
                               expected=exp, before=t['steps'][i - 2]['s'] if i > 1 else t['s0'],
                               observed=step))
            if hit:
                break
