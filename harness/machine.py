"""Worker: generic binding of a state machine specification to a world.

A world module ``harness.world_<name>`` offers

* ``World(conf)``  with ``run(op) -> out``: performs one operation of the
  specification in the real code and returns what was observed (JSON data);
* ``random_conf(rnd)`` and ``choose(rnd, world)`` for recorded histories.

usage: machine NAME replay GRAPH SEED SHARE OF EDGES WALK
       machine NAME trace OUT SEED COUNT LENGTH
"""
import importlib
import json
import random
import sys
import traceback

from harness import guard


def canon(x):
    return json.dumps(x, sort_keys=True)


class Graph(object):
    """Transitions printed by TLC: lines [cid, state, op, out, state']."""

    def __init__(self, path):
        self.confs = {}
        self.adj = {}         # state -> op -> [(out, state)]
        self.ops = {}
        self.inits = {}       # cid -> [state]
        self.edges = []
        with open(path) as f:
            for line in f:
                x = json.loads(line)
                if x[0] == 'C':
                    self.confs[x[1]] = x[2]
                elif x[0] == 'I':
                    self.inits.setdefault(x[1], []).append(canon([x[1], x[2]]))
                else:
                    _, cid, s, op, out, t = x
                    s, t, o = canon([cid, s]), canon([cid, t]), canon(op)
                    self.ops[o] = op
                    succ = self.adj.setdefault(s, {}).setdefault(o, [])
                    if (canon(out), t) not in succ:
                        succ.append((canon(out), t))
        for s in self.adj:
            for o in self.adj[s]:
                self.edges.append((s, o))
        # shortest paths
        self.path = {}
        for cid, ss in self.inits.items():
            for s in ss:
                self.path[s] = (cid, None, None)
        todo = list(self.path)
        while todo:
            nxt = []
            for s in todo:
                for o, succ in self.adj.get(s, {}).items():
                    for _, t in succ:
                        if t not in self.path:
                            self.path[t] = (self.path[s][0], s, o)
                            nxt.append(t)
            todo = nxt

    def ops_to(self, s):
        res = []
        while self.path[s][1] is not None:
            res.append(self.path[s][2])
            s = self.path[s][1]
        res.reverse()
        return res

    def sample(self, seed, n):
        """n transitions: half of them from all kinds of operations and
        outcomes of all configurations in turn, the others by chance."""
        edges = sorted(self.edges)
        random.Random(seed).shuffle(edges)
        if not n or n >= len(edges):
            return edges
        groups = {}
        for s, o in edges:
            out = json.loads(self.adj[s][o][0][0])
            groups.setdefault((self.cid(s), self.ops[o]['o'], kindof(out)), []).append((s, o))
        first, turn = [], 0
        while len(first) < n // 2:
            for g in groups.values():
                if turn < len(g):
                    first.append(g[turn])
            turn += 1
        seen = set(first)
        return (first + [e for e in edges if e not in seen])[:n]

    def cid(self, s):
        return self.path[s][0]


def observe(w, op):
    kind, res = guard.call(w.run, op)
    if kind == 'ok':
        return res
    if isinstance(res, guard.Hang):
        return ['HANG']
    # the world converts expected exceptions; this one was not expected
    tb = traceback.extract_tb(res.__traceback__)
    where = ['{}:{}'.format(f.filename.split('/')[-1], f.name) for f in tb[-3:]]
    return ['EXC', type(res).__name__, str(res)[:200]] + where


def replay(mod, graph, seed, share, of, nedges, walk):
    g = Graph(graph)
    rnd = random.Random('{}-{}'.format(seed, share))
    edges = g.sample(seed, nedges * of if nedges else 0)
    total = len(g.edges) // of
    mine = edges[share::of]
    bad, steps, done = {}, 0, set()
    for s, o in mine:
        if guard.HANGS[0] > 2:
            break
        plan = g.ops_to(s) + [o]
        conf = g.confs[g.cid(s)]
        if hasattr(mod, 'vary'):
            conf = mod.vary(conf, rnd)     # what the specification leaves open
        w = mod.World(conf)
        cur = set(g.inits[g.cid(s)])
        hist = []
        for i in range(len(plan) + walk):
            if i < len(plan):
                oo = plan[i]
                if not all(oo in g.adj.get(c, {}) for c in cur):
                    break           # another branch of a nondeterministic step
            else:
                common = None
                for c in cur:
                    ks = set(g.adj.get(c, {}))
                    common = ks if common is None else common & ks
                if not common:
                    break
                oo = rnd.choice(sorted(common))
            out = observe(w, g.ops[oo])
            steps += 1
            hist.append([g.ops[oo], out])
            exp, new = [], set()
            for c in cur:
                for eo, t in g.adj[c][oo]:
                    exp.append(eo)
                    if eo == canon(out):
                        new.add(t)
            for c in cur:
                done.add((c, oo))
            if not new:
                op = g.ops[oo]
                clause = '{}: {} instead of {}'.format(
                    op['o'], kindof(out), ' or '.join(sorted(set(
                        kindof(json.loads(e)) for e in exp))))
                bad.setdefault(clause, []).append(dict(
                    conf=conf, history=hist[-40:],
                    expected=[json.loads(e) for e in sorted(set(exp))][:4]))
                break
            cur = new
        close = getattr(w, 'close', None)
        if close:
            close()
    res = dict(edges=len(mine), total=total, steps=steps, covered=len(done),
               states=len(g.path),
               bad={k: dict(n=len(v), first=min(v, key=lambda x: len(x['history'])))
                    for k, v in bad.items()})
    print(json.dumps(res))


def kindof(out):
    if isinstance(out, list):
        return ' '.join(x for x in out[:2] if isinstance(x, str)) or 'value'
    return str(out)


def trace(mod, path, seed, count, length):
    steps = 0
    with open(path, 'w') as f:
        for i in range(count):
            if guard.HANGS[0] > 2:
                break
            rnd = random.Random('{}-{}'.format(seed, i))
            conf = mod.random_conf(rnd)
            w = mod.World(conf)
            rec = []
            for _ in range(length):
                op = mod.choose(rnd, w)
                if op is None:
                    break
                out = observe(w, op)
                rec.append(dict(op=op, out=out))
                if out and out[0] in ('HANG', 'EXC'):
                    break
            steps += len(rec)
            close = getattr(w, 'close', None)
            if close:
                close()
            f.write(json.dumps(dict(C=conf, steps=rec, meta=dict(seed=seed, index=i))) + '\n')
    print(json.dumps(dict(steps=steps, traces=count)))


def main():
    guard.setup()
    name, mode = sys.argv[1:3]
    mod = importlib.import_module('harness.world_' + name)
    a = sys.argv[3:]
    if mode == 'replay':
        replay(mod, a[0], int(a[1]), int(a[2]), int(a[3]), int(a[4]), int(a[5]))
    else:
        trace(mod, a[0], int(a[1]), int(a[2]), int(a[3]))


if __name__ == '__main__':
    main()
