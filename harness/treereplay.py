"""Worker: replays transitions of spec/MCTree.tla in the real code.

usage: treereplay JOB PART NPARTS
JOB is a JSON file written by treecheck.replay: states, parents, edges,
answers, profile, skin.  Prints one JSON object with mismatches and counters.
"""
import json
import random
import sys

from harness import guard
from harness import treeworld as tw

NONE = tw.NONE
MAXREP = 12


def variants(op, rnd, f, isatt):
    """Call variants of an operation, chosen round robin."""
    o = op['o']
    if o == 'set':
        return ['item', 'update'] + ([] if not f.get('aa') else ['attr', 'attritem'])
    if o == 'del':
        return ['item'] + ([] if not f.get('aa') else ['attritem'])
    if o == 'pop':
        return ['pos', 'kw']
    if o == 'update':
        return ['pairs', 'dict', 'odict', 'gen', 'node'] + (['kw', 'argkw'] if f.get('strkeys') else [])
    if o == 'setdefault':
        return ['pos', 'kw']
    return [None]


class Replay(object):
    def __init__(self, job):
        self.job = job
        self.states = job['states']
        self.parent = job['parent']      # sid -> [prev sid, op] or None
        self.counts = dict(edges=0, rebuilds=0, queries=0, reused=0, states=0,
                           events=0, errors=0, faults=0)
        self.bysid = {}
        for sid, op, res, did in job['edges']:
            self.bysid.setdefault(sid, []).append((op, res, did))
        self.mis = []
        self.tick = 0

    def path(self, sid):
        ops = []
        while self.parent[sid] is not None:
            sid, op = self.parent[sid]
            ops.append(op)
        return list(reversed(ops))

    def world(self):
        j = self.job
        w = tw.World(j['profile'], tw.Skin(**j['skin']), prov=j.get('prov'))
        s0 = self.states[0]
        for t in sorted(s0['kids']):
            if not t.startswith('a'):
                w.new(t, NONE, s0['uuid'][t])
        for t in sorted(s0['kids']):
            if t.startswith('a'):
                w.attrs(t, s0['par'][t])
        return w

    def build(self, sid):
        self.counts['rebuilds'] += 1
        w = self.world()
        for op in self.path(sid):
            self.tick += 1
            w.run(op, self.via(op, w))
        return w

    def via(self, op, w):
        f = dict(w.feat(op['n']))
        f['aa'] = 'as_attribute_access' in dir(w.cls) and op['n'] not in w.att \
            and isinstance(w.k(op.get('k', NONE)), str)
        f['strkeys'] = all(isinstance(w.k(i[0]), str) for i in op.get('items', ()))
        vs = variants(op, None, f, op['n'] in w.att)
        return vs[self.tick % len(vs)]

    def held(self, st):
        res = set()
        for ks in list(st['kids'].values()) + list(st['spc'].values()):
            res.update(v for k, v in ks)
        return res

    def differ(self, w, exp, obs, before, failed):
        """-> list of (clause, text)"""
        bad = []
        if 'broken' in obs:
            return [('kids', 'state cannot be read: ' + obs['broken'])]
        for n, ks in exp['kids'].items():
            o = obs['kids'].get(n)
            if w.feat(n)['ord']:
                if o != ks:
                    clause = 'order' if o is not None and sorted(o) == sorted(ks) else 'kids'
                    bad.append((clause, '{}: children {} expected {}'.format(n, o, ks)))
            elif o is None or sorted(o) != sorted(ks):
                bad.append(('kids', '{}: children {} expected {}'.format(n, o, ks)))
        held = self.held(exp)
        for n in exp['kids']:
            if obs['name'][n] != exp['name'][n]:
                bad.append(('name', '{}: name {} expected {}'.format(
                    n, obs['name'][n], exp['name'][n])))
            if n in held and [exp['name'][n], n] in \
                    exp['kids'].get(exp['par'][n], []) + exp['spc'].get(exp['par'][n], []):
                if obs['par'][n] != exp['par'][n]:
                    bad.append(('par', '{}: parent {} expected {}'.format(
                        n, obs['par'][n], exp['par'][n])))
            elif failed and obs['par'][n] != before['par'][n]:
                bad.append(('par', '{}: parent {} was {}'.format(
                    n, obs['par'][n], before['par'][n])))
            f = w.feat(n)
            if f['ref'] and obs['uuid'][n] != exp['uuid'][n]:
                bad.append(('uuid', '{}: uuid {} expected {}'.format(
                    n, obs['uuid'][n], exp['uuid'][n])))
            if f['sp'] and sorted(obs['spc'][n]) != sorted(exp['spc'][n]):
                bad.append(('spc', '{}: nodespaces {} expected {}'.format(
                    n, obs['spc'][n], exp['spc'][n])))
        return bad

    def lookups(self, w, exp, full=False):
        """uuid lookups of all nodes, compared with containment"""
        bad = []
        ref = [n for n in exp['kids'] if w.feat(n)['ref']]
        if not ref:
            return bad
        up = {}
        for n in ref:
            for k, v in exp['kids'][n]:
                up[v] = n

        def top(n):
            while n in up:
                n = up[n]
            return n
        for n in ref:
            for u in self.job['uuids']:
                e = [m for m in ref if top(m) == top(n) and exp['uuid'][m] == u]
                e = e[0] if e else NONE
                for q in ('node', 'indexed') if full else ('look',):
                    ee = [e] if q != 'indexed' else ['F' if e == NONE else 'T']
                    r = w.query(dict(q=q, n=n, a=u))
                    self.counts['queries'] += 1
                    if r != ee:
                        bad.append(('index', '{}.{}({}) is {} expected {}'.format(
                            n, q, u, r, ee)))
        return bad

    def stale(self, w, sid, n):
        # the parent a node keeps after its removal is not specified
        par = self.states[sid]['par']
        while par[n] != NONE:
            n = par[n]
        return w.obj[n].parent is not None

    def queries(self, w, sid):
        bad = []
        for q, c, e in self.job['answers'].get(str(sid), ()):
            if c == '-':
                continue
            if q['q'] == 'getattr' and not (
                    (hasattr(w.cls, 'as_attribute_access') or hasattr(w.cls, '__getattr__')) and
                    q['n'] not in w.att):
                continue
            if q['q'] in ('getattr',) and not isinstance(w.k(q['a']), str):
                continue
            if q['q'] == 'getn' and w.skin.hasnone:
                continue
            if q['q'] == 'attrs' and not w.hasatt:
                continue
            if q['q'] in ('path', 'root', 'home', 'acquire') and self.stale(w, sid, q['n']):
                continue
            if q['q'] == 'repr' and not self.job['sorted']:
                continue
            r = w.query(q)
            self.counts['queries'] += 1
            if (sorted(r) != sorted(e)) if c == '#' else (r != e):
                bad.append(('q:' + q['q'], '{} is {} expected {}'.format(
                    json.dumps(q), r, e), None, None, q))
        return bad

    def report(self, clause, text, sid, op, path=None, exp=None, obs=None, q=None):
        if len([m for m in self.mis if m['clause'] == clause]) >= MAXREP:
            return
        self.mis.append(dict(
            clause=clause, text=text, profile=self.job['profile'], skin=self.job['skin'],
            config=self.job['label'], path=path or self.path(sid), state=self.states[sid], op=op, exp=exp, obs=obs, q=q,
            similar=tw.Skin(**self.job['skin']).similar))

    @staticmethod
    def outok(op, exp, out):
        if exp[0] == 'ok':
            return out == exp
        if exp[1] == 'either':
            return out[0] == 'ok' or out[1] != 'HANG'
        if out[0] != 'err' or out[1] == 'HANG':
            return False
        return exp[1] in ('any', out[1]) or (
            op['o'] in ('insfirst', 'inslast', 'insbefore', 'insafter', 'swap', 'setuuid')
            and out[1] in ('KeyError', 'ValueError'))

    def edge(self, w, sid, op, res, did, before):
        """-> (mismatches, observed state)"""
        self.tick += 1
        via = self.via(op, w)
        out, ev = w.run(op, via)
        bad = []
        exp = res['out']
        failed = exp[0] == 'err'
        self.counts['errors'] += failed
        self.counts['events'] += len(ev)
        if not self.outok(op, exp, out):
            if op['o'] == 'popitem' and out[0] == 'ok' and not w.feat(op['n'])['ord'] \
                    and out[1:] in self.states[sid]['kids'][op['n']]:
                return [], None      # another choice, there is a transition for it
            bad.append(('out', 'result {} expected {} (via {})'.format(out, exp, via), exp, out))
        expev = res['ev']
        if op['o'] == 'clear':       # the order of removals is not specified
            srt = lambda e: json.dumps(e, sort_keys=True)
            ev, expev = sorted(ev, key=srt), sorted(expev, key=srt)
        if ev != expev and (self.job['life'] or not w.f['life']):
            bad.append(('events', 'notified {} expected {}'.format(ev, res['ev'])))
        obs = w.project()
        bad += self.differ(w, self.states[did], obs, before, failed)
        bad += self.lookups(w, self.states[did])
        if failed and bad:
            bad = [('fail:' + b[0] if b[0] != 'out' else b[0],) + tuple(b[1:]) for b in bad]
        return bad, obs

    def fault(self, sid, fop, index):
        """The backend raises at some access within an operation."""
        op = fop['op']
        for kind, left in (('write', 1), ('write', 2), ('read', 1), ('read', 2), ('read', 3)):
            w = self.build(sid)
            before = w.project()
            self.tick += 1
            tw.PLAN.arm(kind, left, tw.fault_error(kind, self.tick))
            out, ev = w.run(op, None)
            if not tw.PLAN.disarm() or out[0] != 'err':
                continue             # not reached, or not passed on
            self.counts['faults'] += 1
            bad = []
            if ev:
                bad.append(('events', 'notified {}'.format(ev)))
            obs = w.project()
            bad += self.differ(w, self.states[sid], obs, before, True)
            bad += self.lookups(w, self.states[sid])
            for c, t in bad:
                self.report('fail:' + c, 'backend fault at {} {}: {}'.format(kind, left, t),
                            sid, op)
            if not bad and json.dumps(op, sort_keys=True) in index:
                # the same call again, now without fault
                res, did = index[json.dumps(op, sort_keys=True)]
                bad, obs = self.edge(w, sid, op, res, did, before)
                for b in bad:
                    self.report('after:' + b[0], 'after a backend fault at {} {}: {}'.format(
                        kind, left, b[1]), sid, op, None, *b[2:])

    def run(self, part, nparts):
        bysid = self.bysid
        for sid in sorted(bysid):
            if sid % nparts != part or guard.HANGS[0] > 1:
                continue
            self.counts['states'] += 1
            w = None
            index = {json.dumps(op, sort_keys=True): (res, did)
                     for op, res, did in bysid[sid]} if self.job['faults'] else {}
            # operations without effect first: they share one world
            for op, res, did in sorted(bysid[sid], key=lambda e: e[2] != sid):
                if guard.HANGS[0] > 1:
                    break
                if op['o'] == 'fault':
                    self.counts['edges'] += 1
                    self.fault(sid, op, index)
                    continue
                fresh = w is None
                if fresh:
                    w = self.build(sid)
                    before = w.project()
                    if 'broken' in before:
                        self.report('kids', before['broken'], sid, None)
                        break
                else:
                    self.counts['reused'] += 1
                self.counts['edges'] += 1
                bad, obs = self.edge(w, sid, op, res, did, before)
                if bad and not fresh:
                    # does it fail from a fresh start as well?
                    w = self.build(sid)
                    before = w.project()
                    bad2, obs = self.edge(w, sid, op, res, did, before)
                    if not bad2:
                        bad = [('after:' + b[0], b[1] + ' (only after rejected or void calls)')
                               + tuple(b[2:]) for b in bad]
                    else:
                        bad = bad2
                for b in bad:
                    self.report(b[0], b[1], sid, op, None, *b[2:])
                if bad or did != sid or obs != before:
                    w = None

    def walk(self, rnd, length):
        """A long history in one world, along the transitions."""
        w = self.build(0)
        sid, done = 0, []
        before = w.project()
        for _ in range(length):
            if guard.HANGS[0] > 1:
                return
            es = self.bysid.get(sid)
            if not es:
                return
            for _ in range(6):       # prefer transitions with an effect
                op, res, did = rnd.choice(es)
                if did != sid or rnd.random() < .15:
                    break
            if op['o'] == 'fault' or did not in self.bysid:
                continue
            done.append(op)
            self.counts['edges'] += 1
            bad, obs = self.edge(w, sid, op, res, did, before)
            if obs is None:
                return
            if not bad and rnd.random() < .2:
                bad = self.queries(w, did)
            if bad:
                for b in bad:
                    self.report(b[0], b[1], 0, op, done, *b[2:])
                return
            sid, before = did, obs


def main():
    guard.setup()
    with open(sys.argv[1]) as f:
        job = json.load(f)
    r = Replay(job)
    r.run(int(sys.argv[2]), int(sys.argv[3]))
    rnd = random.Random('{}-{}'.format(job['seed'], sys.argv[2]))
    for _ in range(job['walks']):
        r.walk(rnd, 150)
    # every state reached along its path answers all queries
    part, nparts = int(sys.argv[2]), int(sys.argv[3])
    for sid in range(part, len(job['states']), nparts):
        if guard.HANGS[0] > 1:
            break
        w = r.build(sid)
        for b in r.queries(w, sid) + r.lookups(w, r.states[sid], True):
            r.report(b[0], b[1], sid, None, None, *b[2:])
    json.dump(dict(mismatches=r.mis, counts=r.counts), sys.stdout)


if __name__ == '__main__':
    main()
