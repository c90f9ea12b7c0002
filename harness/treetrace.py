"""Worker: random histories of real trees, recorded for spec/TraceTree.tla.

usage: treetrace OUT SEED COUNT LENGTH PROFILES [FAULTS]
PROFILES: comma separated, each one or several joined with '+' (mixed classes).
"""
import json
import random
import sys

from harness import guard
from harness import treeworld as tw

NONE = tw.NONE
NNODES = 10
BIG = 26
NESTING = ['set', 'del', 'detach', 'pop', 'setdefault', 'insfirst', 'inslast', 'insbefore',
           'insafter']
SPACES = ['__sp__', '__x y__', '__s_1__', '____', '__a\xe4__', '___x___', '__.__', '__1__',
          '_____', '__name__', '__parent__']


class BackendError(Exception):
    pass


EXCS = [BackendError('backend'), OSError(5, 'backend'), RuntimeError('backend'),
        MemoryError('backend')]


class Trace(object):
    def __init__(self, rnd, profiles, length, faults, deep=False):
        self.rnd = rnd
        self.length = length
        names = profiles.split('+')
        self.faults = faults
        if faults:
            names = [n + '!' for n in names]
        self.main = names[0]
        cls, f, self.hasatt = tw.build(names[0])
        strkeys = f['sp'] or hasattr(cls, 'as_attribute_access')
        ks = rnd.choice(['simple', 'odd', 'sort', 'words', 'under', 'path', 'blank'] + ([] if strkeys else ['types'] * 2))
        vals = rnd.choice(sorted(tw.VALSETS))
        uuids = rnd.choice(sorted(tw.UUIDSETS))
        # some histories have many nodes, in long or wide trees
        self.shape = rnd.choice(['', '', '', '', 'deep', 'wide'] if not deep else
                                ['', '', 'deep', 'deep', 'deep', 'wide'])
        self.nk = rnd.randint(2, 6) if not self.shape else rnd.randint(6, 12)
        spaces = ['__attrs__'] + rnd.sample(SPACES, 3)
        perm = list(range(12))
        rnd.shuffle(perm)
        self.skin = tw.Skin(keys=ks, vals=vals, uuids=uuids, perm=perm[:self.nk],
                            spaces=spaces if f['sp'] else ())
        self.nn = rnd.randint(3, NNODES) if not self.shape else rnd.randint(NNODES, BIG)
        if self.shape:
            self.length = length + 2 * self.nn
        self.nodes = ['n%d' % i for i in range(self.nn)]
        self.atts = ['a%d' % i for i in range(self.nn)] if self.hasatt else []
        self.keys = ['k%d' % i for i in range(self.nk)]
        self.plain = ['p%d' % i for i in range(4)]
        self.uuids = ['u%d' % i for i in range(16 if not self.shape else tw.NUUIDS)]
        # how often new nodes reuse uuids
        self.uuidpool = self.uuids[:rnd.choice([self.nn, self.nn + 3, len(self.uuids)])]
        # seldom provided interfaces are found far away
        rate = [.4, .4, .2, .05] if self.shape == 'deep' else [.4, .4, .2]
        rates = {i: rnd.choice(rate) for i in sorted(tw.IFACES)}
        self.prov = {n: [i for i in sorted(tw.IFACES) if rnd.random() < rates[i]] +
                     rnd.choice([[], [], ['c0'], ['c0', 'c1']]) for n in self.nodes}
        mixed = {n: rnd.choice(names) for n in self.nodes}
        self.w = tw.World(names[0], self.skin, prov=self.prov, mixed=mixed)
        self.sorted = len(set(str(self.skin.keys[k]) for k in self.keys)) == len(self.keys) \
            and not any(c in str(self.skin.keys[k]) for k in self.keys for c in '\n_: ')
        self.sk = spaces if f['sp'] else []
        self.steps = []
        self.pending = []
        # subscribers may write where notification comes after everything else
        self.nesting = f['life'] and not any(n.startswith('lifein') for n in names)

    # -- observed state, used to stay in the domain of the properties -----
    def state(self, obs):
        s = dict(kids={}, name={}, par={}, uuid={}, spc={})
        for t in self.nodes + self.atts:
            born = t in obs['kids']
            s['kids'][t] = obs['kids'][t] if born else []
            s['name'][t] = obs['name'][t] if born else NONE
            s['par'][t] = obs['par'][t] if born else NONE
            s['uuid'][t] = obs['uuid'][t] if born else NONE
            s['spc'][t] = obs['spc'][t] if born else []
        return s

    def holders(self, v):
        return [m for m, ks in self.s['kids'].items() if any(x == v for _, x in ks)]

    def spholders(self, v):
        return [m for m, ks in self.s['spc'].items() if any(x == v for _, x in ks)]

    def above(self, n):
        res, todo = set(), [n]
        while todo:
            x = todo.pop()
            if x in res:
                continue
            res.add(x)
            todo += self.holders(x) + self.spholders(x)
        return res

    def top(self, n):
        seen = set()
        while n not in seen:
            seen.add(n)
            h = [m for m in self.holders(n) if m not in self.atts]
            if not h:
                return n
            n = h[0]
        return n

    def located(self, n):
        p, k = self.s['par'][n], self.s['name'][n]
        if p not in self.s['kids']:
            return False
        return [k, n] in self.s['kids'][p] or [k, n] in self.s['spc'][p]

    def placed(self, n):
        seen = set()
        while self.s['par'][n] != NONE:
            if n in seen or not self.located(n):
                return False
            seen.add(n)
            n = self.s['par'][n]
        return True

    def addok(self, n, k, v):
        f = self.w.feat(n)
        if v not in self.s['kids']:
            return v in self.skin.frozen or not (f['sp'] and k in self.sk)
        if f['ref'] and not (f['sp'] and k in self.sk):
            return not self.spholders(v) and (
                v not in self.above(n) or self.top(v) == self.top(n)) and (
                not self.holders(v) or self.top(v) == self.top(n))
        return v not in self.above(n)

    # -- choice of operations --------------------------------------------
    def choose(self):
        r = self.rnd
        born = [n for n in self.nodes if n in self.w.obj]
        att = [a for a in self.atts if a in self.w.obj]
        if len(born) < 2 or (len(born) < self.nn and r.random() < .25):
            unborn = [n for n in self.nodes if n not in self.w.obj]
            free = [u for u in self.uuidpool
                    if u not in [self.s['uuid'][b] for b in born]]
            dup = r.random() < .12 and born
            u = NONE
            t = unborn[0]
            if self.w.feat(t)['ref']:
                u = r.choice([self.s['uuid'][b] for b in born]) if dup or not free \
                    else r.choice(free)
            return dict(o='new', n=t, k=r.choice(self.keys + [NONE]), u=u, r=NONE)
        if r.random() < .04:
            return dict(o='newbad', n=r.choice(born))
        n = r.choice(born + att[:2])
        if self.shape == 'deep' and r.random() < .6:
            n = max(r.sample(born, min(4, len(born))), key=lambda x: len(self.above(x)))
        elif self.shape != 'deep' and r.random() < (.6 if self.shape else .4):
            n = max(r.sample(born, min(6, len(born))), key=lambda x: len(self.s['kids'][x]))
        c = r.random()
        if (.26 <= c < .45 or .78 <= c < .82) and r.random() < .85:
            # something to remove or to swap
            m = [x for x in born + att if len(self.s['kids'][x]) > (c >= .78)]
            n = r.choice(m or [n])
        f = self.w.feat(n)
        if .62 <= c < .82 and not f['ins']:
            c = r.random() * .26
        ks = [k for k, _ in self.s['kids'][n]]
        vs = [v for _, v in self.s['kids'][n]]
        anyk = self.keys + [x for x in self.sk if x != '__attrs__' and f['sp']][:2]
        k = r.choice(ks) if ks and r.random() < (.8 if .26 <= c < .33 else .4) else r.choice(anyk)
        if r.random() < (.7 if self.shape else .5) and not .26 <= c < .33:
            k = r.choice([x for x in anyk if x not in ks] or anyk)
        loose = [b for b in born if not self.holders(b)]
        vals = (loose * (3 if not self.shape else 12)) + born + self.plain + ['CLS']
        v = r.choice(vals)
        if f['val'] and r.random() < .8:
            v = r.choice(loose or born)
        if n in att:
            c *= .62
        if f['al'] and r.random() < .5 and v in born:
            v = r.choice(self.plain)
        if c < .26:
            return dict(o='set', n=n, k=k, v=v)
        if c < .33:
            return dict(o='del', n=n, k=k)
        if c < .36 and n not in att:
            if f['life'] or f['ref'] or True:
                return dict(o='detach', n=n, k=r.choice(ks) if ks and r.random() < .8
                            else r.choice(self.keys))
        if c < .40:
            return dict(o='pop', n=n, k=r.choice(ks) if ks and r.random() < .6
                        else r.choice(self.keys), d=r.choice([NONE, 'DEF', 'p0', 'p1']))
        if c < .43:
            return dict(o='popitem', n=n, k=NONE)
        if c < .44:
            return dict(o='clear', n=n)
        if c < .54:
            m = r.randint(0, min(4, len(self.keys)))
            kk = r.sample(self.keys, m)
            if m > 1 and r.random() < .3:
                # the same key twice
                kk[r.randint(m // 2, m - 1)] = r.choice(kk)
            pool = loose * 2 + born if r.random() < .8 else vals
            vv = [r.choice(pool) for _ in kk]
            return dict(o='update', n=n, items=[[a, b] for a, b in zip(kk, vv)])
        if c < .62:
            return dict(o='setdefault', n=n, k=k, v=v)
        if c < .82 and f['ins']:
            v = r.choice(loose or born)
            o = r.choice(['insfirst', 'inslast', 'insbefore', 'insafter', 'insbefore',
                          'insafter'])
            if c >= .78:
                o = 'swap'
            op = dict(o=o, n=n, v=v)
            kids = [x for x in vs if x in self.s['kids']]
            if o in ('insbefore', 'insafter'):
                op['r'] = r.choice(kids) if kids and r.random() < .85 else r.choice(born)
            elif o != 'swap' and not kids and r.random() < .7:
                op['o'] = o = r.choice(['insfirst', 'inslast'])
            if o != 'swap' and r.random() < .85:
                # a name is needed
                free = [x for x in self.keys if x not in ks]
                if free and self.s['name'][v] not in free:
                    self.pending.append(op)
                    return dict(o='rename', n=v, k=r.choice(free))
            if o == 'swap':
                if len(kids) > 1 and r.random() < .9:
                    op['v'], op['r'] = r.sample(kids, 2)
                else:
                    op['v'], op['r'] = r.choice(born), r.choice(born)
            return op
        if c < .84:
            n = r.choice(loose or born)
            return dict(o='rename', n=n, k=r.choice(self.keys + [NONE] +
                                                    (self.sk[1:2] if r.random() < .2 else [])))
        if c < .88 and f['ref']:
            return dict(o='setuuid', n=n, k=r.choice(self.uuidpool))
        if c < .93 and self.hasatt and n not in att:
            return dict(o='attrs', n=n, v='a' + n[1:])
        return dict(o='set', n=n, k=k, v=v)

    def indomain(self, op):
        o, n = op['o'], op['n']
        f = self.w.feat(n)
        s = self.s
        if o in ('set', 'setdefault'):
            if op['v'] == NONE:
                return False
            return self.addok(n, op['k'], op['v'])
        if o == 'update':
            # conservative: a node only once, and not moved within
            ns = [v for _, v in op['items'] if v in s['kids']]
            if f['ref']:
                have = [k for k, _ in s['kids'][n]]
                if any(k in have for k, _ in op['items']) and any(self.holders(v) for v in ns):
                    return False
                return all(self.addok(n, k, v) for k, v in op['items']) \
                    and len(set(ns)) == len(ns)
            return all(self.addok(n, k, v) for k, v in op['items']) \
                and len(set(ns)) == len(ns)
        if o in ('insfirst', 'inslast', 'insbefore', 'insafter'):
            if not self.addok(n, NONE, op['v']):
                return False
            if op.get('r') == op['v'] and not self.holders(op['v']):
                pass
            if 'r' in op and not self.refok(n, op['r']):
                return False
            return f['ref'] or not self.holders(op['v']) or n in self.holders(op['v'])
        if o == 'swap':
            ks = [k for k, _ in s['kids'][n]]
            vs = [v for _, v in s['kids'][n]]
            return self.refok(n, op['v']) and self.refok(n, op['r']) and all(
                x in vs or s['name'][x] not in ks for x in (op['v'], op['r']))
        if o == 'rename':
            return not self.located(n) and not self.holders(n)
        if o == 'attrs':
            return True
        if o == 'new':
            return True
        return True

    def clash(self, op):
        # an insertion which is rejected late: no second failure while it is undone
        if not op['o'].startswith('ins') or not self.w.feat(op['n'])['ref']:
            return False

        def sub(n):
            res = {n}
            for _, v in self.s['kids'][n]:
                if v in self.s['kids']:
                    res |= sub(v)
            return res
        u = self.s['uuid']
        return bool({u[x] for x in sub(op['v'])} & {u[x] for x in sub(self.top(op['n']))})

    def refok(self, n, r):
        return all(k == self.s['name'][r] for k, v in self.s['kids'][n] if v == r)

    def via(self, op):
        o = op['o']
        aa = self.w.accessible(op['n'])
        ident = lambda k: isinstance(self.w.k(k), str)
        if o == 'set':
            return self.rnd.choice(['item', 'item', 'update'] +
                                   (['attr', 'attritem'] if aa and ident(op['k']) else []))
        if o == 'del':
            return self.rnd.choice(['item'] + (['attritem'] if aa else []))
        if o in ('pop', 'setdefault', 'newbad'):
            return self.rnd.choice(['pos', 'kw'])
        if o == 'update':
            kk = [k for k, _ in op['items']]
            tail = kk[len(kk) // 2:]
            c = ['pairs', 'gen'] if len(set(kk)) < len(kk) else \
                ['pairs', 'dict', 'odict', 'gen', 'node']
            if all(ident(k) for k, _ in op['items']):
                c += ['kw'] if len(set(kk)) == len(kk) else []
                c += ['argkw'] * 2 if len(set(tail)) == len(tail) else []
            return self.rnd.choice(c)
        return None

    # -- writes of subscribers ----------------------------------------------
    def nest(self, op, via):
        """Let a subscriber notified of op do another operation."""
        steps = []

        def hook(kind):
            obs = self.w.project()
            before = list(self.w.events)
            old = self.s
            if 'broken' in obs or kind == 'created':
                return
            self.s = self.state(obs)
            for _ in range(20):
                inner = self.choose()
                del self.pending[:]
                if inner['o'] not in ('new', 'newbad', 'attrs') and self.indomain(inner):
                    break
            else:
                self.s = old
                return
            v = self.via(inner)
            out, ev = self.w.run(inner, v)
            if inner['o'] == 'popitem' and out[0] == 'ok' and len(out) == 3:
                inner = dict(inner, k=out[1])
            self.w.events.extend(before)
            steps.extend([dict(o=op, via=(via or '') + ' subscriber', ev=before, fault='none',
                               s=self.s, q=[]),
                          dict(o=inner, via=(v or '') + ' subscriber', ev=ev, fault='none',
                               out=out)])
        self.w.hook = hook
        out, ev = self.w.run(op, via)
        self.w.hook = None
        if steps:
            steps[0]['out'] = out
            steps[1]['ev'] = steps[1]['ev'] + ev[len(steps[0]['ev']):]
        return out, ev, steps

    # -- reads ------------------------------------------------------------
    def questions(self, m):
        r = self.rnd
        born = [n for n in self.nodes + self.atts if n in self.w.obj]
        placed = [n for n in born if self.placed(n)]
        res = []
        for _ in range(m):
            n = r.choice(born)
            if self.shape == 'deep' and r.random() < .6:
                n = max(r.sample(born, min(4, len(born))), key=lambda x: len(self.above(x)))
            f = self.w.feat(n)
            k = r.choice(self.keys)
            c = ['keys', 'iter', 'iterkeys', 'values', 'itervalues', 'items', 'iteritems',
                 'len', 'contains', 'has_key', 'get', 'getn',
                 'getitem', 'filtered', 'walk']
            if n in placed:
                c += ['path', 'root', 'home', 'acquire']
            if f['ref']:
                c += ['node', 'indexed', 'table', 'table'] * 3
            if f['sp']:
                c += ['space', 'spaces', 'contains', 'get', 'getitem']
            if f['ord']:
                c += ['rkeys']
            if self.sorted and n in self.nodes:
                c += ['repr']
            if self.w.readable(n) and isinstance(self.w.k(k), str):
                c += ['getattr']
            w = r.choice(c)
            if w == 'getn' and self.skin.hasnone:
                w = 'get'
            q = dict(q=w, n=n)
            if w in ('contains', 'get', 'getitem', 'has_key') and f['sp'] and r.random() < .3:
                k = r.choice(self.sk)
            if w in ('contains', 'has_key', 'get', 'getn', 'getitem', 'getattr'):
                q['a'] = k
            if w in ('acquire', 'filtered'):
                q['a'] = r.choice(sorted(tw.IFACES) +
                                  (['c0', 'c1'] if w == 'acquire' else []))
            if w == 'acquire' and r.random() < .5:
                # what is provided by the most distant ancestor
                seen, far, x = set(), [], n
                for _ in self.above(n):
                    x = (self.holders(x) + self.spholders(x) + [None])[0]
                    new = [i for i in self.prov.get(x, ()) if i not in seen]
                    seen.update(new)
                    far = new or far
                if far:
                    q['a'] = r.choice(far)
            if w in ('node', 'indexed'):
                live = [self.s['uuid'][x] for x in born if self.s['uuid'][x][0] == 'u']
                q['a'] = r.choice(live) if live and r.random() < .8 else r.choice(self.uuids)
            if w == 'space':
                q['a'] = r.choice(self.sk)
            if w == 'walk':
                p, x = [], n
                for _ in range(r.randint(0, 4 if not self.shape else 9)):
                    ks = [kk for kk, _ in self.s['kids'].get(x, [])]
                    if ks and r.random() < .9:
                        kk = r.choice(ks)
                    else:
                        kk = r.choice(self.keys + self.sk)
                    p.append(kk)
                    x = dict(map(tuple, self.s['kids'].get(x, []))).get(kk, '')
                q['p'] = p
            res.append(q)
        return res

    def run(self):
        r = self.rnd
        w = self.w
        self.s = self.state(dict(kids={}))
        s0 = json.loads(json.dumps(self.s))
        tries = 0
        while len(self.steps) < self.length:
            op = self.pending.pop() if self.pending else self.choose()
            if not self.indomain(op):
                tries += 1
                if tries % 100:
                    continue
                op = dict(o='clear', n=op['n'])
            via = self.via(op)
            fault = 'none'
            if self.faults and r.random() < .3 and op['o'] not in ('new', 'newbad', 'rename', 'attrs'):
                tw.PLAN.arm(r.choice(['write', 'write', 'read']),
                            1 if self.clash(op) else r.choice([1, 1, 1, 2, 3]),
                            r.choice(EXCS))
                fault = 'armed'
            steps = []
            if fault == 'none' and self.nesting and r.random() < .4 and op['o'] in NESTING:
                out, ev, steps = self.nest(op, via)
            else:
                out, ev = w.run(op, via)
            if tw.PLAN.disarm():
                fault = 'fired'
            if op['o'] == 'popitem' and out[0] == 'ok' and len(out) == 3:
                op = dict(op, k=out[1])
            obs = w.project()
            step = dict(o=op, via=via or '', out=out, ev=ev, fault=fault)
            if steps:
                self.steps.append(steps[0])
                step = steps[1]
                out = step['out']
            if 'broken' in obs:
                step['s'] = dict(broken=obs['broken'])
                step['q'] = []
                self.steps.append(step)
                break
            self.s = self.state(obs)
            step['s'] = self.s
            m = r.choice([0, 1, 2, 4]) if len(self.steps) + 1 < self.length else 40
            qs = []
            born = [n for n in self.nodes if n in w.obj]
            if born:
                qn = [dict(q='table', n=n) for n in born if self.w.feat(n)['ref']]
                if m < 40:
                    qn = r.sample(qn, min(2, len(qn)))
                for q in self.questions(m) + qn:
                    q['r'] = w.query(q)
                    qs.append(q)
            step['q'] = qs
            self.steps.append(step)
            if guard.HANGS[0]:
                break
        C = dict(f={t: w.feat(t) for t in self.nodes},
                 sk=self.sk, frozen=self.skin.frozen, prov={t: self.prov.get(t, []) for t in self.nodes + self.atts},
                 rank={t: i for t, i in self.skin.rank().items()})
        for a in self.atts:
            C['f'][a] = dict(tw.ATTF, al=C['f']['n' + a[1:]]['life'])
        return dict(C=C, s0=s0, steps=self.steps)


def main():
    guard.setup()
    out, seed, count, length, profiles = sys.argv[1:6]
    faults = len(sys.argv) > 6 and sys.argv[6] == '1'
    profiles = profiles.split(',')
    steps = 0
    with open(out, 'w') as f:
        for i in range(int(count)):
            if guard.HANGS[0]:
                break
            rnd = random.Random('{}-{}'.format(seed, i))
            trace = Trace(rnd, profiles[i % len(profiles)], int(length), faults, 'deep' in seed)
            t = trace.run()
            t['meta'] = dict(profile=profiles[i % len(profiles)], seed=seed, index=i,
                             similar=trace.skin.similar)
            steps += len(t['steps'])
            f.write(json.dumps(t) + '\n')
    print(json.dumps(dict(steps=steps, traces=int(count))))


if __name__ == '__main__':
    main()
