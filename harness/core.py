"""Shared machinery of all checks: running TLC, evidence, verdicts.

A check is a function ``run(ctx)``.  It reports through the context:

* ``ctx.tlc(...)``           run TLC on a specification module
* ``ctx.violation(...)``     the code deviates from the specification
* ``ctx.known(...)``         a deviation listed in known-findings.json
* ``ctx.count(...)``         coverage counters of the evidence file
"""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('NODE_REPO', '/repo')
PY = os.environ.get('NODE_PYTHON', '/opt/venv/bin/python')
TLA = '/opt/veriftools/tla'
CP = '{0}/tla2tools.jar:{0}/CommunityModules-deps.jar'.format(TLA)
CPUS = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    pass


class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.lines = {}          # prefix -> list of decoded payloads
        self.text = []
        for line in out.split('\n'):
            if line.startswith('"') and len(line) > 3 and line[2] == ' ' \
                    and line[1].isupper():
                self.lines.setdefault(line[1], []).append(line)
            else:
                self.text.append(line)
        m = re.search(r'(\d+) states generated, (\d+) distinct', '\n'.join(self.text))
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0

    def payload(self, prefix):
        for line in self.lines.get(prefix, []):
            yield json.loads(json.loads(line)[2:])

    @property
    def ok(self):
        return 'Model checking completed. No error has been found.' in '\n'.join(self.text)


def cfgval(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(cfgval(x) for x in v)) + '}'
    raise TypeError(v)


class Context(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.replays = os.path.join(VERIF, 'work', 'replay')
        os.makedirs(self.replays, exist_ok=True)
        self.cov = {}
        self.samples = []
        self.violations = []
        self.findings = []
        self.models = []
        self.assumptions = []
        self.notes = []
        self.level = 'model_checking'
        self.thorough = tier == 'thorough'
        self.known_list = load_known()

    # -- coverage --------------------------------------------------------
    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # -- verdicts --------------------------------------------------------
    def violation(self, what, replay):
        """what: short text.  replay: JSON-able description."""
        sig = hashlib.sha1((what + json.dumps(replay, sort_keys=True, default=repr))
                           .encode()).hexdigest()[:10]
        path = os.path.join(self.replays, '{}-{}.json'.format(self.prop, sig))
        if len(self.violations) < 20:
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, what=what, seed=self.seed,
                               tier=self.tier, replay=replay),
                          f, indent=1, default=repr)
        self.violations.append((what, path))

    def known(self, fid, what):
        self.findings.append((fid, what))

    # -- TLC -------------------------------------------------------------
    def tlc(self, module, spec='Spec', constants=None, invariants=(),
            properties=(), constraints=(), action_constraints=(), view=None,
            workers=2, timeout=600, files=None, must_pass=True, label=None,
            deadlock=False, extra=(), heap='3g', init=None, nxt=None):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        for f in glob.glob(os.path.join(SPEC, '*.tla')):
            shutil.copy(f, d)
        for name, src in (files or {}).items():
            os.symlink(src, os.path.join(d, name))
        cfg = []
        if init:
            cfg.append('INIT {}\nNEXT {}'.format(init, nxt))
        else:
            cfg.append('SPECIFICATION ' + spec)
        if invariants:
            cfg.append('INVARIANTS ' + ' '.join(invariants))
        if properties:
            cfg.append('PROPERTIES ' + ' '.join(properties))
        if constraints:
            cfg.append('CONSTRAINTS ' + ' '.join(constraints))
        if action_constraints:
            cfg.append('ACTION_CONSTRAINTS ' + ' '.join(action_constraints))
        if view:
            cfg.append('VIEW ' + view)
        if not deadlock:
            cfg.append('CHECK_DEADLOCK FALSE')
        if constants:
            cfg.append('CONSTANTS')
            for k, v in constants.items():
                cfg.append(' {} = {}'.format(k, cfgval(v)))
        name = 'check_' + module
        with open(os.path.join(d, name + '.cfg'), 'w') as f:
            f.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
               '-Xss16m', '-Xmx' + heap, '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
               '-config', name + '.cfg'] + list(extra) + [module + '.tla']
        env = {k: v for k, v in os.environ.items()
               if k not in ('JAVA_TOOL_OPTIONS',)}
        t = time.time()
        out = os.path.join(d, 'out.txt')
        with open(out, 'w') as f:
            try:
                rc = subprocess.call(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT,
                                     env=env, timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = -9
        with open(out) as f:
            res = TLCResult(f.read(), rc, time.time() - t)
        if must_pass and not res.ok:
            tail = '\n'.join(x for x in res.text if x.strip()); tail = tail[:1500] + "..." + tail[-1500:]
            raise MachineryError('TLC failed on {} (rc {}):\n{}'.format(module, rc, tail))
        self.models.append(dict(module=module, config=label or '', distinct_states=res.distinct,
                                transitions=res.generated, wall_s=round(res.wall, 1),
                                properties=list(invariants) + list(properties)))
        shutil.rmtree(d, ignore_errors=True)
        return res

    # -- workers ---------------------------------------------------------
    def popen(self, module, args, stdin=None, stdout=None, env=None):
        """Run ``harness.<module>`` in the interpreter of the code under test."""
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                 PYTHONPATH=VERIF + os.pathsep + os.path.join(REPO, 'src'))
        e.update(env or {})
        return subprocess.Popen([PY, '-W', 'ignore', '-B', '-m', 'harness.' + module] +
                                [str(a) for a in args],
                                cwd=VERIF, stdin=stdin, stdout=stdout,
                                stderr=subprocess.PIPE, env=e)

    def pool(self, module, arglists, timeout=600):
        """Run workers in parallel.  -> list of (rc, stdout, stderr)"""
        pend = list(enumerate(arglists))
        run, res = {}, [None] * len(arglists)
        import threading
        lock = threading.Lock()

        def work():
            while True:
                with lock:
                    if not pend:
                        return
                    i, a = pend.pop(0)
                p = self.popen(module, a, stdout=subprocess.PIPE)
                try:
                    o, e = p.communicate(timeout=timeout)
                    res[i] = (p.returncode, o.decode('utf-8', 'replace'),
                              e.decode('utf-8', 'replace'))
                except subprocess.TimeoutExpired:
                    p.kill()
                    o, e = p.communicate()
                    res[i] = ('timeout', o.decode('utf-8', 'replace'),
                              e.decode('utf-8', 'replace'))
        ths = [threading.Thread(target=work) for _ in range(min(CPUS, len(arglists)))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return res

    # -- end -------------------------------------------------------------
    def finish(self):
        for fid, what in self.findings:
            print('KNOWN-FINDING: property={} {}'.format(self.prop, what))
        seen = set()
        for what, path in self.violations:
            if what in seen:
                continue
            seen.add(what)
            if len(seen) <= 10:
                print('VIOLATION property={} replay={} {}'.format(
                    self.prop, path, what.replace('\n', ' ')[:300]))
        cov = dict(states=sum(m['distinct_states'] for m in self.models),
                   transitions=sum(m['transitions'] for m in self.models),
                   traces_validated_against_impl=self.cov.pop('traces', 0),
                   samples=self.samples or ['none'],
                   models=self.models)
        cov.update(self.cov)
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        shutil.rmtree(self.work, ignore_errors=True)
        print('{} {}: {} ({:.1f}s)'.format(
            self.prop, self.tier,
            'VIOLATED' if self.violations else 'held on everything explored',
            time.time() - self.t0))
        return 1 if self.violations else 0


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def main(run, prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if '--quick' in sys.argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Context(prop, tier, seed)
    try:
        run(ctx)
    except MachineryError as e:
        print('ERROR of the check {}: {}'.format(prop, e))
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 2
    return ctx.finish()
