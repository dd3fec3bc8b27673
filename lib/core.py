"""Shared machinery: context of a check, TLC runs, trace validation, known findings."""
import contextlib
import itertools
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.environ.get('VERIF_DIR', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(os.environ.get('VERIF_DIR', '/verif'), 'evidence'))
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'


class Enough(BaseException):
    """Ends a check early because of the violations found."""


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """Raised by Ctx.limit when the code under test does not terminate."""


def from_repo(exc):
    """True when the exception passed through code of the repository under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(
                    os.path.realpath(REPO) + os.sep):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


class TLCResult(object):
    def __init__(self):
        self.out = ''
        self.generated = 0
        self.distinct = 0
        self.ok = False
        self.violated = None
        self.prints = []


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(seed * 1000003 + int(re.sub(r'\D', '', pid) or 0))
        self.scratch = os.environ['VERIF_SCRATCH']
        self.work = os.getcwd()
        self.violations = []
        self.known_hits = {}
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.assumptions = []
        self.extra = {}
        self.evaluations = 0
        self._nontrivial = set()
        self.nruns = 0
        self.known = self._load_known()
        self.tlc_log = []
        self.unmet = []
        self.hangs = 0

    # -- known findings ---------------------------------------------------------------------
    def _load_known(self):
        known = {}
        path = os.path.join(VERIF, 'known_findings.jsonl')
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if not line or line.startswith('fixed:') or line.startswith('#'):
                        continue
                    d = json.loads(line)
                    if d['property'] == self.pid:
                        known[d['key']] = d['what']
        return known

    # -- bookkeeping ------------------------------------------------------------------------
    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, obj, limit=12):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def case(self, key=None):
        """Count an evaluation; *key* identifies a non-trivial distinct case."""
        self.evaluations += 1
        if key is not None:
            self._nontrivial.add(key)

    def require(self, condition, what):
        """What the check needs to be worth anything; judged at the end, after violations."""
        if not condition:
            self.unmet.append(what)

    def violation(self, key, what, replay=None):
        """Report a violation. *key* names the failing input/call site/history exactly."""
        if key in self.known:
            if key not in self.known_hits:
                self.known_hits[key] = 1
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]))
            return
        self.violations.append((key, what))
        n = len(self.violations)
        if n > 8:
            return
        d = os.path.join(EVIDENCE, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.pid, n))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'key': key,
                       'what': what, 'replay': replay}, f, indent=1, default=repr)
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('  ', key, ':', str(what)[:1500])
        sys.stdout.flush()

    @contextlib.contextmanager
    def limit(self, seconds, what='call'):
        """Bound the run time of a call into the code under test (main thread only)."""
        def handler(signum, frame):
            raise Hang('%s did not finish within %ss' % (what, seconds))
        old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def guarded(self, key, fn, *args, **kwargs):
        """Call the code under test. Returns (ok, value); exceptions/hangs become violations."""
        seconds = kwargs.pop('_seconds', 60)
        try:
            with self.limit(seconds, key):
                return True, fn(*args, **kwargs)
        except Hang as e:
            self.violation(key + ':hang', str(e))
            self.hangs += 1
            if self.hangs >= 4:
                # every further one would cost its whole limit: what was found is enough
                raise Enough('%d calls did not come to an end' % self.hangs)
        except MachineryError:
            raise
        except Exception as e:
            import traceback
            self.violation(key + ':raised-' + type(e).__name__, '%s: %r' % (key, e),
                           {'traceback': traceback.format_exc()})
        return False, None

    # -- TLC --------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=600, args=(), heap='3g',
            count=True, consts=None, check=True):
        """Run TLC on spec/<module>.tla. Returns TLCResult with the JSON strings it printed.

        *cfg* is either the name of a file in spec/ or a text of a configuration.
        """
        self.nruns += 1
        d = os.path.join(self.scratch, 'tlc%d' % self.nruns)
        shutil.copytree(SPEC, d)
        if cfg is None:
            cfg = module + '.cfg'
        if '\n' in cfg:
            text = cfg
            cfg = 'Gen%d.cfg' % self.nruns
            with open(os.path.join(d, cfg), 'w') as f:
                f.write(text)
        if consts:
            with open(os.path.join(d, cfg)) as f:
                text = f.read()
            for k, v in consts.items():
                text, n = re.subn(r'(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*(?:=|<-)).*$' % re.escape(k),
                                  lambda m: m.group(1) + ' ' + str(v), text)
                if not n:
                    raise MachineryError('constant %s not in %s' % (k, cfg))
            with open(os.path.join(d, cfg), 'w') as f:
                f.write(text)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e['TMPDIR'] = d
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
               '-Djava.io.tmpdir=' + d, '-Dtlc2.tool.impl.Tool.cdot=true',
               '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar',
               'tlc2.TLC', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'),
               '-workers', str(workers or 1), '-config', cfg] + list(args) + [module + '.tla']
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s (%ss)' % (module, timeout))
        finally:
            shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        r = TLCResult()
        r.out = p.stdout.decode('utf-8', 'replace')
        r.rc = p.returncode
        for line in r.out.splitlines():
            s = line.strip()
            if s.startswith('"') and s.endswith('"') and len(s) > 2:
                try:
                    r.prints.append(json.loads(json.loads(s)))
                except ValueError:
                    pass
        m = re.findall(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', r.out)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r'(\d+) states checked', r.out)   # simulation mode
            if m:
                r.generated = r.distinct = int(m[-1])
        m = re.search(r'(?:Invariant|Action property|Temporal properties|property) ?(\w+)? (?:is|were) violated', r.out)
        if m:
            r.violated = m.group(1) or 'temporal'
        r.ok = p.returncode == 0
        self.tlc_log.append({'module': module, 'cfg': cfg, 'generated': r.generated,
                             'distinct': r.distinct, 'rc': p.returncode,
                             'wall_s': round(time.time() - t0, 2)})
        if count:
            self.states += r.distinct
            self.transitions += max(r.generated - 1, 0)
        shutil.rmtree(d, ignore_errors=True)
        if check and not r.ok:
            tail = '\n'.join(r.out.splitlines()[-60:])
            raise MachineryError('TLC failed (rc=%d) on %s/%s:\n%s' % (
                p.returncode, module, cfg, tail))
        return r

    def model(self, module, cfg=None, **kw):
        """Check the specification itself (its properties over its bounded state space)."""
        kw.setdefault('workers', 4)
        r = self.tlc(module, cfg, check=True, **kw)
        return r

    def validate(self, module, events, cfg=None, describe=None, workers=1, chunk=None, collect=None, **kw):
        """Check recorded events of the real code against Trace module *module*.

        The trace module consumes one event per step and prints one JSON record
        {"line":n,"clause":name,"want":...} for every clause an event breaks (total verdict).
        Returns the list of verdict records; what else it prints about a line goes to *collect*.
        """
        events = list(events)
        if not events:
            return []
        out = []
        chunk = chunk or len(events)
        for start in range(0, len(events), chunk):
            part = events[start:start + chunk]
            path = os.path.join(self.scratch, 'trace%d.ndjson' % (self.nruns + 1))
            with open(path, 'w') as f:
                for ev in part:
                    f.write(json.dumps(ev) + '\n')
            env = dict(kw.pop('env', None) or {})
            env['TRACE'] = path
            r = self.tlc(module, cfg, env=env, workers=workers, **kw)
            kw['env'] = {k: v for k, v in env.items() if k != 'TRACE'}
            if not any(isinstance(p, dict) and p.get('done') == len(part) for p in r.prints):
                raise MachineryError('trace of %d events not fully consumed by %s:\n%s' % (
                    len(part), module, '\n'.join(r.out.splitlines()[-40:])))
            os.remove(path)
            for p in r.prints:
                if isinstance(p, dict) and 'clause' in p:
                    p['line'] = p['line'] - 1 + start
                    out.append(p)
                elif collect is not None and isinstance(p, dict) and 'line' in p:
                    collect.append(dict(p, line=p['line'] - 1 + start))
        for v in out:
            ev = events[v['line']]
            key, what = describe(v, ev) if describe else (
                v['clause'], 'event %s breaks clause %s' % (json.dumps(ev)[:600], v['clause']))
            self.violation(key, what, {'event': ev, 'verdict': v})
        return out

    # -- evidence ---------------------------------------------------------------------------
    def finish(self, wall):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['(none)'],
               'evaluations': self.evaluations,
               'distinct_nontrivial': len(self._nontrivial),
               'tlc_runs': self.tlc_log}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov, 'wall_s': round(wall, 2),
              'violations': len(self.violations), 'assumptions': self.assumptions,
              }
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        print('%s %s: %d states, %d transitions, %d traces/behaviours bound to the code, '
              '%d evaluations (%d distinct), %d violations, %.1fs' % (
                  self.pid, self.tier, self.states, self.transitions, self.traces,
                  self.evaluations, len(self._nontrivial), len(self.violations), wall))
