"""C10: measuring with the cache simulator (spec/CacheMeasure.tla, spec/MeasureTrace.tla)."""
import os
import random
from fractions import Fraction

from checks import kernelrig as rig
from checks.c07 import operations
from checks.common import quiet
from checks.simproc import parallel

KINDS = ['LOAD', 'HIT', 'MISS', 'STORE', 'EVICT']


class Recorder(object):
    """Stands in for the simulator of the machine: notes what it is asked for, with answers of its own
    or those of the true simulator."""

    def __init__(self, real, answers, rng, length, limit):
        self.real, self.answers, self.rng, self.length, self.limit = real, answers, rng, length, limit
        self.events = []
        self.made = None

    def loadstore(self, addrs, length=1):
        addrs = list(addrs)
        n = len(addrs)
        at = sorted(set([0, n - 1] + [self.rng.randrange(n) for _ in range(2)])) if n else []
        self.events.append(dict(what='feed', n=n, length=int(length), samples=[
            dict(at=x, loads=sorted(int(a) for a in addrs[x][0]), stores=sorted(int(a) for a in addrs[x][1]))
            for x in at]))
        if self.answers is None:
            self.real.loadstore(addrs, length=length)

    def count_invalid_entries(self):
        if self.answers is None:
            n = self.real.count_invalid_entries()
        else:
            n = self.answers.pop(0) if len(self.answers) > 1 else self.answers[0]
        self.events.append(dict(what='count', n=n))
        return n

    def reset_stats(self):
        self.events.append(dict(what='reset'))
        if self.answers is None:
            self.real.reset_stats()

    def stats(self):
        if self.answers is None:
            s = list(self.real.stats())
        elif self.made is None:
            s = self.made = [dict([('name', l.name)] + [(k + u, self.rng.randint(0, self.limit))
                                                        for k in KINDS for u in ('_count', '_byte')])
                             for l in self.real.levels()]
        else:
            s = self.made
        self.seen = [dict(x) for x in s]
        return iter([dict(x) for x in s])

    def print_stats(self, header=True, file=None):
        return self.real.print_stats(header=header, file=file)

    def __getattr__(self, key):
        return getattr(self.real, key)


def machine(job):
    import kerncraft
    from checks.c23 import description
    from kerncraft.machinemodel import MachineModel
    from kerncraft.prefixedunit import PrefixedUnit
    d = description(job['content'], kerncraft.__version__)
    d['cacheline size'] = PrefixedUnit(float(job['cl']), '', 'B')
    for l in d['memory hierarchy']:
        if 'cache per group' in l:
            l['cache per group']['cl_size'] = job['cl']
    m = MachineModel(machine_yaml=d)
    path = os.path.abspath('machine%d.yml' % job['seed'])
    m.dump(path)
    os.utime(path, (1e9, 1e9))
    return MachineModel(path)


def simulate(job):
    import kerncraft.kernel as K
    from kerncraft.cacheprediction import CacheSimulationPredictor
    m = machine(job)
    recs = []
    original = m.get_cachesim

    def get_cachesim(cores=1):
        recs.append(Recorder(original(cores), list(job['answers']) if job['answers'] else None,
                             random.Random(job['seed']), None, job['limit']))
        recs[-1].cores = cores
        return recs[-1]
    m.get_cachesim = get_cachesim
    if 'code' in job:
        name = 'kernel%d.c' % job['seed']
        with open(name, 'w') as f:
            f.write(job['code'])
        os.utime(name, (1e9, 1e9))
        k = quiet(K.KernelCode, job['code'], machine=m, filename=os.path.abspath(name))
    else:
        k = quiet(K.KernelDescription, job['description'], machine=m)
    for name, v in job['consts'].items():
        k.set_constant(name, v)
    try:
        p = quiet(CacheSimulationPredictor, k, m, job['cores'])
    except (ValueError, AssertionError, ZeroDivisionError) as e:
        # the recording shows how far it got
        return [e_ for r in recs for e_ in r.events] + [dict(what='rejected', why=repr(e)[:200])]
    rec = recs[0]
    out = list(rec.events)
    again = None
    if 'code' in job and job['seed'] % 2:
        # once more, from its intermediate results
        again = quiet(CacheSimulationPredictor, k, m, job['cores'])
    if len(recs) != 1 or rec.cores != job['cores']:
        return dict(bad='asked for simulators of %r cores instead of one for %d' % ([r.cores for r in recs], job['cores']))
    for q in [p] + ([again] if again else []):
        names = [l['level'] for l in m['memory hierarchy']]
        results = []

        def add(what, level, value, count):
            f = Fraction(float(value)).limit_denominator(job['most'])
            if abs(float(f) - float(value)) > 1e-9 * max(1., abs(float(value))):
                f = Fraction(-1)
            results.append([what, names[level], f.numerator, f.denominator, count])
        infos = q.get_infos()
        for kind, get in zip(KINDS, (q.get_loads, q.get_hits, q.get_misses, q.get_stores, q.get_evicts)):
            values = get()
            if len(values) != len(names):
                return dict(bad='%d values of %s for levels %r' % (len(values), kind, names))
            for x, v in enumerate(values):
                add(kind, x, v, rec.seen[x][kind + '_count'])
        word = dict(LOAD='load', HIT='hits', MISS='misses', STORE='stores', EVICT='evicts')
        for x, info in enumerate(infos['memory hierarchy']):
            if info['level'] != names[x] or info['index'] != x:
                return dict(bad='level %d is called %r (%r)' % (x, info['level'], info['index']))
            for kind in KINDS:
                add('lines ' + kind, x, info['total lines ' + word[kind]], rec.seen[x][kind + '_count'])
                add('bytes ' + kind, x, info['total ' + ('loads' if kind == 'LOAD' else word[kind])],
                    rec.seen[x][kind + '_byte'])
        f = Fraction(float(infos['cachelines in stats'])).limit_denominator(64)
        out.append(dict(what='results', results=results, lines=[f.numerator, f.denominator]))
        if q is p and again:
            out.append(dict(what='repeat'))
    return out


def content(rng, cl, entries):
    """Levels of about that many entries altogether."""
    n = rng.choice([1, 2, 2, 3])
    levels = []
    size = max(1, entries // (4 ** (n - 1)))
    for x in range(n):
        ways = rng.choice([1, 2, 4])
        sets = 1
        while sets * ways < size:
            sets *= 2
        levels.append(dict(name='L%d' % (x + 1), sets=sets, ways=ways, group=rng.choice([1, 1, 2]) if x == n - 1 else 1))
        if levels[-1]['group'] > 1:
            levels[-1]['sets'] *= 2
        size *= 4
    return dict(id=1, clock=2, numa=4, levels=levels, bw=[10, 20])


def big(rng, huge):
    """Long steady loops; *huge*: more iterations than are simulated."""
    d = rng.choice([1, 1, 2])
    idx, const = (['i'], ['N']) if d == 1 else (['j', 'i'], ['M', 'N'])
    if d == 1:
        env = dict(N=rng.choice([100000, 100001, 100050, 100109, 101000, 130000, 150001, 200010]))
    else:
        env = dict(M=rng.randint(250, 500), N=rng.randint(400, 600))
    if not huge:
        env = dict(M=rng.randint(4, 20), N=rng.randint(100, 999))
    step = rng.choice([1, 1, 2, 4])
    env = {x: env[x] for x in const}
    lo, hi = rng.randint(0, 2), rng.randint(0, 2)
    loops = [dict(i=i, s=rig.c(lo), e=rig.b(rig.n(x), '-', rig.c(hi)) if hi else rig.n(x), d=rig.c(1), next='++', cond='<',
                  cvar=i, nvar=i, declared=1, braces=True) for i, x in zip(idx, const)]
    loops[-1].update(d=rig.c(step), next='+=')

    def ref(a):
        ix = []
        for i in idx:
            o = rng.randint(-lo, hi)
            ix.append(rig.b(rig.n(i), '+' if o > 0 else '-', rig.c(abs(o))) if o else rig.n(i))
        return dict(k='a', n=a, ix=ix)
    names = rng.sample(['a', 'b', 'c', 'd'], rng.choice([2, 3]))
    rhs = ref(names[1])
    for _ in range(rng.randint(0, 3)):
        rhs = rig.b(rhs, rng.choice('+*'), ref(rng.choice(names)))
    lhs = ref(names[0])
    if rng.random() < .2:
        lhs = dict(k='a', n='s', ix=[])
    type_ = rng.choice(['double', 'float', 'double _Complex'])
    decls = [dict(name=a, dims=[rig.n(x) for x in const], type=type_) for a in names]
    decls.append(dict(name='s', dims=[], type=type_))
    return dict(decls=decls, loops=loops, body=[dict(kind='assign', op='+=' if not lhs['ix'] else '=', lhs=lhs, rhs=rhs)],
                after=[], after_text=[], between=[], between_text=[], itype='int', order=sorted(names), envs=[env])


def moving(p):
    """Accesses of arrays of which the address changes with a counter: something can be simulated."""
    counters = {l['i'] for l in p['loops']}

    def names(e):
        return {e['n']} if e['k'] == 'n' else names(e['l']) | names(e['r']) if e['k'] == 'b' else set()
    return any(names(x) & counters for a in rig.reads(p) + rig.writes(p) for x in a['ix'])


def run(ctx):
    rng = ctx.rng
    ctx.model('MCCacheMeasure', workers=4)
    makers = [rig.Maker(rng, most=1500, sizes=(6, 40)), rig.Maker(rng, most=1500, sizes=(30, 90)),
              rig.Maker(rng, most=300, sizes=(3, 12))]
    jobs, progs = [], []
    count, nbig = ctx.pick((170, 40), (2200, 500))
    while len(jobs) < count:
        large = len(jobs) < nbig
        p = big(rng, rng.random() < .5) if large else rng.choice(makers).make()
        if not moving(p):
            continue
        consts = rng.choice(p['envs'])
        total = 1
        for l in p['loops']:
            s, e, d = (rig.val(l[x], consts) for x in 'sed')
            total *= -(-(e - s) // d)
        if total < 2:
            continue
        cl = rng.choice([32, 64, 64, 128])
        size = {'double': 8, 'float': 4, 'double _Complex': 16, 'float _Complex': 8}[p['decls'][0]['type']]
        # 50 portions are as large as the caches
        entries = max(1, int((total * size * rng.choice([.05, .3, .5, 1, 1, 1.7, 5])) / cl))
        if rng.random() < .2 or large:
            entries = rng.choice([4, 30, 200, 1000])
        exact = rng.random() < .35
        c = content(rng, cl, entries)
        cores = rng.choice([1, 1, 2])
        if cores == 1:
            for l in c['levels']:
                l['group'] = 1
        job = dict(consts=consts, content=c, cl=cl, cores=cores, seed=rng.randrange(10 ** 9), envs=rig.valuations(rng, p),
                   limit=150, most=10 ** 6, answers=None, text=rig.Printer(rng, plain=True).text(p))
        bytes_ = c['levels'][-1]['sets'] * c['levels'][-1]['ways'] * cl
        if not exact and not large and rng.random() < .5:
            # a portion which makes the last one end just at, before or behind the end of the sweep
            k = rng.randint(1, 12)
            want = max(1, (total + rng.choice([0, 0, 0, 1, -1])) // k)
            c['levels'] = [dict(name='L1', ways=1, group=1, sets=max(1, want * 50 * size // cl))]
        if not exact:
            n = rng.choice([0, 1, 2, 3, 5, 20, 60, 200])
            job['answers'] = [rng.randint(1, 50) for _ in range(n + 1)] + [rng.choice([0, 0, 0, 7])]
        if rng.random() < .7 or any(l.get('const') or l.get('init') for l in p['decls']):
            job['description'] = rig.description(p, operations(p))
        else:
            job['code'] = job['text']
        jobs.append(job)
        progs.append(p)
    events, measured, rejected = [], 0, 0
    for p, j, r in zip(progs, jobs, parallel(jobs, simulate)):
        ctx.case((j['text'], str(j['consts']), str(j['content']), str(j['answers'])))
        if 'r' not in r or isinstance(r['r'], dict):
            ctx.violation('failure', '%s for constants %r, caches %r of\n%s' % (
                r['r']['bad'] if 'r' in r else 'exception %s' % r.get('x'), j['consts'], j['content']['levels'], j['text']), j)
            continue
        one = [dict(what='kernel', prog=rig.bare(p), consts=j['consts'], envs=j['envs'], cl=j['cl'])] + r['r']
        while any(e['what'] == 'repeat' for e in one):
            x = [e['what'] for e in one].index('repeat')
            one = one[:x] + [dict(e) for e in one[:x - 1]] + one[x + 1:]
        measured += one[-1]['what'] == 'results'
        rejected += one[-1]['what'] == 'rejected'
        for e in one:
            e.update(text=j['text'], caches=j['content']['levels'], consts=j['consts'])
        events += one
        ctx.traces += 1
    ctx.require(measured >= len(jobs) // 2, 'hardly any measurements: %d' % measured)
    ctx.extra['measurements'] = measured
    ctx.extra['kernels too small to be measured'] = rejected
    ctx.sample({k: v for k, v in events[1].items()})
    bounds, chunks = [], []
    for e in events:
        if e['what'] == 'kernel' and (not chunks or len(chunks[-1]) > 900):
            chunks.append([])
        chunks[-1].append(e)
    for part in chunks:
        ctx.validate('MeasureTrace', part, describe=describe)


def describe(v, ev):
    return (v['clause'], '%s: %s (specification: %s)\nconstants %s, caches %s\n%s' % (
        v['clause'], str({k: x for k, x in ev.items() if k not in ('prog', 'text', 'envs', 'consts', 'caches')})[:500],
        v['want'][:300], ev.get('consts'), ev.get('caches'), ev['text']))
