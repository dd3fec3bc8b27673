"""C05: addresses of accesses (spec/KernelLang.tla, spec/KernelTrace.tla)."""
import sympy

from checks import kernelrig as rig
from checks.c07 import operations
from checks.common import quiet
from checks.simproc import parallel


# addresses beyond the integers of TLC are compared modulo these
MODULI = [32749, 32719, 32693]


def far(k, job):
    """Addresses of a few iterations of a kernel with large arrays."""
    its, at = job['iterations'], range(len(job['iterations']))
    if job['run']:
        arg = range(*job['run'])
        at = [arg.index(t) for t in its]
    else:
        arg = list(its)
    offs = k.compile_global_offsets(iteration=arg, spacing=job['spacing'])

    def rests(x):
        assert int(x) == x
        return [int(x) % m for m in MODULI]
    sizes = k.array_sizes(in_bytes=True, subs_consts=True)
    none = len(offs) == 0
    return [dict(what='far', iterations=its, cl=job['cl'], spacing=job['spacing'], consts=job['consts'], moduli=MODULI,
                 loads=[] if none else [sorted(rests(x) for x in offs[y]['load']) for y in at],
                 stores=[] if none else [sorted(rests(x) for x in offs[y]['store']) for y in at],
                 length=int(k.iteration_length()), count=len(offs), asked=len(arg),
                 bytes=[[n, rests(v)] for n, v in sorted(sizes.items())])]


def small(p, env):
    """Whether indices, extents and numbers of iterations are integers of TLC."""
    def most(e):
        v = abs(rig.val(e, env))
        return max([v] + [most(e[x]) for x in 'lr' if e['k'] == 'b'])
    if any(most(e) >= 2**30 for l in p['loops'] for e in (l['s'], l['e'])) or \
            any(most(e) >= 2**30 for d in p['decls'] for e in d['dims']):
        return None
    space = 0
    for d in p['decls']:
        count = 16
        for e in d['dims']:
            count *= rig.val(e, env)
        space += count
    if space >= 2**60:          # no machine has that much memory
        return None
    total, top = 1, dict(env)
    for l in p['loops']:
        a, b, d = [rig.val(l[x], env) for x in 'sed']
        if a < 0:
            return None
        total *= (b - a + d - 1) // d
        top[l['i']] = b
    env = top
    if any(most(e) >= 2**30 for a in rig.reads(p) + rig.writes(p) for e in a['ix']):
        return None
    return total if 0 < total < 2**31 else None


def compute(job):
    import kerncraft.kernel as K
    from kerncraft.prefixedunit import PrefixedUnit
    machine = {'cacheline size': PrefixedUnit(job['cl'], '', 'B')} if job['machine'] else None
    if 'code' in job:
        k = quiet(K.KernelCode, job['code'], machine=machine)
    else:
        k = quiet(K.KernelDescription, job['description'], machine=machine)
    for name, v in job['consts'].items():
        k.set_constant(name, v)
    if 'run' in job:
        return far(k, job)
    iterations = job['iterations']
    if job['range']:
        arg = range(iterations[0], iterations[-1] + 1, iterations[1] - iterations[0] if len(iterations) > 1 else 1)
    elif len(iterations) == 1 and job['single']:
        arg = iterations[0]
    else:
        arg = list(iterations)
    offs = k.compile_global_offsets(iteration=arg, spacing=job['spacing'])
    loads = [sorted(int(x) for x in o['load']) for o in offs]
    stores = [sorted(int(x) for x in o['store']) for o in offs]
    sizes = k.array_sizes(in_bytes=True, subs_consts=True)
    out = [dict(what='addresses', iterations=iterations, loads=loads, stores=stores, length=int(k.iteration_length()),
                bytes=[[n, int(v)] for n, v in sorted(sizes.items())], cl=job['cl'], spacing=job['spacing'],
                consts=job['consts'])]
    envs = [{K.symbol_pos_int(x): v for x, v in e.items()} for e in job['envs']]

    def values(e):
        vs = [sympy.sympify(e).subs(list(env.items())) for env in envs]
        return [int(v) if v.is_Integer else -999999 for v in vs]

    for r, w in ((1, 1), (1, 0), (0, 1)):
        acc = k.compile_sympy_accesses(sources=bool(r), destinations=bool(w))
        dist = k.compile_relative_distances(acc)
        for name in sorted(sizes):
            out.append(dict(what='distances', name=name, reads=r, writes=w, flat=[values(e) for e in acc.get(name, [])],
                            distances=[values(e) for e in dist.get(name, [])]))
    if job['default']:
        # without a list of accesses all of them are used
        acc, dist = k.compile_sympy_accesses(), k.compile_relative_distances()
        for name in sorted(sizes):
            out.append(dict(what='distances', name=name, reads=1, writes=1, flat=[values(e) for e in acc.get(name, [])],
                            distances=[values(e) for e in dist.get(name, [])]))
    return out


def describe(v, ev):
    return (v['clause'], '%s: %s (specification: %s)\nconstants %s\n%s' % (
        v['clause'], str({k: x for k, x in ev.items() if k not in ('prog', 'text', 'envs')})[:500], v['want'][:300],
        ev.get('consts'), ev['text']))


def run(ctx):
    rng = ctx.rng
    ctx.model('MCKernelLang', workers=4)
    maker = rig.Maker(rng, most=200)
    jobs, progs = [], []
    for x in range(ctx.pick(350, 3500)):
        p = maker.make()
        if rng.random() < .15:          # a loop of a single iteration
            l = rng.choice(p['loops'])
            l['s'], l['e'] = rig.c(0), rig.c(1)
        text = rig.Printer(rng).text(p)
        envs = rig.valuations(rng, p)
        for consts in rng.sample(p['envs'], rng.choice([1, 1, 2])):
            total = len(rig.iterations(p, consts))
            its = list(range(total))
            kind = rng.choice(['all', 'all', 'range', 'some', 'one'])
            if kind == 'range':
                its = its[rng.randrange(total)::rng.choice([1, 1, 2, 3])]
            elif kind == 'some':
                its = [rng.choice(its) for _ in range(rng.randint(2, 12))]
            elif kind == 'one':
                its = [rng.choice(its)]
            its = its[:64] if kind != 'all' else its
            machine = rng.random() < .5
            job = dict(consts=consts, iterations=its, envs=envs, machine=machine, range=kind in ('all', 'range'),
                       cl=rng.choice([32, 64, 128, 256]) if machine else 64, text=text, single=rng.random() < .5,
                       spacing=rng.choice([0, 0, 0, 8, 64, 100, 4096]), default=rng.random() < .3)
            if rng.random() < .7:
                job['code'] = text
            else:
                job['description'] = rig.description(p, operations(p))
            jobs.append(job)
            progs.append(p)
    runs = 0
    while runs < ctx.pick(90, 900):
        p = maker.make()
        top = rng.choice({1: [10 ** 5, 10 ** 7, 4 * 10 ** 8], 2: [1000, 20000, 30000], 3: [900, 1200]}[len(p['loops'])])
        consts = {x: rng.randint(top // 2, top) for x in sorted(p['envs'][0])}
        total = small(p, consts)
        if not total:
            continue
        runs += 1
        run = []
        if rng.random() < .15 and total > 1000:       # many at once
            first = rng.randrange(min(total // 2, 10 ** 6))
            step = rng.choice([1, 1, 7])
            count = min((total - first) // step, rng.choice([400, 70000, 150000]))
            run = [first, first + count * step, step]
            its = [first + step * t for t in [0, count - 1] + [rng.randrange(count) for _ in range(5)]]
        else:
            its = [0, total - 1] + [rng.randrange(total) for _ in range(5)]
            rng.shuffle(its)
        text = rig.Printer(rng).text(p)
        job = dict(consts=consts, iterations=its, run=run, envs=rig.valuations(rng, p), machine=rng.random() < .5, text=text,
                   spacing=rng.choice([0, 0, 8, 100, 4096]))
        job['cl'] = rng.choice([32, 64, 128, 256]) if job['machine'] else 64
        if rng.random() < .7:
            job['code'] = text
        else:
            job['description'] = rig.description(p, operations(p))
        jobs.append(job)
        progs.append(p)
    events, accesses = [], 0
    for p, j, r in zip(progs, jobs, parallel(jobs, compute)):
        ctx.case((j['text'], str(j['consts']), str(j['iterations'])))
        if 'r' not in r:
            ctx.violation('failure', 'exception %s for constants %r, iterations %r of\n%s' % (
                r.get('x'), j['consts'], j['iterations'], j['text']), j)
            continue
        for e in r['r']:
            accesses += sum(len(x) for x in e.get('loads', [])) + sum(len(x) for x in e.get('stores', []))
            events.append(dict(e, prog=rig.bare(p), envs=j['envs'], text=j['text']))
    ctx.require(accesses >= 10000, 'hardly any accesses: %d' % accesses)
    ctx.extra['addresses compared'] = accesses
    ctx.traces += len(events)
    ctx.sample({k: events[0][k] for k in ('text', 'loads', 'stores', 'consts') if k in events[0]})
    ctx.validate('KernelTrace', events, chunk=1500, describe=describe)
