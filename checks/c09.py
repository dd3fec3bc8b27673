"""C09: layer conditions (spec/LayerConditions.tla, spec/LayerTrace.tla)."""
import argparse
import io
import math
import os
import random

from checks import kernelrig as rig
from checks.c07 import operations
from checks.common import quiet
from checks.simproc import parallel


def analyse(job):
    import kerncraft
    import kerncraft.kernel as K
    from checks.c23 import description
    from kerncraft.cacheprediction import LayerConditionPredictor
    from kerncraft.machinemodel import MachineModel
    from kerncraft.models import LC
    m = MachineModel(machine_yaml=description(job['content'], kerncraft.__version__))
    if 'code' in job:
        m.dump('machine%d.yml' % job['serial'])
        m = MachineModel('machine%d.yml' % job['serial'])
        name = os.path.abspath('kernel%d.c' % job['serial'])
        with open(name, 'w') as f:
            f.write(job['code'])
        os.utime(name, (1e9, 1e9))
        k = quiet(K.KernelCode, job['code'], machine=m, filename=name)
    else:
        k = quiet(K.KernelDescription, job['description'], machine=m)
    caches = [l.size() for l in m.get_cachesim(job['cores']).levels(with_mem=False)]
    out = []

    def use(consts):
        k.clear_state()
        for name, v in consts.items():
            k.set_constant(name, v)

    for n, consts in enumerate(job['valuations'][:2]):
        use(consts)
        try:
            p = quiet(LayerConditionPredictor, k, m, job['cores'])
        except (ValueError, TypeError) as e:
            return dict(rejected=repr(e)[:300]) if n == 0 else dict(bad='refused only with other constants: %r' % e)
        loads, stores = p.get_loads(), p.get_stores()
        if not (math.isnan(loads[0]) and math.isnan(stores[0])):
            # if they were known they had to be all accesses
            return dict(bad='loads or stores of the first level: %r %r' % (loads, stores))
        out.append(dict(what='predicted' if job['must'] else 'plain', consts=consts, caches=caches,
                        hits=list(p.get_hits()), misses=list(p.get_misses()), evicts=list(p.get_evicts()),
                        loads=loads[1:], stores=stores[1:]))
    if job['must']:
        if job['early']:
            k.clear_state()
        p = LC(k, m, argparse.Namespace(cores=job['cores'], verbose=0) if job['cores'] > 1 or job['early'] else None)
        quiet(p.analyze)
        text = io.StringIO()
        p.report(output_file=text)
        wrong = misreported(text.getvalue(), m.get_cachesim(job['cores']).levels(with_mem=False), p.results)
        if wrong:
            return dict(bad=wrong)
        options = [[[o['hits'], o['misses'], o['evicts']] for o in c] for c in p.results['cache']]
        truth = []
        for consts in job['valuations']:
            use(consts)
            truth.append([[int(bool(k.subs_consts(o['condition']))) for o in c] for c in p.results['cache']])
        out.append(dict(what='conditions', caches=caches, options=options, truth=truth, valuations=job['valuations']))
    return out


def spoil(rng, p):
    """Make a kernel one to which layer conditions can not be applied (most of the time)."""
    refs = [a for a in rig.reads(p) + rig.writes(p) if a['ix']]
    inner = p['loops'][-1]['i']
    kind = rng.choice(['step', 'double', 'swap', 'swap', 'both', 'other', 'reverse', 'product', 'product'])
    if kind == 'step':
        l = rng.choice(p['loops'])
        l['d'], l['next'] = rig.c(2), '+='
        return
    a = rng.choice(refs)
    if kind == 'swap' and len(a['ix']) > 1:
        x, y = rng.sample(range(len(a['ix'])), 2)
        a['ix'][x], a['ix'][y] = a['ix'][y], a['ix'][x]
    elif kind == 'both' and len(p['loops']) > 1:
        a['ix'][-1] = rig.b(a['ix'][-1], '+', rig.n(p['loops'][-2]['i']))
    elif kind == 'other' and len(p['loops']) > 1 and len(a['ix']) > 1:
        a['ix'][0] = rig.b(a['ix'][0], '+', rig.n(inner))
    elif kind == 'reverse':
        a['ix'][-1] = rig.b(p['loops'][-1]['e'], '-', rig.n(inner))
    elif kind == 'product' and len(p['loops']) > 1:
        x, y = rng.sample(p['loops'], 2)
        a['ix'][rng.choice([-1, 0])] = rig.b(rig.n(x['i']), '*', rig.n(y['i']))
    else:
        a['ix'][-1] = rig.b(rig.c(2), '*', rig.n(inner))


def misreported(text, levels, results):
    """What the report says that is not found in the results (or the other way round)."""
    told, want = [], []
    for line in text.split('\n'):
        if line.startswith('Layer conditions'):
            told.append(line.split()[-4:] + [line.split()[3]])
        elif line.strip() and 'condition' not in line:
            told.append(line.split())
    for level, options in zip(levels, results['cache']):
        want.append(['cache', 'with', str(level.size() // 1024), 'KB:', level.name])
        for o in options:
            want.append(repr(o['condition']).split() + [str(o['misses']), str(o['hits'])])
    if told != want:
        return 'report tells %r, results are %r' % (told[:12], want[:12])


CONSTS = {1: [['N'], ['M'], ['nx']], 2: [['M', 'N'], ['N', 'N'], ['ny', 'nx']], 3: [['M', 'N', 'L'], ['N', 'N', 'N'], ['M', 'N', 'N'], ['M', 'M', 'N']]}


def stencil(rng):
    """Kernel to which layer conditions can be applied."""
    nl = rng.choice([1, 1, 2, 2, 2, 3])
    idx = rng.choice([['i', 'j', 'k'], ['k', 'j', 'i'], ['z', 'y', 'x']])[:nl]
    dims = rng.choice(CONSTS[nl])
    far = rng.choice([1, 1, 2, 3, 5])
    loops = [dict(i=i, s=rig.c(far), e=rig.b(rig.n(d), '-', rig.c(far)), d=rig.c(1), next=rng.choice(['++', 'p++', '+=']),
                  cond='<', cvar=i, nvar=i, declared=1, braces=rng.random() < .5) for i, d in zip(idx, dims)]
    arrays = {}
    for a in rng.sample(['a', 'b', 'c', 'u', 'v', 'w'], rng.choice([1, 2, 2, 3, 3, 4])):
        nd = nl if rng.random() < .75 else rng.randint(1, nl)
        flat = rng.random() < .07
        arrays[a] = (nd, flat)

    def ref(a):
        nd, flat = arrays[a]
        if rng.random() < .25:
            offs = [0] * nd
        elif rng.random() < .6:
            offs = [0] * nd
            offs[rng.randrange(nd)] = rng.randint(-far, far)
        else:
            offs = [rng.randint(-far, far) for _ in range(nd)]
        ix = []
        for i, o in zip(idx[nl - nd:], offs):
            e = rig.n(i)
            if o:
                e = rig.b(e, '+', rig.c(o)) if o > 0 else rig.b(e, '-', rig.c(-o))
                if o > 0 and rng.random() < .2:
                    e = rig.b(rig.c(o), '+', rig.n(i))
            ix.append(e)
        if flat:
            e = ix[0]
            for x, d in zip(ix[1:], dims[nl - nd + 1:]):
                e = rig.b(rig.b(e, '*', rig.n(d)), '+', x)
            ix = [e]
        return dict(k='a', n=a, ix=ix)
    scalars = rng.sample(['s', 't'], rng.randint(0, 2))

    def leaf():
        r = rng.random()
        if r < .85 or not scalars:
            return ref(rng.choice(list(arrays)))
        return dict(k='a', n=rng.choice(scalars), ix=[])
    body = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        rhs = leaf()
        for _ in range(rng.choice([0, 1, 2, 4, 7])):
            rhs = rig.b(rhs, rng.choice('+-*'), leaf())
        lhs = dict(k='a', n=rng.choice(scalars), ix=[]) if scalars and rng.random() < .15 else ref(rng.choice(list(arrays)))
        body.append(dict(kind='assign', op=rng.choice(['=', '=', '+=']), lhs=lhs, rhs=rhs))
    type_ = rng.choice(['double', 'double', 'float', 'double _Complex'])
    p = dict(loops=loops, body=body, after=[], after_text=[], between=[], between_text=[], itype='int', decls=[])
    used = {x['n'] for x in rig.reads(p) + rig.writes(p)}
    # sometimes an array is not used at all, but is there
    spare = rng.random() < .1
    for a, (nd, flat) in arrays.items():
        if a in used or spare:
            ds = [rig.n(d) for d in dims[nl - nd:]]
            if flat:
                e = ds[0]
                for d in ds[1:]:
                    e = rig.b(e, '*', d)
                ds = [e]
            p['decls'].append(dict(name=a, dims=ds, type=type_))
    p['decls'] += [dict(name=s, dims=[], type=type_) for s in scalars]
    p['order'] = sorted(d['name'] for d in p['decls'] if d['dims'])
    if not any(a['ix'] for a in rig.reads(p) + rig.writes(p)):
        return stencil(rng)
    p['names'] = sorted(set(dims))
    p['flat'] = any(flat and nd > 1 for a, (nd, flat) in arrays.items() if a in used)
    p['far'] = far
    return p


def run(ctx):
    rng = ctx.rng
    ctx.model('MCLayerConditions', workers=6, timeout=900,
              consts=dict(ctx.pick(dict(Far=7, MaxCap=20), dict(Far=12, MaxCap=40))))
    jobs, progs = [], []
    maker = rig.Maker(rng, most=300)
    for x in range(ctx.pick(260, 2500)):
        must = rng.random() < .85
        p = stencil(rng) if must else maker.make()
        spoiled = must and rng.random() < .3
        if spoiled:
            spoil(rng, p)
        names = p['names'] if must else sorted(p['envs'][0])
        vals = []
        top = 80 if len(p['loops']) == 3 else 600
        unit = rng.choice([8, 8, 16, 1, 10])
        for _ in range(6 if must else 2):
            v = {n: unit * rng.randint(-(-40 // unit), top // unit) for n in names}
            if rng.random() < .4:
                v = dict.fromkeys(v, rng.choice(list(v.values())))
            if rng.random() < .1:
                v = {n: rng.randint(2 * p.get('far', 9) + 12, 40) for n in v}
            vals.append(v if must else p['envs'][len(vals)])
        # caches about as large as distances, often exactly
        row = vals[0][p['loops'][-1]['e']['l']['n']] if must else 10
        size = {'double': 8, 'float': 4, 'double _Complex': 16, 'float _Complex': 8}[p['decls'][0]['type']]
        levels = []
        for _ in range(rng.choice([1, 2, 3, 3])):
            kind = rng.choice(['row', 'row', 'row', 'few', 'plane', 'any'])
            want = dict(row=row * size * rng.randint(1, 24), few=size * rng.randint(1, 60),
                        plane=row * row * size * rng.choice([1, 2, 3, 4, 6, 8]), any=rng.randint(64, 10 ** 6))[kind]
            levels.append(max(1, want // 64 + rng.choice([0, 0, 0, -1, 1])))
        levels = [dict(name='L%d' % (n + 1), sets=s, ways=1, group=1) for n, s in enumerate(sorted(levels))]
        cores = 1
        if rng.random() < .2:
            levels[-1]['group'], levels[-1]['sets'], cores = 2, levels[-1]['sets'] * 2, 2
        names = set(names) | {l['i'] for l in p['loops']}
        job = dict(valuations=vals, content=dict(id=1, clock=2, numa=4, levels=levels, bw=[10, 20]), cores=cores, must=must and not spoiled,
                   serial=x, early=rng.random() < .3, text=rig.Printer(rng, plain=True).text(p),
                   envs=[{n: rng.randint(11, 30) for n in sorted(names)} for _ in range(3)])
        if rng.random() < .6 or any(d.get('const') or d.get('init') for d in p['decls']):
            job['description'] = rig.description(p, operations(p))
        else:
            job['code'] = job['text']
        jobs.append(job)
        progs.append(p)
    events, applied, refused = [], 0, 0
    for p, j, r in zip(progs, jobs, parallel(jobs, analyse)):
        ctx.case((j['text'], str(j['content']['levels'])))
        if 'r' not in r:
            ctx.violation('failure', 'exception %s for constants %r, caches %r of\n%s' % (
                r.get('x'), j['valuations'], j['content']['levels'], j['text']), j)
            continue
        if isinstance(r['r'], dict) and 'rejected' in r['r'] and not j['must']:
            refused += 1
            continue
        if isinstance(r['r'], dict):
            if j['must'] and not p['flat'] or 'bad' in r['r']:
                ctx.violation('refused', '%r for constants %r, caches %r of\n%s' % (
                    r['r'], j['valuations'], j['content']['levels'], j['text']), j)
            continue
        rank = {n: 1 if any(n == l['i'] for l in p['loops']) else 300 for n in j['envs'][0]}
        applied += j['must']
        for e in r['r']:
            events.append(dict(e, prog=rig.bare(p), envs=j['envs'], rank=rank, text=j['text']))
    ctx.require(applied >= len(jobs) // 2, 'hardly any layer conditions: %d' % applied)
    ctx.extra['kernels refused'] = refused
    ctx.extra['kernels with layer conditions'] = applied
    ctx.traces += len(events)
    ctx.sample({k: v for k, v in events[0].items() if k not in ('prog', 'envs', 'rank')})
    ctx.validate('LayerTrace', events, chunk=600, describe=describe)
    ctx.assume('array extents are larger than the offsets of accesses (distances are ordered as for large arrays)')


def describe(v, ev):
    return (v['clause'], '%s: %s (specification: %s)\n%s' % (
        v['clause'], str({k: x for k, x in ev.items() if k not in ('prog', 'text', 'envs', 'rank')})[:900],
        v['want'][:300], ev['text']))
