"""C15: selection of measured bandwidths (spec/Bandwidth.tla)."""
import copy
import glob
import json

from checks.common import REPO


def run(ctx):
    import sympy
    from kerncraft.machinemodel import MachineModel
    from kerncraft.prefixedunit import PrefixedUnit
    from kerncraft import __version__
    rng = ctx.rng
    events = []
    ctx.model('Bandwidth', 'Bandwidth.cfg', timeout=600, consts={'MaxTarget': ctx.pick(3, 6)})
    UNIT = 1e5       # bandwidths are passed to the specification in units of 0.1 MB/s

    def describe_machine(m, text):
        kernels, rows = [], []
        b = m['benchmarks']
        for name, k in sorted(b['kernels'].items()):
            kernels.append(dict(name=name, r=k['read streams']['streams'], w=k['write streams']['streams'],
                                x=k['read+write streams']['streams'], rb=int(float(k['read streams']['bytes'])),
                                wb=int(float(k['write streams']['bytes'])),
                                xb=int(float(k['read+write streams']['bytes']))))
        levels = [h['level'] for h in m['memory hierarchy']]
        for i, lv in enumerate(levels):
            for t, meas in sorted(b['measurements'].get(lv, {}).items()):
                rows.append(dict(level=i, threads=t, cores=list(meas['cores']),
                                 results={k: [int(round(float(v) / UNIT)) for v in vs]
                                          for k, vs in sorted(meas['results'].items())}))
        events.append(dict(ev='machine', text=text, kernels=kernels, rows=rows,
                           group=[int(h['cores per group']) for h in m['memory hierarchy']],
                           domain=int(m['cores per NUMA domain'])))
        return levels

    def ask(m, text, level, rn, wn, scale, threads, cores, number=float):
        err = got = 0
        kernel = ''
        with ctx.limit(30, 'get_bandwidth'):
            try:
                if number is sympy.Integer:
                    r, w = sympy.Integer(rn), sympy.Integer(wn)
                elif number is int:
                    r, w = rn, wn
                else:
                    r, w = number(rn) / scale, number(wn) / scale
                kw = {} if not cores else {'cores': cores}
                bw, kernel = m.get_bandwidth(level, r, w, threads, **kw)
                got = int(round(float(bw) / UNIT))
            except Exception:
                err, got, kernel = 1, 0, ''
        events.append(dict(ev='ask', text='%s level=%d reads=%s writes=%s/%d (%s) threads=%d cores=%d' % (
            text, level, rn, wn, scale, number.__name__, threads, cores),
            level=level, rn=rn, wn=wn, threads=threads, cores=cores, err=err, got=got, kernel=kernel))
        ctx.case((text, level, rn, wn, scale, threads, cores, number.__name__))

    # ---- the machine descriptions that come with kerncraft ------------------------------------
    files = sorted(glob.glob(REPO + '/examples/machine-files/*.yml')) + [
        REPO + '/tests/test_files/SandyBridgeEP_E5-2680.yml']
    if not ctx.thorough:
        files = rng.sample(files, 4)
    for f in files:
        m = MachineModel(f)
        name = f.split('/')[-1]
        levels = describe_machine(m, name)
        n = len(events)
        for level in range(len(levels)):
            for rn in range(0, 9, ctx.pick(2, 1)):
                for wn in range(0, 5, ctx.pick(2, 1)):
                    ask(m, name, level, rn, wn, rng.choice([1, 2, 8]), 1,
                        rng.choice([0, 0, 1, m['cores per NUMA domain'], m['cores per socket'], 99]))
            for _ in range(ctx.pick(10, 60)):
                ask(m, name, level, rng.randint(0, 90), rng.randint(0, 60), rng.choice([1, 8, 16]),
                    rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 2, 3, 500]))
        ctx.traces += 1

    # ---- generated descriptions: arbitrary stream mixes, gaps in measured cores, SMT ------------
    for n in range(ctx.pick(120, 1500)):
        kernels, names = {}, ['load']
        kernels['load'] = (1, 0, 0)
        for i in range(rng.randint(0, 4)):
            r, w = rng.randint(0, 4), rng.randint(0, 3)
            if r + w == 0:
                continue
            kernels['abcdef'[i] if rng.random() < .5 else 'xyzuv'[i]] = (r, w, rng.randint(0, min(r, w)))
        size = rng.choice([4, 8])
        hierarchy = [{'level': lv, 'cores per group': g} for lv, g in (
            ('L1', 1), ('L2', rng.choice([1, 2])), ('L3', rng.choice([2, 4, 6])), ('MEM', rng.choice([4, 6, 12])))]
        val = 0
        meas = {}
        for h in hierarchy:
            meas[h['level']] = {}
            for t in (1, 2)[:rng.randint(1, 2)]:
                style = rng.random()
                if style < .5:
                    cores = list(range(1, 9))
                elif style < .8:
                    cores = sorted(rng.sample(range(1, 13), rng.randint(1, 6)))
                    if 1 not in cores and rng.random() < .7:
                        cores = [1] + cores
                else:
                    cores = [1, 2, 4, 8]
                res = {}
                for k in kernels:
                    vs = []
                    for c in cores:
                        val += 1
                        vs.append(PrefixedUnit(((val * 7919) % 6007 + 10 * c) * 1.0, 'M', 'B/s'))
                    res[k] = vs
                meas[h['level']][t] = {'threads per core': t, 'cores': cores, 'threads': [c * t for c in cores],
                                       'results': res}
        desc = {'kerncraft version': __version__, 'model name': 'generated %d' % n,
                'cores per NUMA domain': rng.choice([1, 2, 4, 6]), 'cores per socket': 12, 'sockets': 1,
                'memory hierarchy': hierarchy,
                'benchmarks': {'measurements': meas, 'kernels': {
                    k: {'read streams': {'streams': r, 'bytes': PrefixedUnit(r * size, 'B')},
                        'write streams': {'streams': w, 'bytes': PrefixedUnit(w * size, 'B')},
                        'read+write streams': {'streams': x, 'bytes': PrefixedUnit(x * size, 'B')},
                        'FLOPs per iteration': 0} for k, (r, w, x) in kernels.items()}}}
        m = MachineModel(machine_yaml=copy.deepcopy(desc))
        describe_machine(m, 'generated %d' % n)
        for _ in range(ctx.pick(25, 40)):
            number = rng.choice([float, float, int, sympy.Integer])
            ask(m, 'generated %d' % n, rng.randrange(4), rng.randint(0, 12), rng.choice([0, 0, 1, 2, 3, 4, 8]),
                1 if number is not float else rng.choice([1, 8]), rng.choice([1, 1, 1, 2]),
                rng.choice([0, 0, 0, 1, 2, 3, 4, 8, 12]), number)
        ctx.traces += 1
    ctx.sample(events[-1])
    ctx.extra['answered'] = sum(1 for e in events if e['ev'] == 'ask' and not e['err'])
    ctx.extra['refused'] = sum(1 for e in events if e['ev'] == 'ask' and e['err'])
    ctx.validate('BandwidthTrace', events, timeout=900, describe=lambda v, ev: (
        '%s: %s' % (v['clause'], ev['text']),
        '%s: %s, specified %s' % (v['clause'], json.dumps(ev)[:400], str(v['want'])[:500])))
    ctx.assume('stream counts up to 90 per level and rational mixes; a closest benchmark without a '
               'measurement may be refused')
