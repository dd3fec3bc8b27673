"""C13: the Roofline model (spec/Roofline.tla)."""
import re
from fractions import Fraction

from checks.c12 import write_trace
from checks.common import quiet
from checks.modelrig import Rig, close, frac, random_config


def acc(a, o, w=0):
    return dict(arr=a, off=o, w=w)


BODIES = [('a[i] = b[i];', 0, [acc('b', 0)]),
          ('a[i] = b[i] + c[i];', 1, [acc('b', 0), acc('c', 0)]),
          ('a[i] = (b[i-1] + b[i+1] - c[i]) * s;', 3, [acc('b', -1), acc('b', 1), acc('c', 0)]),
          ('a[i] = b[i] * s + c[i] * s + d[i+2] * s;', 5, [acc('b', 0), acc('c', 0), acc('d', 2)]),
          ('a[i] = a[i] * s + b[i];', 2, [acc('a', 0), acc('b', 0)]),
          ('a[i] = (a[i-2] + a[i+1]) * s + b[i];', 3, [acc('a', -2), acc('a', 1), acc('b', 0)]),
          ('a[i] = s;', 0, []), ('s = s + s * s;', 2, None)]
UNITS = ['cy/CL', 'cy/It', 'It/s', 'FLOP/s']


def run(ctx):
    from kerncraft import models
    rng = ctx.rng
    ctx.model('MCRoofline', consts={'MaxStep': ctx.pick(2, 4)}, workers=8, timeout=840)
    rig = Rig(ctx)
    cases = []
    for n in range(ctx.pick(250, 4000)):
        c = random_config(ctx, rng)
        body, c['flops'], reads = rng.choice(BODIES)
        c['acc'] = [] if reads is None else reads + [acc('a', 0, 1)]
        typ = rng.choice(['double', 'float'])
        c['step'] = rng.choice([1, 1, 1, 2, 16])
        c['size'] = 8 if typ == 'double' else 4
        c['bpi'] = c['size'] * c['step']
        c['cores'] = rng.randint(1, c['socket'])
        c['inc'] = c['size'] * (c['inc'] // 8)
        c['peakdp'], c['peaksp'] = rng.choice([(1, 2), (8, 16), (4, 4), (2, 16), (32, 64)])
        c['peak'] = {'SP': {'total': c['peaksp'], 'FMA': 1}, 'DP': {'total': c['peakdp'], 'FMA': 1}}
        c['asm'] = rng.choice([0, 0, 1])
        if rng.random() < .15:
            for lv in c['levels']:
                lv['loads'] = lv['stores'] = [0, 1]
        ok, machine = ctx.guarded('machine', rig.machine, c)
        if not ok:
            return
        code = rig.code(body, c['step'], typ)
        kernel = rig.kernel(code, machine)
        traffic = [(float(Fraction(*lv['loads'])), float(Fraction(*lv['stores']))) for lv in c['levels']]
        spread = {(a['arr'], a['off'] + c['step'] * t, a['w']) for a in c['acc']
                  for t in range(max(c['cl'] // c['bpi'], 1))}
        kernels = []
        for i, (l, s) in enumerate([(len(spread), 0)] + traffic):
            bw, name = machine.get_bandwidth(i, l, s, 1, cores=c['cores'])
            kernels.append((name, float(bw)))
            bw = frac(Fraction(float(bw) / 1e9).limit_denominator(1000))
            if i:
                c['levels'][i - 1]['bw'] = bw
            else:
                c['bw1'] = bw
        rig.incore(kernel, c['ports'], c['thr'], rng.choice([1, 1, -1]) * c['inc'])
        name = rng.choice(['RooflineASM', 'RooflineIACA']) if c['asm'] else 'RooflineFLOP'
        verbose = rng.choice([0, 0, 1, 2, 3])
        args = rig.args(name, rng.choice(UNITS + [None]), c['cores'], verbose, rng.choice(['LC', 'SIM']))
        obs = dict(unit=args.unit, verbose=verbose, kernels=kernels, name=name)
        p1, p2 = rig.traffic([None] + [l for l, _ in traffic], [None] + [s for _, s in traffic])
        with p1, p2:
            try:
                with ctx.limit(60, name):
                    m = getattr(models, name)(kernel, machine, args, rig.parser)
                    quiet(m.analyze)
                    obs['results'] = m.results
                    obs['report'], obs['stray'] = rig.report(m)
                    obs['conv'] = {p: m.conv_perf(rig.U(p, 'It/s')) for p in (1e9, 2.5e8)}
                    obs['seen cores'] = rig.seen_cores
            except Exception:
                import traceback
                obs['exc'] = traceback.format_exc()
        spec = {k: v for k, v in c.items() if k not in ('bench', 'peak')}
        cases.append((spec, obs))
        ctx.traces += 1
        ctx.case(repr(spec))
    out = ctx.tlc('RooflineTrace', env={'TRACE': write_trace(ctx, [c for c, _ in cases])}, timeout=850)
    wants = {p['line']: p for p in out.prints if 'line' in p}
    if len(wants) != len(cases):
        from lib.core import MachineryError
        raise MachineryError('RooflineTrace answered %d of %d configurations' % (len(wants), len(cases)))
    bound = {}
    for n, (c, obs) in enumerate(cases, 1):
        compare(ctx, c, obs, wants[n])
        bound[wants[n]['cpubound']] = bound.get(wants[n]['cpubound'], 0) + 1
    ctx.sample({'config': cases[0][0], 'specified': wants[1]})
    ctx.extra['bound by the CPU'] = bound
    ctx.assume('traffic and in-core figures are injected (their sources are the subject of C09, C10, C21); '
               'the bandwidth of each level is the one get_bandwidth (C18) gives for its streams and core count')


def compare(ctx, c, obs, w):
    from kerncraft.prefixedunit import PrefixedUnit
    key = '%s config %s' % (obs['name'], {k: v for k, v in c.items()})

    def bad(clause, got, want):
        ctx.violation('%s %s' % (clause, key), '%s: model gives %r, specified %r' % (clause, got, want), {'config': c})

    if 'exc' in obs:
        bad('raised', obs['exc'], 'a prediction')
        return
    r = obs['results']
    GHZ, itpercl = 10 ** 9, Fraction(*w['itpercl'])
    clock = Fraction(*c['clock'])

    def units(clause, got, its):
        """dictionary of units against a performance in iterations per nanosecond"""
        cyit = frac(clock * its[1] / its[0]) if its[0] else [1, 0]
        for u, want, scale in (('It/s', its, GHZ), ('FLOP/s', [its[0] * c['flops'], its[1]], GHZ),
                               ('cy/It', cyit, 1), ('cy/CL', frac(Fraction(*cyit) * itpercl) if cyit[1] else cyit, 1)):
            if its[1] == 0 and u == 'FLOP/s' and not c['flops']:
                continue
            x = got[u]
            if not isinstance(x, PrefixedUnit) or x.unit != u:
                bad('%s-unit-%s' % (clause, u), x, u)
            elif not close(float(x) / scale, want):
                bad('%s in %s' % (clause, u), x, want)

    for p, got in obs['conv'].items():
        units('conv_perf', got, frac(Fraction(int(p), GHZ)))
    names = ['L%d' % (i + 1) for i in range(len(c['levels']))] + ['MEM']
    got = r['mem bottlenecks']
    if len(got) != len(names):
        bad('levels', got, names)
        return
    for i, (b, name) in enumerate(zip(got, names)):
        if c['asm'] and i == 0:
            if b is not None:
                bad('first-level-covered-by-in-core-model', b, None)
            continue
        if b['level'] != name:
            bad('level', b['level'], name)
        if not close(b['arithmetic intensity'], w['intensity'][i]):
            bad('arithmetic-intensity-%s' % name, b['arithmetic intensity'], w['intensity'][i])
        if not close(b['bytes transfered'], w['bytes'][i]):
            bad('bytes-%s' % name, b['bytes transfered'], w['bytes'][i])
        if b['bw kernel'] != obs['kernels'][i][0] or abs(float(b['bandwidth']) - obs['kernels'][i][1]) > 1e-9 * obs['kernels'][i][1]:
            bad('bandwidth-%s' % name, (b['bw kernel'], float(b['bandwidth'])), obs['kernels'][i])
        units('limit-%s' % name, b['performance'], w['limits'][i])
    units('memory-limit', r['min performance'], w['memory'])
    cpu = r['cpu bottleneck']['performance throughput'] if c['asm'] else r['max_perf']
    units('CPU-limit', cpu, w['cpu'])
    if c['asm']:
        b = r['cpu bottleneck']
        if set(b['port cycles']) != {p['name'] for p in c['ports']} or any(
                not close(b['port cycles'][p['name']], want) for p, want in zip(c['ports'], w['ports'])):
            bad('port-cycles', b['port cycles'], w['ports'])
        if not close(b['cl throughput'], w['thr']):
            bad('cl-throughput', b['cl throughput'], w['thr'])
        if not close(b['uops'], frac(7 * Fraction(*w['ratio']))):
            bad('uops', b['uops'], w['ratio'])
    if obs['seen cores'] != c['cores']:
        bad('cores-given-to-predictor', obs['seen cores'], c['cores'])
    level = r['bottleneck level']
    if w['memory'][1]:
        x = Fraction(*w['limits'][level]) if level is not None and w['limits'][level][1] else None
        if x is None or abs(x - Fraction(*w['memory'])) > Fraction(1, 10 ** 9) * x or (c['asm'] and level == 0):
            bad('bottleneck-level', level, w['limits'])

    # report
    rep, unit = obs['report'], obs['unit']
    if obs['stray'].strip():
        bad('report-outside-output-file', obs['stray'], '')

    def value(its):
        if unit in ('It/s', 'FLOP/s'):
            f = c['flops'] if unit == 'FLOP/s' else 1
            return None if not its[1] else Fraction(*its) * GHZ * f
        cy = clock * its[1] / its[0] if its[0] else None
        return cy if unit == 'cy/It' or cy is None else cy * itpercl

    def shown(clause, text, its):
        want = value(its)
        m = re.match(r'\s*([0-9.]+|inf|nan) ([kMGTPEZY]?)%s' % re.escape(unit), text)
        if not m:
            bad('report-%s' % clause, text, want and float(want))
        elif want is None:
            if m.group(1) == 'nan' and c['flops'] == 0:
                return
            if m.group(1) != 'inf':
                bad('report-%s' % clause, text, 'inf')
        else:
            f = PrefixedUnit.PREFIXES[m.group(2)]
            if abs(float(m.group(1)) * f - float(want)) > 0.0051 * f + 0.001 * float(want):
                bad('report-%s' % clause, text, float(want))
    m = re.search(r'^(.*) due to (.*?)(?: transfer bottleneck \(with bw from (\S+) benchmark\))?$', rep, re.M)
    if not m:
        bad('report-verdict', rep, 'a bottleneck')
        return
    verdict = m.group(1)
    says_cpu = verdict.startswith('CPU bound. ')
    if w['cpubound'] != 'either' and says_cpu != (w['cpubound'] == 'yes') and \
            not almost(w['cpu'], w['memory']):
        bad('report-verdict', rep, 'CPU' if w['cpubound'] == 'yes' else 'transfers')
        return
    shown('performance', verdict[len('CPU bound. '):] if says_cpu else verdict, w['perf'])
    if not says_cpu:
        name = m.group(2)
        if name not in names or not almost(w['limits'][names.index(name)], w['perf']) or (c['asm'] and name == 'L1'):
            bad('report-names-level', m.group(0), w['limits'])
        else:
            i = names.index(name)
            if m.group(3) != obs['kernels'][i][0]:
                bad('report-benchmark', m.group(0), obs['kernels'][i])
            a = re.search(r'^Arithmetic Intensity: (\S+) It/B', rep, re.M)
            if not a or (w['intensity'][i][1] and abs(float(a.group(1)) - Fraction(*w['intensity'][i])) > 0.00501):
                bad('report-intensity', rep, w['intensity'][i])
    if obs['verbose']:
        rows = dict(re.findall(r'^\s*(CPU|L\d|MEM) \|(.*)$', rep, re.M))
        for name, its in [('CPU', w['cpu'])] + list(zip(names, w['limits']))[c['asm']:]:
            if name not in rows:
                bad('report-table', rep, name)
            else:
                shown('table-%s' % name, rows[name].split('|')[1], its)


def almost(a, b):
    if not a[1] or not b[1]:
        return a[1] == b[1]
    a, b = Fraction(*a), Fraction(*b)
    return abs(a - b) <= Fraction(1, 10 ** 9) * a
