"""C12: the Execution-Cache-Memory model (spec/ECM.tla)."""
import re
from fractions import Fraction

from checks.common import quiet
from checks.modelrig import BODIES, Rig, big, close, frac, random_config


def run(ctx):
    from kerncraft import models
    from kerncraft.prefixedunit import PrefixedUnit
    rng = ctx.rng
    ctx.model('MCECM', consts={'MaxStep': ctx.pick(3, 5)}, workers=8, timeout=840)
    rig = Rig(ctx)
    cases = []
    UNITS = ['cy/CL', 'cy/It', 'It/s', 'FLOP/s']

    for n in range(ctx.pick(250, 2500)):
        c = random_config(ctx, rng)
        body, c['flops'] = rng.choice(BODIES)
        typ, step = rng.choice(['double', 'float']), rng.choice([1, 1, 1, 2])
        size = 8 if typ == 'double' else 4
        c['bpi'] = size * step
        c['cores'] = rng.randint(1, c['socket'])
        c['inc'] = size * (c['inc'] // 8)
        ok, machine = ctx.guarded('machine', rig.machine, c)
        if not ok:
            return
        mem = c['levels'][-1]
        bw, _ = machine.get_bandwidth(len(c['levels']), float(Fraction(*mem['loads'])),
                                      float(Fraction(*mem['stores'])), 1)
        mem['bw'] = frac(Fraction(float(bw) / 1e9).limit_denominator(1000))
        code = rig.code(body, step, typ)
        kernel = rig.kernel(code, machine)
        sign = rng.choice([1, 1, -1])
        rig.incore(kernel, c['ports'], c['thr'], sign * c['inc'])
        loads = [None] + [float(Fraction(*lv['loads'])) for lv in c['levels']]
        stores = [None] + [float(Fraction(*lv['stores'])) for lv in c['levels']]
        unit = rng.choice(UNITS + [None])
        verbose = rng.choice([0, 0, 2])
        args = rig.args('ECM', unit, c['cores'], verbose, rng.choice(['LC', 'SIM']))
        obs = dict(unit=args.unit, verbose=verbose)
        p1, p2 = rig.traffic(loads, stores)
        with p1, p2:
            try:
                with ctx.limit(60, 'ECM'):
                    ecm = models.ECM(kernel, machine, args, rig.parser)
                    quiet(ecm.analyze)
                    obs['results'] = ecm.results
                    obs['report'], obs['stray'] = rig.report(ecm)
                    data = models.ECMData(kernel, machine, args, rig.parser)
                    quiet(data.analyze)
                    obs['data'] = data.results
                    obs['data report'] = rig.report(data)
                    cpu = models.ECMCPU(kernel, machine, args, rig.parser)
                    quiet(cpu.analyze)
                    obs['cpu'] = cpu.results
                    obs['cpu report'] = rig.report(cpu)
                    obs['conv'] = [(data.conv_cy(cy), cpu.conv_cy(cy)) for _, cy in data.results['cycles']]
                    obs['seen cores'] = rig.seen_cores
            except Exception as e:
                import traceback
                obs['exc'] = traceback.format_exc()
                obs['type'] = type(e).__name__
        spec = {k: v for k, v in c.items() if k not in ('bench',)}
        cases.append((spec, obs, code))
        ctx.traces += 1
        ctx.case(repr(spec))
    out = ctx.tlc('ECMTrace', env={'TRACE': write_trace(ctx, [c for c, _, _ in cases])}, timeout=850)
    wants = {p['line']: p for p in out.prints if 'line' in p}
    if len(wants) != len(cases):
        from lib.core import MachineryError
        raise MachineryError('ECMTrace answered %d of %d configurations' % (len(wants), len(cases)))
    rejected = 0
    for n, (c, obs, code) in enumerate(cases, 1):
        rejected += compare(ctx, c, obs, wants[n])
    ctx.sample({'config': {k: v for k, v in cases[0][0].items()}, 'specified': wants[1]})
    ctx.extra['configurations rejected'] = rejected
    ctx.assume('traffic and in-core figures are injected; the predictors and in-core models producing '
               'them are the subject of C09, C10 and C21')
    ctx.assume('in-core models report a throughput of at least the busiest port')


def write_trace(ctx, events):
    import json, os
    path = os.path.join(ctx.scratch, 'configs.ndjson')
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps(e) + '\n')
    return path


def compare(ctx, c, obs, w):
    from kerncraft.prefixedunit import PrefixedUnit
    key = 'config %s' % {k: v for k, v in c.items()}

    def bad(clause, got, want):
        ctx.violation('%s %s' % (clause, key), '%s: model gives %r, specified %r' % (clause, got, want), {'config': c})

    if w['rejected']:
        if obs.get('type') != 'ValueError':
            bad('overlap-order-must-be-rejected', obs.get('type'), 'ValueError')
        return 1
    if 'exc' in obs:
        bad('raised', obs['exc'], 'a prediction')
        return 0
    r = obs['results']
    GHZ = 1e9

    def units(clause, got, cy, its, cyit):
        """dictionary of units against cycles per cache line, iterations per ns, cycles per iteration"""
        flops = [its[0] * c['flops'], its[1]]
        for u, want, scale in (('cy/CL', cy, 1), ('It/s', its, GHZ), ('cy/It', cyit, 1), ('FLOP/s', flops, GHZ)):
            if u == 'FLOP/s' and c['flops'] == 0 and its[1] == 0:
                continue
            x = got[u]
            if not isinstance(x, PrefixedUnit) or x.unit != u:
                bad('%s-unit-%s' % (clause, u), x, u)
            elif not close(float(x) / scale, want):
                bad('%s in %s' % (clause, u), x, want)

    for name, want in (('T_comp', w['tcomp']), ('T_RegL1', w['tregl1'])):
        for where in ('results', 'cpu'):
            if not close(obs[where][name], want):
                bad(name, obs[where][name], want)
    units('cl throughput', obs['cpu']['cl throughput'], w['thr'], w['thrits'], w['thrcyit'])
    names = ['L%d' % (i + 2) for i in range(len(c['levels']) - 1)] + ['MEM']
    for where in ('results', 'data'):
        got = obs[where]['cycles']
        if [g[0] for g in got] != names or len(got) != len(w['cycles']):
            bad('levels', got, names)
        for g, want, nm in zip(got, w['cycles'], names):
            if not close(g[1], want):
                bad('cycles-%s' % where, got, w['cycles'])
            if not close(obs[where][nm], want):
                bad('cycles-by-name', obs[where][nm], want)
        if not close(obs[where]['penalty'], w['penalty']):
            bad('penalty', obs[where]['penalty'], w['penalty'])
    for i, (d, u) in enumerate(obs['conv']):
        units('ECMData.conv_cy', d, w['cycles'][i], w['levelits'][i], w['levelcyit'][i])
        units('ECMCPU.conv_cy', u, w['cycles'][i], w['levelits'][i], w['levelcyit'][i])
    if not close(obs['data']['iterations per cacheline'], w['itpercl']):
        bad('iterations per cacheline', obs['data']['iterations per cacheline'], w['itpercl'])
    if r['flops per iteration'] != c['flops']:
        bad('flops per iteration', r['flops per iteration'], c['flops'])
    parts = r['ECM']
    flat = list(parts[:-1]) + list(parts[-1])
    if len(parts) - 1 != len(w['ol']) or len(parts[-1]) != len(w['nol']) or \
            not all(close(a, b) for a, b in zip(flat, w['ol'] + w['nol'])):
        bad('composition', parts, (w['ol'], w['nol']))
    units('total', r['total cycles'], w['total'], w['its'], w['cyit'])
    sat = r['scaling cores']
    if (sat != float('inf') if w['sat'] == 0 else sat != w['sat']):
        bad('saturation', sat, w['sat'] or 'never')
    preds = r['scaling prediction']
    if len(preds) != len(w['scaling']) or [p['cores'] for p in preds] != list(range(1, len(preds) + 1)):
        bad('scaling-cores', [p['cores'] for p in preds], len(w['scaling']))
        return 0
    itpercl = Fraction(*w['itpercl'])
    clock = Fraction(*c['clock'])
    scaled = []
    for p, s in zip(preds, w['scaling']):
        nn, dd = big(s[0]), big(s[1])
        cy = Fraction(nn, dd)
        its = [1, 0] if not cy else frac(clock * itpercl / cy)
        scaled.append((cy, its))
        units('scaling-%d' % p['cores'], p['performance'], frac(cy), its, frac(cy / itpercl))
    mc = r['multi-core']
    if not mc or mc['cores'] != c['cores']:
        bad('multi-core', mc, c['cores'])
    else:
        cy, its = scaled[c['cores'] - 1]
        units('multi-core', mc['performance'], frac(cy), its, frac(cy / itpercl))
    if obs['seen cores'] != c['cores']:
        bad('cores-given-to-predictor', obs['seen cores'], c['cores'])

    # reports
    def value(cy, its):
        if obs['unit'] == 'cy/CL':
            return cy
        if obs['unit'] == 'cy/It':
            return cy / itpercl
        if its[1] == 0:
            return None
        return Fraction(*its) * 10 ** 9 * (c['flops'] if obs['unit'] == 'FLOP/s' else 1)

    def shown(clause, text, want):
        m = re.match(r'\s*([0-9.]+|inf) ([kMGTPEZY]?)%s' % re.escape(obs['unit']), text)
        if want is None:
            return
        if not m:
            bad('report-%s' % clause, text, float(want))
            return
        x = float(m.group(1)) * PrefixedUnit.PREFIXES[m.group(2)]
        half = 0.0051 * PrefixedUnit.PREFIXES[m.group(2)]
        if abs(x - float(want)) > half + 0.011 * float(want):
            bad('report-%s' % clause, text, float(want))
    rep = obs['report']
    cy = Fraction(*w['total']) if w['total'][1] else None
    lines = [l for l in rep.split('\n') if l.strip()]
    total = [l for l in lines if l.startswith('      = ') and 'max(' not in l]
    if len(total) != 1:
        bad('report-total', rep, 'one line')
    else:
        shown('total', total[0][8:], value(cy, w['its']))
    m = re.search(r'prediction for (\d+) cores, assuming static scheduling: (.*)', rep)
    if not m or int(m.group(1)) != c['cores']:
        bad('report-cores', rep, c['cores'])
    else:
        shown('multi-core', m.group(2), value(*scaled[c['cores'] - 1]))
    row = re.search(r'^perf\. \((.*?)\) \|\|(.*)$', rep, re.M)
    if not row or row.group(1) != obs['unit']:
        bad('report-scaling', rep, obs['unit'])
    else:
        got = row.group(2).split('|')
        for g, s in zip(got, scaled):
            v = value(*s)
            if v is not None and abs(float(g) - float(v)) > 0.051 + 1e-6 * float(v):
                bad('report-scaling-row', got, [float(value(*x) or 0) for x in scaled])
                break
        if len(got) != len(scaled):
            bad('report-scaling-row', got, len(scaled))
    m = re.search(r'saturating at (\S+) cores', rep)
    if not m or m.group(1) != (str(w['sat']) if w['sat'] else 'inf'):
        bad('report-saturation', rep, w['sat'])
    cons = [l for l in lines if 'max(' in l]
    if len(cons) == 2:
        for l, conv in zip(cons, (str, float)):
            m = re.search(r'max\((.*), sum\((.*?)\)\)', l)
            if not m:
                bad('report-construction', l, 'max(..., sum(...))')
            elif conv is float:
                nums = [float(x) for x in m.group(1).split(', ')] + [float(x) for x in m.group(2).split(', ') if x]
                if len(nums) != len(flat) or any(abs(a - b) > 0.0501 for a, b in zip(nums, flat)):
                    bad('report-construction', l, flat)
    text, stray = obs['data report']
    for nm, cyc, its in zip(names, w['cycles'], w['levelits']):
        m = re.search(r'^%s = (.*)$' % nm, text, re.M)
        if not m:
            bad('report-level', text, nm)
        else:
            shown('level', m.group(1), value(Fraction(*cyc), its))
    for name, (a, b) in (('ECMData', obs['data report']), ('ECMCPU', obs['cpu report']), ('ECM', (rep, obs['stray']))):
        if b.strip():
            bad('report-outside-output-file-%s' % name, b, 'everything in the given output file')
    if Fraction(*w['penalty']):
        m = re.search(r'penalty cycles: ([0-9.]+) cy/CL', text + stray)
        if not m or abs(float(m.group(1)) - Fraction(*w['penalty'])) > .0051:
            bad('report-penalty', text + stray, w['penalty'])
    for name, want in (('T_comp', w['tcomp']), ('T_RegL1', w['tregl1'])):
        m = re.search(r'^%s = ([0-9.]+) cy/CL' % name, obs['cpu report'][0], re.M)
        if not m or abs(float(m.group(1)) - Fraction(*want)) > .0501:
            bad('report-' + name, obs['cpu report'][0], want)
    return 0
