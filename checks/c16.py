"""C16: planning of counter measurements and metrics (spec/MeasurementPlan*.tla)."""
import json
import os
import re
import stat
import sys
import types

from checks.common import REPO, quiet

LIKWID = '''#!%s -ES
import sys, json, os
if '-a' in sys.argv:
    print('Group name\\tDescription')
    print('--------------------')
    print('    MEM\\tMemory bandwidth in MBytes/s')
    print('     L2\\tL2 cache bandwidth')
    sys.exit(0)
group = sys.argv[sys.argv.index('-g') + 1]
print('TABLE,Group 1 Raw,')
print('CPU clock:,%s GHz,')
if group not in ('MEM', 'L2'):
    table = json.load(open('values.json'))
    run = []
    for c in group.split(','):
        event, rest = c.split(':', 1)
        val = table.setdefault(c, 1000 + 37 * len(table) ** 2)
        run.append([event, rest, val])
        print('%%s,%%s,%%d' %% (event, rest, val))
    with open('values.json', 'w') as f:
        json.dump(table, f)
    with open('measured.ndjson', 'a') as f:
        f.write(json.dumps(run) + '\\n')
print('TABLE,Group 1 Metric,')
print('Runtime (RDTSC) [s],2.0')
print('Memory data volume [GBytes],1.5')
'''


def run(ctx):
    import sympy
    from kerncraft.models import benchmark as b
    from kerncraft.machinemodel import MachineModel
    from kerncraft.kernel import KernelCode
    rng = ctx.rng
    events = []

    def tup(q):
        return (q['event'], q['text'], tuple(q['params']))

    def plan(req):
        tuples = [tup(q) for q in req]
        ok, runs = ctx.guarded('plan %s' % ' '.join(b.eventstr(t) for t in tuples),
                               b.build_minimal_runs, list(tuples), _seconds=10)
        ctx.case(('plan', tuple(tuples)))
        ctx.traces += 1
        if ok:
            events.append(dict(ev='plan', req=req, text=[':'.join((t[0], t[1]) + t[2]) for t in tuples],
                               runs=[[dict(event=e[0], reg=e[1], params=list(e[2] or ())) for e in r]
                                     for r in runs]))

    # ---- plans for all small requests, and for sampled larger ones ---------------------------
    ctx.model('MCMeasurementPlan', 'MeasurementPlan.cfg', timeout=600,
              consts={'Pool': ctx.pick('SmallPool', 'MCPool')})
    r = ctx.tlc('MCMeasurementPlan', 'MeasurementRequests.cfg', timeout=600,
                consts={'MaxReq': ctx.pick(3, 4)})
    for p in r.prints:
        plan(p['req'])
    big = ctx.tlc('MCMeasurementPlan', 'MeasurementRequests.cfg', count=False, timeout=300,
                  consts={'Pool': 'BigPool', 'MaxReq': 9},
                  args=['-simulate', 'num=%d' % ctx.pick(300, 3000), '-depth', '11', '-seed', str(ctx.seed)])
    bigreq = [p['req'] for p in big.prints]
    for q in bigreq:
        plan(q)

    # requests that can not be measured at all are refused, not planned forever
    for q in ([('A', 'PMC[3-0]', ())], [('A', 'PMC0', ()), ('B', 'PMC[3-0]', ())]):
        try:
            with ctx.limit(10, 'plan of %r' % (q,)):
                runs = b.build_minimal_runs(list(q))
            if any(e[0] == q[-1][0] for r in runs for e in r):
                ctx.violation('impossible-request %r' % (q,), 'planned as %r' % (runs,))
        except Exception:
            pass
        except BaseException as e:
            ctx.violation('impossible-request-hangs %r' % (q,), repr(e))

    # ---- metrics -------------------------------------------------------------------------------
    r = ctx.tlc('MCMeasurementPlan', 'MeasurementMetrics.cfg', timeout=600)
    metrics = sorted(r.prints, key=lambda p: p['text'])
    if not ctx.thorough:
        metrics = rng.sample(metrics, 1500)
    for p in metrics:
        ok, got = ctx.guarded('metric %s' % p['text'], MachineModel.parse_perfmetric, p['text'])
        ctx.case(('metric', p['text']))
        if not ok:
            continue
        expr, evs = got
        names = {str(s): t for s, t in evs.items()}
        # counters that cancel out may be missing
        if not set(names) <= set(p['ctrs']):
            ctx.violation('metric-counters %s' % p['text'], 'reads counters %r' % names)
            continue
        for s, t in names.items():
            if t != MachineModel.parse_perfctr_event(s):
                ctx.violation('metric-events %s' % p['text'], '%s read as %r' % (s, t))
        val = expr.subs({s: p['of'][str(s)] for s in evs})
        if val != p['val']:
            ctx.violation('metric-value %s' % p['text'], 'specified %r, code computes %r' % (p['val'], val), p)
    ctx.sample({'metric': p['text'], 'value': p['val']})

    # ---- complete measurements with a stand-in for likwid-perfctr -------------------------------
    os.mkdir('bin')
    machine_file = 'machine.yml'
    with open(REPO + '/tests/test_files/SandyBridgeEP_E5-2680.yml') as f:
        text = f.read()
    with open(machine_file, 'w') as f:
        f.write(text)
    clock = MachineModel(machine_file)['clock']
    with open('bin/likwid-perfctr', 'w') as f:
        f.write(LIKWID % (sys.executable, repr(float(clock) / 1e9)))
    os.chmod('bin/likwid-perfctr', stat.S_IRWXU)
    os.environ['PATH'] = os.path.join(os.getcwd(), 'bin') + ':' + os.environ['PATH']
    code = 'double a[N], b[N];\nfor(int i=0; i<N; i++) {\n  a[i] = b[i];\n}\n'
    args = types.SimpleNamespace(cores=1, no_phenoecm=False, verbose=0, iterations=10, ignore_warnings=True,
                                 compiler=None, compiler_flags=None)

    def show(e):
        if e['op'] == 'c':
            return e['c']
        if e['op'] == 'Max':
            return 'Max(%s, %s)' % (show(e['l']), show(e['r']))
        return '%s %s %s' % (show(e['l']), e['op'], show(e['r']))

    def counters(e):
        return {e['c']} if e['op'] == 'c' else counters(e['l']) | counters(e['r'])

    pool = {}
    for q in bigreq:
        for e in q:
            pool[':'.join([e['event'], e['text']] + e['params'])] = e
    names = sorted(pool)

    def leaf():
        return dict(op='c', c=rng.choice(names))

    def build():
        e = leaf()
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            e = dict(op=rng.choice(['+', '+', 'Max']), l=e, r=leaf())
        return e

    spots = [('L1', 'loads'), ('L1', 'stores'), ('L2', 'loads'), ('L2', 'stores'), ('L2', 'misses'),
             ('L3', 'loads'), ('L3', 'stores'), ('L3', 'misses'), ('L3', 'evicts'),
             ('MEM', 'loads'), ('MEM', 'stores')]
    for n in range(ctx.pick(40, 400)):
        for f in ('values.json', 'measured.ndjson'):
            with open(f, 'w') as fp:
                fp.write('{}' if f == 'values.json' else '')
        machine = MachineModel(machine_file)
        machine.current_system = lambda **kw: True
        exprs = {}
        hierarchy = {h['level']: h for h in machine['memory hierarchy']}
        for h in hierarchy.values():
            h['performance counter metrics'] = {}
        for level, m in spots:
            exprs[level, m] = build()
            hierarchy[level]['performance counter metrics'][m] = show(exprs[level, m])
        exprs['T_OL', ''] = build()
        machine['overlapping model']['performance counter metric'] = show(exprs['T_OL', ''])
        machine['non-overlapping model']['performance counter metric'] = show(build())
        kernel = KernelCode(code, machine=machine)
        kernel.set_constant('N', 4096)
        kernel.build_executable = lambda **kw: ('./none', open(os.devnull))
        wanted = sorted(set().union(*[counters(e) for e in exprs.values()]
                                    + [set(re.findall(r'[A-Z0-9_]+:\S+?(?=[,)\s]|$)', machine[
                                        'non-overlapping model']['performance counter metric']))]))

        def measure():
            model = b.Benchmark(kernel, machine, args)
            model.analyze()
            return model.results
        ok, res = ctx.guarded('measurement', quiet, measure, _seconds=60)
        ctx.traces += 1
        ctx.case(('measure', n))
        if not ok:
            continue
        if not res['data transfers']:
            ctx.violation('metrics-not-evaluated', 'metrics of %r were not evaluated' % (
                {k: show(e) for k, e in exprs.items()},))
            continue
        runs = []
        with open('measured.ndjson') as f:
            for line in f:
                runs.append([dict(event=e, reg=rest.split(':')[0], params=rest.split(':')[1:], val=v)
                             for e, rest, v in json.loads(line)])
        events.append(dict(ev='plan', req=[pool[w] for w in wanted], text=wanted, runs=runs))
        # cache lines of work in the measured run, the stand-in always reports 2 seconds
        lines = 4096 / 8 * 2.0 / res['Runtime (per repetition) [s]']
        for (level, m), e in sorted(exprs.items()):
            got = res['ECM']['T_OL'] if level == 'T_OL' else res['data transfers'][level][m].value
            try:
                scaled = float(got) * lines
            except TypeError:
                ctx.violation('metric-unresolved', '%s %s = %s is %r' % (level, m, show(e), got), runs)
                continue
            if abs(scaled - round(scaled)) > 1e-3:
                ctx.violation('metric-scale', '%s %s = %s: %r per cache line' % (level, m, show(e), got), runs)
                continue
            events.append(dict(ev='metric', expr=e, got=int(round(scaled)), text=[level, m, show(e)],
                               of={c: pool[c] for c in sorted(counters(e))}))
    ctx.sample({k: events[-1][k] for k in ('text', 'got')})
    ctx.validate('MeasurementTrace', events, timeout=600, describe=lambda v, ev: (
        '%s %s' % (v['clause'], ' '.join(ev['text'])),
        '%s: %s' % (v['clause'], json.dumps(ev)[:1200])))
    ctx.assume('likwid-perfctr is replaced by a stand-in that returns a value for every counter it is asked for')
    ctx.assume('in metrics, operators are separated from counters by blanks')
