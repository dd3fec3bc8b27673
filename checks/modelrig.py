"""Rig that feeds the analytic models chosen in-core and traffic figures (C12, C13)."""
import io
import math
import os
import re
from contextlib import redirect_stderr, redirect_stdout
from fractions import Fraction
from unittest import mock

from checks.common import REPO, nest_code

MACHINE = os.path.join(REPO, 'tests/test_files/SandyBridgeEP_E5-2680.yml')
BODIES = [('a[i] = b[i];', 0), ('a[i] = b[i] + c[i];', 1), ('a[i] = b[i] * s + c[i];', 2),
          ('a[i] = (b[i-1] + b[i+1] - c[i]) * s;', 3), ('a[i] = b[i] * s + c[i] * s + d[i] * s;', 5)]


def frac(x):
    return [Fraction(x).numerator, Fraction(x).denominator]


def close(x, want, rel=1e-9):
    """float against a rational [n, d] (d = 0: infinity)."""
    x = float(x)
    if want[1] == 0:
        return math.isinf(x) and x > 0
    w = Fraction(want[0], want[1])
    return math.isfinite(x) and abs(Fraction(x) - w) <= rel * abs(w) + Fraction(1, 10 ** 15)


def big(limbs):
    return sum(d * 10000 ** i for i, d in enumerate(limbs))


class Rig(object):
    def __init__(self, ctx):
        from kerncraft import cacheprediction, kernel, kerncraft, machinemodel
        from kerncraft.prefixedunit import PrefixedUnit
        self.ctx, self.U = ctx, PrefixedUnit
        self.KernelCode, self.MachineModel = kernel.KernelCode, machinemodel.MachineModel
        self.classes = [cacheprediction.LayerConditionPredictor, cacheprediction.CacheSimulationPredictor]
        self.parser = kerncraft.create_parser()
        self.check_arguments = kerncraft.check_arguments
        with open('k.c', 'w') as f:
            f.write('double a[10];\nfor(int i=0; i<10; ++i) a[i] = 1.0;\n')

    def code(self, body, step, typ):
        return nest_code([(2, 'N - 2', step)], [body],
                         ['%s %s;' % (typ, ', '.join(x + '[N]' for x in 'abcd')), '%s s;' % typ])

    def kernel(self, code, machine, n=1002):
        k = self.KernelCode(code, machine=machine)
        k.set_constant('N', n)
        return k

    def machine(self, c, extra=None):
        """MachineModel of the configuration."""
        U = self.U
        names = ['L%d' % (i + 1) for i in range(len(c['levels']))] + ['MEM']
        hier = [{'level': 'L1', 'transfers overlap': c['l1ol'], 'cores per group': 1,
                 'size per group': U(32.0, 'k', 'B'), 'upstream throughput': ['architecture code analyzer', ['2D']],
                 'cache per group': dict(sets=64, ways=8, cl_size=c['cl'], replacement_policy='LRU',
                                         write_allocate=True, write_back=True, load_from='L2', store_to='L2')}]
        for i, lv in enumerate(c['levels']):
            h = {'level': names[i + 1], 'transfers overlap': lv['ol'], 'cores per group': lv['group'],
                 'size per group': None if lv['kind'] == 'mem' else U(256.0, 'k', 'B')}
            if lv['kind'] == 'mem':
                h['upstream throughput'] = ['full socket memory bandwidth', lv['duplex'] + '-duplex']
                if lv['pl'] != [0, 1] or self.ctx.rng.random() < .5:
                    h['penalty cycles per cacheline load'] = float(Fraction(*lv['pl']))
                if lv['ps'] != [0, 1] or self.ctx.rng.random() < .5:
                    h['penalty cycles per cacheline store'] = float(Fraction(*lv['ps']))
            else:
                h['upstream throughput'] = [U(float(Fraction(*lv['tp'])), '', 'B/cy'), lv['duplex'] + '-duplex']
                h['cache per group'] = dict(sets=64 * 8 ** i, ways=8, cl_size=c['cl'], replacement_policy='LRU',
                                            write_allocate=True, write_back=True)
                if i + 2 < len(names):
                    h['cache per group'].update(load_from=names[i + 2], store_to=names[i + 2])
            hier.append(h)
        for h in hier:
            # the last cache is filled from memory
            if h['level'] == names[-2] and 'cache per group' in h:
                h['cache per group'].pop('load_from', None)
                h['cache per group'].pop('store_to', None)
        data = {
            'kerncraft version': '0.8.11.dev0', 'model name': 'M', 'model type': 'M',
            'clock': U(float(Fraction(*c['clock'])), 'G', 'Hz'), 'sockets': 1, 'cores per socket': c['socket'],
            'threads per core': 1, 'NUMA domains per socket': max(c['socket'] // c['numa'], 1),
            'cores per NUMA domain': c['numa'], 'cacheline size': U(float(c['cl']), '', 'B'),
            'in-core model': {'OSACA': 'SNB'}, 'isa': 'x86', 'compiler': {'gcc': '-O3'},
            'FLOPs per cycle': c.get('peak', {'SP': {'total': 16}, 'DP': {'total': 8}}),
            'overlapping model': {'ports': {'OSACA': [p['name'] for p in c['ports'] if p['cls'] == 'ol']}},
            'non-overlapping model': {'ports': {'OSACA': [p['name'] for p in c['ports'] if p['cls'] == 'nol']}},
            'memory hierarchy': hier,
            'benchmarks': {'kernels': {
                n: {'read streams': {'streams': r, 'bytes': U(8.0 * r, '', 'B')},
                    'write streams': {'streams': w, 'bytes': U(8.0 * w, '', 'B')},
                    'read+write streams': {'streams': rw, 'bytes': U(8.0 * rw, '', 'B')},
                    'FLOPs per iteration': 0}
                for n, (r, w, rw) in {'load': (1, 0, 0), 'copy': (1, 1, 0), 'update': (1, 1, 1),
                                      'triad': (3, 1, 0)}.items()},
                'measurements': {n: {1: {'threads per core': 1, 'cores': list(range(1, c['socket'] + 1)),
                                         'results': {k: [U(float(x), 'G', 'B/s') for x in v]
                                                     for k, v in c['bench'][i].items()}}}
                                 for i, n in enumerate(names)}}}
        data.update(extra or {})
        return self.MachineModel(machine_yaml=data)

    def args(self, model, unit, cores, verbose=0, predictor='SIM', inc=None):
        a = ['-m', MACHINE, '-p', model, '-c', str(cores), '-P', predictor, 'k.c'] + ['-v'] * verbose
        if unit:
            a += ['-u', unit]
        args = self.parser.parse_args(a)
        self.check_arguments(args, self.parser)
        for f in (args.machine, args.code_file):
            f.close()
        return args

    def traffic(self, loads, stores):
        """Replace both predictors by one that reports the given traffic per level."""
        def init(obj, kernel, machine, cores=1, **kw):
            obj.kernel, obj.machine, obj.cores, obj.results, obj.stats = kernel, machine, cores, {}, []
            self.seen_cores = cores
        n = len(loads)
        new = dict(__init__=init, get_loads=lambda s: [float('nan')] + loads[1:],
                   get_stores=lambda s: [float('nan')] + stores[1:],
                   get_misses=lambda s: loads[1:] + [0], get_hits=lambda s: [0] * n,
                   get_evicts=lambda s: stores[1:] + [0], get_infos=lambda s: {'memory hierarchy': []})
        stack = mock.patch.multiple(self.classes[0], **new)
        stack2 = mock.patch.multiple(self.classes[1], **new)
        return stack, stack2

    def incore(self, kernel, ports, thr, inc):
        self.incore_calls = []

        def fake(*args, **kw):
            self.incore_calls.append((args, kw))
            return ({'throughput': float(Fraction(*thr)), 'uops': 7, 'output': 'OUT',
                     'port cycles': {p['name']: float(Fraction(*p['cy'])) for p in ports}}, inc)
        kernel.incore_analysis = fake

    def report(self, model):
        out = io.StringIO()
        so, se = io.StringIO(), io.StringIO()
        with redirect_stdout(so), redirect_stderr(se):
            model.report(output_file=out)
        return out.getvalue(), so.getvalue()


def random_config(ctx, rng, caches=None):
    """A machine configuration with traffic and in-core figures, as the specification takes it."""
    cl = rng.choice([64, 64, 64, 128, 32])
    n = caches or rng.choice([1, 2, 2, 2, 3])
    numa = rng.choice([1, 2, 3, 4, 6, 8])
    socket = numa * rng.choice([1, 1, 2, 3]) if numa < 6 else numa * rng.choice([1, 2])
    amounts = [Fraction(0), Fraction(1), Fraction(2), Fraction(3), Fraction(1, 2), Fraction(5, 4), Fraction(7), Fraction(11, 8)]
    ol = [rng.random() < .4]
    for _ in range(n + 1):
        ol.append(ol[-1] and rng.random() < .6)
    if rng.random() < .1:
        ol = [rng.random() < .5 for _ in ol]
    levels, bench = [], []
    def runs():
        b = rng.randint(3, 60)
        r = []
        for i in range(socket):
            r.append(b)
            b += rng.choice([0, 1, 5, 13, -2])
        return [max(x, 1) for x in r]
    for i in range(n + 2):
        bench.append({k: runs() for k in ('load', 'copy', 'update', 'triad')})
    zero_mem = rng.random() < .15
    for i in range(n + 1):
        mem = i == n
        l, s = rng.choice(amounts), rng.choice(amounts)
        if mem and zero_mem:
            l = s = Fraction(0)
        elif mem and l == s == 0:
            l = Fraction(2)
        levels.append(dict(kind='mem' if mem else 'cache', ol=ol[i + 1], duplex=rng.choice(['half', 'full']),
                           loads=frac(l), stores=frac(s), tp=frac(rng.choice([8, 16, 32, 64, 24])),
                           group=rng.choice([numa, socket]) if mem or i == n - 1 else 1,
                           bw=[1, 1], pl=frac(rng.choice([0, 0, 0, 1, Fraction(9, 4), 13]) if mem else 0),
                           ps=frac(rng.choice([0, 0, 2, Fraction(1, 2)]) if mem else 0)))
    ports = []
    for name in ['0', '0DV', '1', '2', '2D', '3D', '4'][:rng.randint(2, 7)]:
        ports.append(dict(name=name, cls=rng.choice(['ol', 'nol', 'ol', 'nol', 'none']),
                          cy=frac(Fraction(rng.randint(0, 24), rng.choice([1, 2, 4])))))
    top = max(Fraction(*p['cy']) for p in ports)
    thr = top + rng.choice([0, 0, 0, Fraction(1, 2), 3, 10])
    nol = [Fraction(*p['cy']) for p in ports if p['cls'] == 'nol']
    return dict(cl=cl, clock=frac(rng.choice([2, Fraction(5, 2), 3, Fraction(27, 10)])), l1ol=ol[0], ports=ports,
                thr=frac(thr or 1), levels=levels, numa=numa, socket=socket, bench=bench,
                inc=rng.choice([16, 32, 64, 128, 48, 256]))
