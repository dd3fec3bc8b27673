"""C18: command line definitions and result store (spec/CommandLine*.tla)."""
import io
import json
import os
import pickle
import shutil

from checks.common import REPO, quiet

CODE = {
    'k0': 'double a[30];\ndouble b[30];\nfor(int i=0; i<30; i++) {\n  a[i] = b[i];\n}\n',
    'k1': 'double a[N];\ndouble b[N];\nfor(int i=0; i<N; i++) {\n  a[i] = b[i];\n}\n',
    'k2': 'double a[M][N];\ndouble b[M][N];\nfor(int j=0; j<M; j++) {\n  for(int i=0; i<N; i++) {\n'
          '    a[j][i] = b[j][i];\n  }\n}\n',
    'k3': 'double a[P];\ndouble b[P];\nfor(int i=M; i<N-1; i++) {\n  a[i] = b[i];\n}\n',
}
REQ = {'k0': [], 'k1': ['N'], 'k2': ['M', 'N'], 'k3': ['M', 'N', 'P']}
MODEL = {'A': 'LC', 'B': 'ECMData'}
BACK = {v: k for k, v in MODEL.items()}
# what else decides about the outcome: values without and with options
FIXED = dict(asm_block='auto', pointer_increment='auto', compiler=None, compiler_flags=None, incore_model='OSACA',
             iterations=10, no_phenoecm=False, ignore_warnings=False)
SETTINGS = [('asm_block', 1, ['--asm-block', '1']), ('asm_block', 2, ['--asm-block', '2']),
            ('pointer_increment', 16, ['--pointer-increment', '16']),
            ('compiler', 'gcc', ['--compiler', 'gcc']), ('compiler', 'icc', ['-C', 'icc']),
            ('compiler_flags', '-O3', ['--compiler-flags=-O3']), ('compiler_flags', '-O1', ['--compiler-flags=-O1']),
            ('incore_model', 'LLVM-MCA', ['--incore-model', 'LLVM-MCA']), ('iterations', 20, ['--iterations', '20']),
            ('no_phenoecm', True, ['--no-phenoecm'])]


def options(values):
    return ' '.join('%s=%s' % (k, values.get(k)) for k in sorted(FIXED) + ['cores', 'cache_predictor'])


def run(ctx):
    from kerncraft import kerncraft as kc
    from kerncraft import models
    rng = ctx.rng
    log = []
    stamp = [0]

    def recorder(name, orig):
        class Rec(object):
            @classmethod
            def configure_arggroup(cls, ag):
                orig.configure_arggroup(ag)

            def __init__(self, kernel, machine, args, parser=None, *a, **kw):
                self.kernel, self.machine, self.args = kernel, machine, args
                self.results = {}

            def analyze(self):
                log.append((name, sorted([str(k), int(v)] for k, v in self.kernel.constants.items())))
                self.results = {'stamp': stamp[0], 'model': name}

            def report(self, output_file=None):
                print('recorded', file=output_file)
        Rec.name = orig.name
        Rec.__name__ = name
        return Rec

    for n in BACK:
        setattr(models, n, recorder(n, getattr(models, n)))

    for k, c in CODE.items():
        with open(k + '.c', 'w') as f:
            f.write(c)
    for m in ('m1.yml', 'm2.yml'):
        shutil.copy(REPO + '/tests/test_files/SandyBridgeEP_E5-2680.yml', m)

    def text(d):
        if d['kind'] == 'bad':
            return rng.choice(['abc', '', '5x', '12-', '1.5', '1e6', '-5', '10-20:', '4-8:2:lig', '0x10',
                               '7 8', '3-4-5', '10-20:3log2x'])
        if d['kind'] == 'one':
            return str(d['a'])
        if d['kind'] == 'range':
            return '%d-%d' % (d['a'], d['b'])
        if d['kind'] == 'lin':
            return '%d-%d:%d' % (d['a'], d['b'], d['n'])
        return rng.choice(['%d-%d:%dlog', '%d-%d:%dlog2', '%d-%d:%dlog10', '%d-%d:%d:log:2']) % (
            d['a'], d['b'], d['n'])

    parser = [kc.create_parser()]
    events = []

    def parse(d, t):
        argv = ['-p', 'LC', '-m', 'm1.yml', 'k1.c', '-D', d['key'], t]
        try:
            args = quiet(kc.create_parser().parse_args, argv)
            vs = [v for k, v in args.define if k == d['key']]
            args.machine.close()
            args.code_file.close()
            return dict(vs=vs[0], err=0) if len(vs) == 1 else dict(vs=[], err=1)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt,)):
                raise
            return dict(vs=[], err=1, exc=repr(e))

    # ---- 1. meaning of definitions -------------------------------------------------------
    defs = []
    for a in (0, 1, 7, 40):
        defs.append(dict(kind='one', a=a, b=0, n=0))
        for b in (0, 1, 6, 7, 8, 12, 40, 43):
            defs.append(dict(kind='range', a=a, b=b, n=0))
            for n in (0, 1, 2, 3, 4, 7, 12):
                defs.append(dict(kind='lin', a=a, b=b, n=n))
                if n <= 4 and b > 0:
                    defs.append(dict(kind='log', a=a, b=b, n=n))
    for _ in range(ctx.pick(200, 2000)):
        a = rng.randint(1, 5000)
        defs.append(dict(kind=rng.choice(['lin', 'one', 'range']), a=a, b=a + rng.randint(0, 400),
                         n=rng.randint(2, 40)))
        defs.append(dict(kind='log', a=rng.randint(1, 30), b=rng.randint(31, 100), n=rng.randint(2, 4)))
    for t in ['abc', '', '5x', '12-', '1.5', '1e6', '-5', '10-20:', '4-8:2:lig', '0x10', '7 8', '3-4-5',
              '10-20:3log2x', '10-20:3lo', ' 5', '5 ', '5,6', '1-2:3:4']:
        defs.append(dict(kind='bad', a=0, b=0, n=0, text=t))
    for d in defs:
        d = dict(d, key='N')
        t = d.pop('text', None)
        t = text(d) if t is None else t
        with ctx.limit(20, 'parse %r' % t):
            r = parse(d, t)
        events.append(dict(ev='parse', d=d, text=t, **r))
        ctx.traces += 1
        ctx.case(('parse', t))
    ctx.sample(events[5])

    # ---- 2. invocations ------------------------------------------------------------------
    def invoke(inv, store, reuse, use_json=False):
        argv = []
        for m in inv['models']:
            argv += ['-p', MODEL[m]]
        badargs = 0
        dd = []
        for d in inv['defs']:
            t = text(d)
            argv += ['-D', d['key'], t]
        argv += ['-m', inv['machine'], '-c', str(inv['cores']), '-P', inv['pred'],
                 '--store', store] + inv.get('extra', [])
        if use_json:
            argv += ['--json', store + '.json']
        argv.append(inv['kernel'] + '.c')
        rng2 = ctx.rng
        rng2.random()
        del log[:]
        stamp[0] += 1
        err = 0
        exc = ''
        for d in inv['defs']:
            if d['kind'] == 'bad' or d['kind'] == 'range' and d['b'] < d['a']:
                badargs = 1
            else:
                vs = [d['a']] if d['kind'] == 'one' else list(range(d['a'], d['b'] + 1))
                dd.append(dict(key=d['key'], vs=vs))
        try:
            with ctx.limit(120, 'invocation %r' % argv):
                p = parser[0] if reuse else kc.create_parser()
                args = quiet(p.parse_args, argv)
                quiet(kc.check_arguments, args, p)
                quiet(kc.run, p, args, output_file=io.StringIO())
                for f in (args.store, args.json, args.code_file, args.machine):
                    if f:
                        f.close()
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            err = 1
            exc = repr(e)
        ident = dict(kernel=inv['kernel'] + '.c', machine=inv['machine'],
                     opts=options(dict(FIXED, cores=inv['cores'], cache_predictor=inv['pred'], **inv.get('set', {}))))
        runs = [dict(ident, model=BACK[m], consts=c) for m, c in log]
        st = []
        content = {}
        if os.path.exists(store) and os.path.getsize(store):
            with open(store, 'rb') as f:
                content = pickle.load(f)
        for key, val in content.items():
            k = dict(key)
            st.append(dict(kernel=str(k.get('code_file')), machine=str(k.get('machine')),
                           model=BACK.get(k.get('pmodel'), str(k.get('pmodel'))),
                           opts=options(k),
                           consts=sorted([str(a), int(b)] for a, b in k.get('define', ())),
                           stamp=val.get('stamp', -1)))
            if val.get('model') != k.get('pmodel'):
                ctx.violation('store-model', 'result of %r stored under %r' % (val, k))
        if use_json and not err:
            try:
                with open(store + '.json') as f:
                    j = json.load(f)
            except ValueError:
                j = {}
            if len(j) != len(content) or sorted(v['stamp'] for v in j.values()) != sorted(
                    v['stamp'] for v in content.values()):
                ctx.violation('json-store %r' % argv, 'JSON store holds %d results, pickle %d' % (
                    len(j), len(content)), argv)
        events.append(dict(ev='run', argv=argv, exc=exc, required=REQ[inv['kernel']], defs=dd,
                           badargs=badargs, err=err, models=inv['models'], runs=runs, store=st,
                           stamp=stamp[0], **ident))
        ctx.case(('run', tuple(argv)))

    r = ctx.model('MCCommandLine', 'CommandLine.cfg', timeout=400)
    invs = list({repr(p['h']): p['h'][0] for p in r.prints}.values())
    invs.sort(key=repr)
    one = invs if ctx.thorough else rng.sample(invs, min(350, len(invs)))
    for n, inv in enumerate(one):
        inv = dict(inv, machine='m1.yml', pred='SIM')
        events.append(dict(ev='reset'))
        store = 'one%d.pickle' % n
        invoke(inv, store, reuse=False, use_json=n % 7 == 0)
        ctx.traces += 1
        for f in (store, store + '.json'):
            if os.path.exists(f):
                os.remove(f)

    # ---- 3. histories of invocations sharing a store (random walks of the specification) -
    sim = ctx.tlc('MCCommandLine', 'CommandLine.cfg', count=False, timeout=300,
                  consts={'MaxInv': 4, 'Cores': '{1, 2}'},
                  args=['-simulate', 'num=%d' % ctx.pick(40, 400), '-depth', '5', '-seed', str(ctx.seed)])
    for n, p in enumerate(sim.prints):
        events.append(dict(ev='reset'))
        store = 'hist%d.pickle' % n
        parser[0] = kc.create_parser()
        first = None
        for inv in p['h']:
            inv = dict(inv, machine=rng.choice(['m1.yml', 'm2.yml']), pred=rng.choice(['LC', 'SIM']))
            if rng.random() < .3:
                inv['kernel'] = 'k3'
                inv['defs'] = inv['defs'] + [dict(key='P', kind='one', a=rng.randint(40, 41), b=0, n=0),
                                             dict(key='.', kind='range', a=50, b=51, n=0)][:rng.randint(1, 2)]
                if sum(d['key'] == '.' for d in inv['defs']) > 1:
                    continue
            if rng.random() < .25:
                inv['extra'] = ['-u', 'cy/CL'] if rng.random() < .5 else ['-v']
            for _ in range(rng.choice([0, 0, 1, 2])):
                key, value, argv = rng.choice(SETTINGS)
                if key not in inv.get('set', {}):
                    inv['set'] = dict(inv.get('set', {}), **{key: value})
                    inv['extra'] = inv.get('extra', []) + argv
            if first is not None and rng.random() < .3:
                inv = dict(first)
            first = inv
            if sum(d['key'] == '.' for d in inv['defs']) > 1:
                continue
            invoke(inv, store, reuse=n % 2 == 0)
        ctx.traces += 1
        if os.path.exists(store):
            os.remove(store)
    # exhaustive ones contain two defaults as well: the later one wins or both, not specified
    keep = []
    for e in events:
        if e['ev'] == 'run' and sum(a == '.' for a in e['argv']) > 1:
            continue
        keep.append(e)
    ctx.sample({k: v for k, v in keep[-1].items() if k != 'store'})
    ctx.validate('CommandLineTrace', keep, describe=lambda v, ev: (
        '%s: %s' % (v['clause'], ev.get('text') if ev['ev'] == 'parse' else ' '.join(
            a for a in ev['argv'] if '.pickle' not in a)),
        '%s: event %s, wanted %s' % (v['clause'], json.dumps(
            {k: ev.get(k) for k in ('text', 'vs', 'argv', 'runs', 'err', 'exc', 'store') if k in ev})[:900],
            str(v['want'])[:500])))
    ctx.assume('the tool is driven through its own argument parser and run(); the performance models '
               'are replaced by recorders')
    ctx.assume('"-D . v" adds v to the values of every constant (as implemented); several "." '
               'definitions in one call are not specified')
