"""C23: machine descriptions (spec/MachineStore.tla, spec/MachineVersionTrace.tla)."""
import contextlib
import copy
import glob
import io
import os
import sys

from checks.common import REPO, quiet


def description(c, version):
    """Content record of the specification as the data of a machine description."""
    from kerncraft.prefixedunit import PrefixedUnit as U
    names = [l['name'] for l in c['levels']] + ['MEM']
    hier = []
    for i, l in enumerate(c['levels']):
        cpg = dict(sets=l['sets'], ways=l['ways'], cl_size=64, replacement_policy='LRU',
                   write_allocate=True, write_back=True)
        if i + 1 < len(c['levels']):
            cpg.update(load_from=names[i + 1], store_to=names[i + 1])
        hier.append({'level': l['name'], 'cache per group': cpg, 'cores per group': l['group'],
                     'threads per group': l['group'], 'groups': 8 // l['group'],
                     'size per group': U(float(l['sets'] * l['ways'] * 64), '', 'B'),
                     'upstream throughput': [U(32.0, '', 'B/cy'), 'half-duplex'], 'transfers overlap': False})
    hier.append({'level': 'MEM', 'cores per group': 8, 'threads per group': 8, 'size per group': None,
                 'upstream throughput': ['full socket memory bandwidth', 'half-duplex']})
    n = len(c['bw'])
    return {
        'kerncraft version': version, 'model name': 'machine %d' % c['id'], 'model type': 'T',
        'clock': U(float(c['clock']), 'G', 'Hz'), 'sockets': 1, 'cores per socket': 8, 'threads per core': 1,
        'NUMA domains per socket': 8 // c['numa'], 'cores per NUMA domain': c['numa'],
        'cacheline size': U(64.0, '', 'B'), 'memory hierarchy': hier,
        'benchmarks': {
            'kernels': {'load': {'read streams': {'streams': 1, 'bytes': U(8.0, '', 'B')},
                                 'write streams': {'streams': 0, 'bytes': U(0.0, '', 'B')},
                                 'read+write streams': {'streams': 0, 'bytes': U(0.0, '', 'B')},
                                 'FLOPs per iteration': 0}},
            'measurements': {lv: {1: {'threads per core': 1, 'cores': list(range(1, n + 1)),
                                      'threads': list(range(1, n + 1)),
                                      'results': {'load': [U(float(b), 'G', 'B/s') for b in c['bw']]}}}
                             for lv in names}}}


def change(m, c):
    """Apply the in-memory change to the content *c* through the public interface."""
    from kerncraft.prefixedunit import PrefixedUnit as U
    d = m._data if not hasattr(m, '__setitem__') else m
    d['model name'] = 'machine %d' % c['id']
    d['clock'] = U(float(c['clock']), 'G', 'Hz')
    lv = c['levels'][-1]
    entry = m['memory hierarchy'][len(c['levels']) - 1]
    entry['cache per group']['ways'] = lv['ways']
    entry['size per group'] = U(float(lv['sets'] * lv['ways'] * 64), '', 'B')
    for meas in m['benchmarks']['measurements'].values():
        meas[1]['results']['load'][0] = U(float(c['bw'][0]), 'G', 'B/s')


def plain(x):
    """Data without the difference between kinds of mappings (order counts in ordered ones)."""
    if isinstance(x, dict):
        r = {k: plain(v) for k, v in x.items()}
        return (list(x), r) if type(x) is not dict else r
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def geometry(sim):
    return [[l.name, l.backend.sets, l.backend.ways] for l in sim.levels(with_mem=False)]


def run(ctx):
    import ruamel.yaml
    import kerncraft
    from kerncraft.machinemodel import MachineModel, MIN_SUPPORTED_VERSION
    from kerncraft.prefixedunit import PrefixedUnit
    rng = ctx.rng
    version = kerncraft.__version__
    writer = ruamel.yaml.YAML(typ='unsafe')
    writer.register_class(PrefixedUnit)
    rendered = {}

    def text(c):
        k = repr(c)
        if k not in rendered:
            s = io.StringIO()
            writer.dump(description(c, version), s)
            rendered[k] = s.getvalue()
        return rendered[k]

    serial = [0]

    def replay(hist):
        serial[0] += 1
        d = os.path.join('h', str(serial[0] % 7))       # paths are used again by later histories
        os.makedirs(d, exist_ok=True)
        path = {1: os.path.join(d, 'a.yml'), 2: os.path.join(d, 'b.yml')}

        def write(p, txt):
            with open(path[p], 'w') as f:
                f.write(txt)
            os.utime(path[p], (1e9, 1e9))
        write(1, text(CONTENTS[1]))
        write(2, text(CONTENTS[2]))
        inst, direct, sims = {}, {}, []
        key = ' ; '.join(' '.join(str(h[k]) for k in ('op', 's', 'p', 'k', 'cores') if k in h) for h in hist)
        ctx.traces += 1
        ctx.case(key)
        for n, h in enumerate(hist):
            what = 'step %d of: %s' % (n + 1, key)
            if h['op'] == 'load':
                name = path[h['p']] if rng.random() < .7 else os.path.abspath(path[h['p']])
                ok, m = ctx.guarded('load', MachineModel, name)
                if not ok:
                    return
                inst[h['s']] = m
            elif h['op'] == 'direct':
                data = direct.setdefault(h['k'], description(CONTENTS[h['k']], version))
                ok, m = ctx.guarded('direct', MachineModel, machine_yaml=data)
                if not ok:
                    return
                inst[h['s']] = m
            elif h['op'] == 'edit':
                write(h['p'], text(h['content']))
            elif h['op'] == 'change':
                change(inst[h['s']], h['held'][h['s'] - 1]['content'])
            elif h['op'] == 'dump':
                m = inst[h['s']]
                how = rng.randrange(3)
                if how == 0:
                    ok, r = ctx.guarded('dump', m.dump, path[h['p']])
                elif how == 1:
                    with open(path[h['p']], 'w') as f:
                        ok, r = ctx.guarded('dump', m.dump, f)
                else:
                    old = m._path
                    m.set_path(path[h['p']])
                    ok, r = ctx.guarded('dump', m.dump)
                    m.set_path(old)
                if not ok:
                    return
                with open(path[h['p']]) as f:
                    if f.read() != r:
                        ctx.violation('dump-text %s' % key, 'dump() did not return what it wrote (%s)' % what)
                os.utime(path[h['p']], (1e9, 1e9))
            elif h['op'] == 'sim':
                ok, s = ctx.guarded('get_cachesim', inst[h['s']].get_cachesim, h['cores'])
                if not ok:
                    return
                g = geometry(s)
                if g != h['want']:
                    ctx.violation('hierarchy %s' % key, 'get_cachesim(%d) has %r, specified %r (%s)' % (
                        h['cores'], g, h['want'], what), hist)
                s.load(range(4096, 4096 + 8), length=8)
                st = list(s.stats())
                if (st[0]['LOAD_count'], st[0]['MISS_count'], st[-1]['LOAD_count']) != (8, 8 // 8 if False else st[0]['MISS_count'], 1) \
                        or st[0]['MISS_count'] < 1:
                    ctx.violation('simulator-not-fresh %s' % key, 'statistics after a first load: %r (%s)' % (st, what), hist)
            # every instance answers from what it holds
            for s, want in enumerate(h['held'], 1):
                if want['id'] == 0:
                    continue
                m, c = inst[s], want['content']
                wd = description(c, version)
                got = {k: m[k] if k in m else None for k in wd}
                if plain(got) != plain(wd):
                    diff = [k for k in wd if plain(got[k]) != plain(wd[k])]
                    ctx.violation('data %s' % key, 'slot %d answers %r for %s, specified %r (%s)' % (
                        s, got[diff[0]], diff[0], wd[diff[0]], what), hist)
                    return
                last = len(c['levels']) - 1
                ok, bw = ctx.guarded('get_bandwidth', m.get_bandwidth, last, 1, 0, 1)
                if not ok:
                    return
                if abs(float(bw[0]) - want['best'] * 1e9) > 1:
                    ctx.violation('bandwidth %s' % key, 'get_bandwidth gives %r, specified %d GB/s (%s)' % (
                        bw, want['best'], what), hist)
        # identifiers: a file's name, or the same for the same data and different for others
        ids = {}
        for s, m in inst.items():
            ok, i = ctx.guarded('get_identifier', m.get_identifier)
            if not ok:
                return
            ok, i2 = ctx.guarded('get_identifier', m.get_identifier)
            if i != i2:
                ctx.violation('identifier-changes %s' % key, '%r then %r' % (i, i2))
            if m._path is None:
                ids.setdefault(i, []).append(plain(m._data))
        for i, ds in ids.items():
            if any(d != ds[0] for d in ds):
                ctx.violation('identifier-collides %s' % key, i)
        for k, data in direct.items():
            if plain(data) != plain(description(CONTENTS[k], version)):
                ctx.violation('direct-data-changed %s' % key, 'the data passed in was changed')

    r = ctx.model('MachineStore', consts={'MaxOps': ctx.pick(3, 4)}, timeout=800)
    CONTENTS = {}
    for p in r.prints:
        for h in p['hist']:
            for v in h['held'] + [dict(content=h.get('content', {'id': 99}))]:
                if v.get('content', {'id': 99})['id'] < 10:
                    CONTENTS[v['content']['id']] = v['content']
    cases = sorted((p['hist'] for p in r.prints), key=repr)
    for hst in cases if len(cases) < ctx.pick(1500, 8000) else rng.sample(cases, ctx.pick(1500, 8000)):
        replay(hst)
    sim = ctx.tlc('MachineStore', consts={'MaxOps': 9}, count=False, timeout=400,
                  args=['-simulate', 'num=%d' % ctx.pick(60, 600), '-depth', '11', '-seed', str(ctx.seed)])
    longs = [p['hist'] for p in sim.prints]
    rng.shuffle(longs)
    for hst in longs[:ctx.pick(500, 4000)]:
        replay(hst)
    for only, n in (('{"load", "sim", "change"}', 8), ('{"load", "edit", "dump"}', 7), ('{"direct", "sim", "change"}', 7)):
        sim = ctx.tlc('MachineStore', consts={'MaxOps': n, 'Kinds': only}, count=False, timeout=400,
                      args=['-simulate', 'num=%d' % ctx.pick(20, 200), '-depth', '11', '-seed', str(ctx.seed + 1)])
        hs = [p['hist'] for p in sim.prints]
        rng.shuffle(hs)
        for hst in hs[:ctx.pick(200, 2000)]:
            replay(hst)
    ctx.sample([{k: v for k, v in h.items() if k != 'held'} for h in longs[0]])

    # versions
    def parse(v):
        a = v.split('.')
        dev = 99
        if a[-1].startswith('dev'):
            dev = int(a.pop()[3:])
        return [int(x) for x in a] + [dev]
    low, high = parse(MIN_SUPPORTED_VERSION), parse(version)
    events = []
    base = description(CONTENTS[1], version)
    for a in (0, 1, 2):
        for b in (0, 2, 7, 8, 9, 10, 80):
            for c in sorted({0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 16, 17, 18, 20, 30, 99, 170,
                             high[2], high[2] + 1, low[2], max(low[2] - 1, 0)}):
                for dev in (99, 0, 1, 2):
                    if [a, b, c] in (low[:3], high[:3]) and dev != 99:
                        continue        # pre-releases of the limits themselves are not decided
                    txt = '%d.%d.%d%s' % (a, b, c, '' if dev == 99 else '.dev%d' % dev)
                    data = dict(base)
                    data['kerncraft version'] = txt
                    try:
                        quiet(MachineModel, machine_yaml=data)
                        acc = 1
                    except Exception:
                        acc = 0
                    ctx.traces += 1
                    ctx.case(('version', txt))
                    events.append(dict(v=[a, b, c, dev], low=low, high=high, accepted=acc, text=txt))
    ctx.validate('MachineVersionTrace', events, describe=lambda v, ev: (
        'version %s' % ev['text'], 'description of version %s accepted=%d, specified %s (supported %s to %s)' % (
            ev['text'], ev['accepted'], v['want'], MIN_SUPPORTED_VERSION, version)))
    data = dict(base)
    del data['kerncraft version']
    try:
        quiet(MachineModel, machine_yaml=data)
        ctx.violation('version missing', 'a description without version was accepted')
    except Exception:
        pass

    # real descriptions: written and loaded again, and not changed by analyses
    files = sorted(glob.glob(REPO + '/examples/machine-files/*.yml') + glob.glob(REPO + '/tests/test_files/*E5*.yml'))
    for f in files if ctx.thorough else rng.sample(files, 3):
        ok, m = ctx.guarded('load ' + os.path.basename(f), MachineModel, f)
        if not ok:
            continue
        ok, _ = ctx.guarded('dump ' + os.path.basename(f), m.dump, 'out.yml')
        if not ok:
            continue
        ok, m2 = ctx.guarded('reload ' + os.path.basename(f), MachineModel, 'out.yml')
        ctx.traces += 1
        ctx.case(('roundtrip', f))
        if ok and plain(m._data) != plain(m2._data):
            diff = [k for k in m._data if k not in m2 or plain(m._data[k]) != plain(m2._data[k])]
            ctx.violation('roundtrip %s' % os.path.basename(f), 'differs in %r' % diff)
    analyses(ctx)
    ctx.assume('in-memory changes of a description are made through the mappings it hands out')
    ctx.assume('versions are compared component by component; pre-releases of the limits are not decided')


def analyses(ctx):
    """Sequences of analyses on one machine instance against fresh instances."""
    from kerncraft.machinemodel import MachineModel
    from kerncraft.kernel import KernelCode
    from kerncraft import models
    from kerncraft.kerncraft import check_arguments, create_parser
    rng = ctx.rng
    path = os.path.join(REPO, 'tests/test_files/SandyBridgeEP_E5-2680.yml')
    code = 'double a[M][N], b[M][N], s;\nfor(int j=1; j<M-1; ++j) for(int i=1; i<N-1; ++i) ' \
           'b[j][i] = (a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i]) * s;\n'
    parser = create_parser()

    def analyse(machine, what):
        name, pred, cores, n = what
        with open('k.c', 'w') as f:
            f.write(code)
        args = parser.parse_args(['-m', path, '-p', name, '-P', pred, '-c', str(cores), 'k.c', '-D', 'N', str(n), '-D', 'M', '50'])
        check_arguments(args, parser)
        kernel = KernelCode(code, machine=machine)
        kernel.set_constant('N', n)
        kernel.set_constant('M', 50)
        model = getattr(models, name)(kernel, machine, args, parser)
        model.analyze()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            model.report(output_file=out)
        r = model.results
        return repr(sorted((k, repr(r[k])) for k in r)), out.getvalue()

    menu = [('LC', 'LC', 1, 500), ('LC', 'LC', 8, 500), ('ECMData', 'LC', 1, 2000), ('ECMData', 'LC', 4, 2000),
            ('ECMData', 'SIM', 1, 2000), ('ECMData', 'SIM', 8, 2000), ('RooflineFLOP', 'LC', 2, 500),
            ('RooflineFLOP', 'SIM', 1, 1000)]
    fresh = {}
    for w in menu:
        ok, r = ctx.guarded('analysis', quiet, analyse, MachineModel(path), w, _seconds=120)
        if not ok:
            return
        fresh[w] = r
    for _ in range(ctx.pick(3, 20)):
        m = MachineModel(path)
        before = plain(copy.deepcopy(m._data))
        seq = [rng.choice(menu) for _ in range(ctx.pick(5, 8))]
        ctx.traces += 1
        ctx.case(('analyses', tuple(seq)))
        for w in seq:
            ok, r = ctx.guarded('analysis', quiet, analyse, m, w, _seconds=120)
            if not ok:
                return
            if r != fresh[w]:
                ctx.violation('analysis-history %s' % (seq,), '%r reports differently on a used description:\n%s\n%s' % (
                    w, r, fresh[w]), seq)
                return
        if plain(m._data) != before:
            ctx.violation('analysis-changes-description %s' % (seq,), 'the description was changed by analyses')
