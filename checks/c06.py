"""C06: constants and memoised queries (spec/ConstStore.tla)."""
import os

CODE = '''double a[M][N];
double b[M][N];
for(int j=1; j<M-1; j++) {
  for(int i=1; i<N-1; i+=2) {
    a[j][i] = b[j-1][i+1];
  }
}
'''


def run(ctx):
    import numpy
    from kerncraft.kernel import KernelCode, KernelDescription, symbol_pos_int
    from kerncraft.machinemodel import MachineModel
    from checks.common import REPO, quiet
    rng = ctx.rng
    machine = MachineModel(REPO + '/tests/test_files/SandyBridgeEP_E5-2680.yml')
    i, j = symbol_pos_int('i'), symbol_pos_int('j')

    def code_kernel():
        return KernelCode(CODE, machine=machine)

    def desc_kernel():
        return KernelDescription({
            'arrays': {'a': {'type': ('double',), 'dimension': ['M', 'N']},
                       'b': {'type': ('double',), 'dimension': ['M', 'N']}},
            'loops': [{'index': 'j', 'start': 1, 'stop': 'M-1', 'step': 1},
                      {'index': 'i', 'start': 1, 'stop': 'N-1', 'step': 2}],
            'data sources': {'b': [['j-1', 'i+1']]},
            'data destinations': {'a': [['j', 'i']]}, 'flops': {}}, machine=machine)

    def nums(xs):
        out = []
        for x in xs:
            if getattr(x, 'free_symbols', None):
                return ['symbolic']
            out.append(int(x))
        return out

    def ask(k, q, want):
        if q == 'sizes':
            return nums([k.array_sizes(subs_consts=True)['a'],
                         k.array_sizes(in_bytes=True, subs_consts=True)['b']])
        if q == 'loops':
            l = list(k.get_loop_stack(subs_consts=True))
            return nums([l[0]['start'], l[0]['stop'], l[0]['increment'],
                         l[1]['start'], l[1]['stop'], l[1]['increment']])
        if q == 'total':
            return nums([k.iteration_length(), k.iteration_length(0), k.iteration_length(-1)])
        if q == 'last':
            return nums([k.max_global_iteration()])
        if q == 'order':
            return [str(c) for c in k.constants]
        if want == ['symbolic']:
            return want          # numeric queries need all constants
        if q == 'indices':
            n = int(k.iteration_length()) - 1
            r = k.global_iterator_to_indices(n)
            f = k.global_iterator_to_indices()
            a, b = nums([r[j], r[i]]), nums([f[j](n), f[i](n)])
            return a if a == b else [a, b]
        if q == 'offsets':
            if want == ['none']:
                return want
            o = k.compile_global_offsets(int(k.iteration_length(1)))[0]
            return [int(o['load'][0]), int(o['store'][0])]
        raise KeyError(q)

    def snapshot(k, full):
        """Everything a query can show, for the comparison with a fresh kernel."""
        r = {}
        for q in ('sizes', 'loops', 'total', 'last', 'order'):
            r[q] = ask(k, q, None)
        s = []
        for e in (i * symbol_pos_int('N') + symbol_pos_int('M'), symbol_pos_int('N')):
            s.append(str(k.subs_consts(e)))
        r['subs'] = s
        r['sym'] = str(sorted(k.array_sizes().items())) + str(list(k.get_loop_stack()))
        r['acc'] = str(dict(k.compile_sympy_accesses())) + str(dict(k.compile_relative_distances()))
        r['git'] = str(k.subs_consts(k.global_iterator()))
        r['consts'] = str(list(k.constants.items()))
        r['bytes'] = str(k.bytes_per_iteration)
        if len(k.constants) == 2:
            r['off'] = k.compile_global_offsets(range(0, int(k.iteration_length()))).tolist()
            r['off1'] = k.compile_global_offsets(3, spacing=128).tolist()
        if full and isinstance(k, KernelCode):
            r['code'] = []
            for gen in (k.get_kernel_code, k.get_main_code, k.get_kernel_header):
                path, lock = gen()
                if os.path.exists(path):       # (the header comes without its directory)
                    with open(path) as f:
                        r['code'].append(f.read())
                lock.close()
        return r

    # the model, and a negative control: without the flush the property fails in the model
    r = ctx.model('ConstStore', timeout=300, consts={'MaxOps': ctx.pick(4, 5)}, heap='6g')
    neg = ctx.tlc('ConstStore', consts={'FlushOnSet': 'FALSE', 'Emit': 'FALSE'}, workers=4,
                  check=False, count=False)
    if neg.ok:
        raise RuntimeError('negative control: the stale memo was not found by TLC')
    ctx.extra['negative_control'] = 'FlushOnSet=FALSE violates AnswersCurrent (found by TLC)'
    hists = list({repr(p['h']): p['h'] for p in r.prints}.values())
    hists.sort(key=repr)
    # longer random walks of the same specification
    sim = ctx.tlc('ConstStore', consts={'MaxOps': 9}, timeout=300,
                  args=['-simulate', 'num=%d' % ctx.pick(400, 4000), '-depth', '10',
                        '-seed', str(ctx.seed)], count=False)
    longer = list({repr(p['h']): p['h'] for p in sim.prints}.values())
    n = ctx.pick(900, 20000)
    run_hists = (rng.sample(hists, n) if len(hists) > n else hists) + longer[:ctx.pick(250, 2500)]
    fresh = {}
    for hi, h in enumerate(run_hists):
        make = desc_kernel if hi % 3 == 2 else code_kernel
        name = ' '.join('%s%s%s' % (o['op'][0], o['n'], o['v'] or '') for o in h)

        def play():
            k = make()
            for o in h:
                if o['op'] == 'set':
                    k.set_constant(o['n'] if rng.random() < .7 else symbol_pos_int(o['n']), o['v'])
                elif o['op'] == 'clear':
                    k.clear_state()
                else:
                    got = ask(k, o['n'], o['r'])
                    if got != o['r']:
                        ctx.violation('history %s: %s' % (name, o['n']),
                                      'query %s answers %r, must be %r after %s (%s)' % (
                                          o['n'], got, o['r'], name, make.__name__), h)
                        return
            # at the end everything must equal a fresh kernel with the same constants
            cs = tuple((str(a), b) for a, b in k.constants.items())
            key = (make.__name__, cs)
            if key not in fresh:
                f = make()
                for a, b in cs:
                    f.set_constant(a, b)
                fresh[key] = snapshot(f, True)
            full = hi % 10 == 0
            got = snapshot(k, full)
            if any(got[x] != fresh[key][x] for x in got):
                bad = [x for x in got if got[x] != fresh[key][x]]
                ctx.violation('history %s: %s differs from fresh' % (name, bad),
                              '%s: %r, fresh kernel: %r' % (bad[0], got[bad[0]], fresh[key][bad[0]]), h)
        ctx.guarded('history %s' % name, play)
        ctx.traces += 1
        ctx.case(name)
        if len(ctx.violations) > 30:
            return
    ctx.sample(name)
    ctx.assume('queries that need numbers are asked once all constants are set')
