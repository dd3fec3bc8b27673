"""C04: iteration numbers and loop indices (spec/LoopNest.tla, spec/LoopNestTrace.tla)."""
from checks.common import nest_code

NAMES = 'kji'


def run(ctx):
    import sympy
    from kerncraft.kernel import KernelCode, symbol_pos_int

    rng = ctx.rng

    def build(nest, symbolic):
        """Kernel for *nest* (list of s,e,d); with constants instead of some numbers."""
        consts = {}
        names = 'ijk'[:len(nest)]
        loops = []
        for d, l in enumerate(nest):
            s, e = str(l['s']), str(l['e'])
            if symbolic:
                how = rng.randrange(5)
                c = 'NMP'[d]
                if how == 0:
                    consts[c] = l['e']
                    e = c
                elif how == 1:
                    consts[c] = l['e'] + 2
                    e = '%s-2' % c
                elif how == 2 and l['e'] % 2 == 0:
                    consts[c] = l['e'] // 2
                    e = '2*%s' % c
                elif how == 3 and l['e'] > 1:
                    consts[c] = l['e'] - 1
                    e = '%s+1' % c
                if rng.random() < .3 and l['s'] > 0:
                    consts['S%d' % d] = l['s']
                    s = 'S%d' % d
            loops.append((s, e, l['d']))
        idx = ''.join('[%s]' % n for n in names)
        dims = ''.join('[50]' for _ in nest)
        code = nest_code(loops, ['a%s = b%s;' % (idx, idx)],
                         ['double a%s;' % dims, 'double b%s;' % dims], names='ijk')
        k = KernelCode(code, machine=None)
        for c, v in consts.items():
            k.set_constant(c, v)
        return k, code, consts

    def observe(k, nest, ns):
        syms = [symbol_pos_int(n) for n in 'ijk'[:len(nest)]]
        total = int(k.iteration_length())
        lens = [int(k.iteration_length(d)) for d in range(len(nest))]
        neg = [int(k.iteration_length(d - len(nest))) for d in range(len(nest))]
        if lens != neg:
            raise ValueError('iteration_length(%d..) differs from negative dimensions' % 0)
        last = int(k.max_global_iteration())
        conv = k.global_iterator_to_indices()
        pts = []
        for n in ns:
            idx = [int(conv[s](n)) for s in syms]
            if n % 5 == 0:
                one = k.global_iterator_to_indices(n)
                if [int(one[s]) for s in syms] != idx:
                    raise ValueError('symbolic and numeric conversion of %d differ' % n)
            back = k.indices_to_global_iterator({s: i for s, i in zip(syms, idx)})
            b = int(back) if back == int(back) else -1
            pts.append(dict(n=n, idx=idx, back=b))
        return dict(nest=nest, total=total, last=last, lens=lens, pts=pts)

    # 1. exhaustive nests, all iterations
    r = ctx.model('MCLoopNest', 'LoopNest.cfg', timeout=500,
                  consts={'MaxTrip': ctx.pick(4, 5)})
    cases = list({repr(c['nest']): c for c in r.prints}.values())
    cases.sort(key=lambda c: repr(c['nest']))
    if not ctx.thorough:
        # every 1-deep nest, a seeded half of the others
        cases = [c for c in cases if len(c['nest']) == 1] + rng.sample(
            [c for c in cases if len(c['nest']) > 1], 700)
    for c in cases:
        nest = c['nest']
        name = 'nest %s' % [(l['s'], l['e'], l['d']) for l in nest]
        symbolic = rng.random() < .5
        ok, kc = ctx.guarded(name + ' build', build, nest, symbolic)
        if not ok:
            continue
        k, code, consts = kc
        ok, o = ctx.guarded(name, observe, k, nest, range(len(c['log'])))
        if not ok:
            continue
        ctx.traces += 1
        ctx.case(name)
        want = dict(nest=nest, total=len(c['log']), last=len(c['log']) - 1, lens=o['lens'],
                    pts=[dict(n=n, idx=i, back=n) for n, i in enumerate(c['log'])])
        lens = [len({i[d] for i in c['log']}) for d in range(len(nest))]
        want['lens'] = lens
        if o != want:
            diff = [f for f in want if want[f] != o[f]]
            ctx.violation('%s: %s' % (name, diff[0]), '%s is %r, must be %r\n%s%r' % (
                diff[0], o[diff[0]], want[diff[0]], code, consts), dict(code=code, consts=consts))
        if len(ctx.violations) > 30:
            return
    ctx.sample(dict(code=code, consts=consts, iterations=c['log'][:6]))

    # 2. larger nests, sampled iterations, validated by TLC
    events = []
    for i in range(ctx.pick(120, 1200)):
        nest = []
        total = 1
        for d in range(rng.randint(1, 3)):
            s, st = rng.randint(0, 9), rng.choice([1, 1, 2, 3, 4, 7, 8])
            n = rng.choice([1, 2, 17, 100, 1000, rng.randint(2, 300), rng.randint(2, 300), rng.randint(300, 5000)])
            if total * n > 10 ** 7:
                n = 3
            total *= n
            nest.append(dict(s=s, e=s + (n - 1) * st + rng.randint(1, st), d=st))
        ok, kc = ctx.guarded('large build', build, nest, True)
        if not ok:
            continue
        k, code, consts = kc
        ns = {0, total - 1, min(total - 1, nest[-1]['e']), *[rng.randrange(total) for _ in range(6)]}
        inner = 1
        for l in reversed(nest):        # first iterations of inner loops, and the last ones before
            inner *= -(-(l['e'] - l['s']) // l['d'])
            for _ in range(4):
                x = inner * rng.randint(1, total // inner)
                ns |= {min(x, total - 1), x - 1}
        ns = sorted(ns)
        ok, o = ctx.guarded('nest %r' % [(l['s'], l['e'], l['d']) for l in nest], observe, k, nest, ns)
        if ok:
            events.append(o)
            ctx.traces += 1
            ctx.case(repr(nest))
    ctx.sample(events[0] if events else None)
    ctx.validate('LoopNestTrace', events)
    ctx.assume('loops are executed at least once (start < stop), as every kernel of interest')
