"""C19: integer interval sets (spec/Intervals.tla, spec/IntervalsTrace.tla)."""


def run(ctx):
    from kerncraft.intervals import Intervals

    # 1. exhaustive model; every terminal state is one case for the real class
    r = ctx.model('Intervals', consts={'MaxV': ctx.pick(4, 5), 'MaxLen': 3}, timeout=500)
    for case in {repr(c): c for c in r.prints}.values():
        args = [list(a) for a in case['args']]
        ok, obj = ctx.guarded('new', lambda: Intervals(*args), _seconds=20)
        if not ok:
            continue
        ctx.traces += 1
        ctx.case(repr(case['args']))
        got = [list(d) for d in obj.data]
        if got != case['data']:
            ctx.violation('new:%r' % (case['args'],), 'Intervals(*%r).data is %r, must be %r' % (
                case['args'], got, case['data']), case)
        elif len(obj) != case['len']:
            ctx.violation('len:%r' % (case['args'],), 'len %r != %r' % (len(obj), case['len']), case)
        inside = {x for lo, hi in case['args'] for x in range(lo, hi)}
        bad = [x for x in range(-2, 9) if (x in obj) != (x in inside)]
        if bad:
            ctx.violation('in:%r' % (case['args'],), 'membership wrong for %r' % bad, case)
    ctx.sample(r.prints[-1] if r.prints else None)

    # 2. recorded histories of calls on several objects
    rng = ctx.rng
    events = []

    def rec(op, objs, res='None', kept=True, **kw):
        events.append(dict(op=op, res=str(res).upper() if isinstance(res, bool) else str(res),
                           pool=[[list(d) for d in o.data] for o in objs],
                           args_kept=int(kept), **kw))

    # every pair of the sets of the model: equality, union, union with itself and both orders
    sets = sorted({repr(c['data']): c['data'] for c in r.prints}.values())
    shift = [[[lo * 3 - 7, hi * 3 - 7] for lo, hi in s] for s in sets]
    for pool in (sets, shift):
        for x in pool:
            for y in pool:
                objs = []
                rec('reset', objs)
                for args in (x, y):
                    args = [list(d) for d in args]
                    if rng.random() < .5:
                        args.reverse()
                    orig = [list(d) for d in args]
                    ok, o = ctx.guarded('new', lambda: Intervals(*args), _seconds=20)
                    if not ok:
                        return
                    objs.append(o)
                    rec('new', objs, args=orig, kept=args == orig)
                rec('eq', objs, objs[0] == objs[1], a=1, b=2)
                ok, o = ctx.guarded('and', lambda: objs[0] & objs[1], _seconds=20)
                if not ok:
                    return
                objs.append(o)
                rec('and', objs, a=1, b=2)
                rec('len', objs, len(o), a=3)
                rec('eq', objs, o == objs[0], a=3, b=1)
                ctx.traces += 1
                ctx.case(('pair', repr(x), repr(y)))

    for h in range(ctx.pick(150, 900)):
        objs = []
        rec('reset', objs)
        span = rng.choice([6, 12, 60, 100000])
        for _ in range(rng.randint(5, 14)):
            op = rng.choice(['new', 'new', 'and', 'len', 'in', 'eq']) if objs else 'new'
            if op == 'new':
                args = [[rng.randint(-span, span), 0] for _ in range(rng.randint(0, 6))]
                for a in args:
                    a[1] = a[0] + rng.randint(-1, max(2, span // 2))
                orig = [list(a) for a in args]
                ok, o = ctx.guarded('new', lambda: Intervals(*args), _seconds=20)
                if not ok:
                    return
                objs.append(o)
                rec('new', objs, args=orig, kept=args == orig)
            else:
                a, b = rng.randrange(len(objs)), rng.randrange(len(objs))
                x = rng.randint(-span, span)
                if op == 'and':
                    ok, o = ctx.guarded('and', lambda: objs[a] & objs[b], _seconds=20)
                    if not ok:
                        return
                    objs.append(o)
                    rec('and', objs, a=a + 1, b=b + 1)
                elif op == 'len':
                    rec('len', objs, len(objs[a]), a=a + 1)
                elif op == 'in':
                    rec('in', objs, x in objs[a], a=a + 1, x=x)
                else:
                    rec('eq', objs, objs[a] == objs[b], a=a + 1, b=b + 1)
        ctx.traces += 1
        ctx.case(('hist', h))
    ctx.sample(events[:6])
    ctx.validate('IntervalsTrace', events)
    ctx.extra['exhaustive'] = True
    ctx.extra['rule'] = ('exhaustive constructor calls (<=3 ranges, endpoints 0..4/5) plus seeded '
                         'call histories over a pool of objects')
