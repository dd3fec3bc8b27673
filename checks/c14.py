"""C14: quantities with metric prefixes (spec/Quantity.tla, spec/QuantityTrace.tla)."""
import io
import operator
from decimal import Decimal

PEXP = {'none': 0, 'k': 3, 'M': 6, 'G': 9, 'T': 12, 'P': 15, 'E': 18, 'Z': 21, 'Y': 24}
OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv,
           floordiv=operator.floordiv, mod=operator.mod, lt=operator.lt, le=operator.le,
           gt=operator.gt, ge=operator.ge, eq=operator.eq, ne=operator.ne)


def dec(x, digits=11):
    """float -> (mantissa text, exponent), rounded to *digits* significant digits."""
    d = Decimal(('%.' + str(digits - 1) + 'e') % x)
    sign, ds, e = d.normalize().as_tuple()
    m = int(''.join(map(str, ds))) * (-1 if sign else 1)
    return [str(m), e] if m else ['0', 0]


def run(ctx):
    from kerncraft.prefixedunit import PrefixedUnit
    import ruamel.yaml

    def make(q, how):
        v, p, u = q['v'], q['p'], q['u']
        val = float(Decimal(v[0]).scaleb(v[1]))
        pf = '' if p == 'none' else p
        if how == 0 or not u:
            return PrefixedUnit(val, pf, u)
        if how == 1:
            return PrefixedUnit(val, pf + u)
        return PrefixedUnit('%s %s%s' % (('%.6f' % val).rstrip('0').rstrip('.'), pf, u))

    def snap(x):
        return repr(x) if not isinstance(x, PrefixedUnit) else (x.value, x.prefix, x.unit)

    yaml = ruamel.yaml.YAML()
    yaml.register_class(PrefixedUnit)
    unsafe = ruamel.yaml.YAML(typ='unsafe')
    unsafe.register_class(PrefixedUnit)
    events = []

    def record(op, a, b=None, how=0, prefix=None):
        ev = dict(op=op, a=a, err=0, kept=1)
        if b is not None:
            ev['b'] = b
        try:
            with ctx.limit(10, op):
                x = make(a, how)
                y = None
                if b is not None:
                    y = float(b['v'][0]) * 10.0 ** b['v'][1] if op[0] == 's' and op != 'sub' else \
                        make(b, how)
                before = (snap(x), snap(y))
                if op == 'print':
                    if prefix == 'yaml':
                        s = io.StringIO()
                        yaml.dump({'q': x}, s)
                        r = yaml.load(s.getvalue())['q']
                    else:
                        r = PrefixedUnit(str(x)) if str(x).count(' ') else PrefixedUnit(float(str(x)))
                    d = dec(float(r))
                    ev['ru'] = r.unit
                    ev['printed'] = [int(d[0]), d[1]]
                    if abs(int(d[0])) >= 10 ** 9:
                        raise ValueError('unprintable value %r' % (d,))
                elif op == 'reduced':
                    r = x.reduced()
                elif op == 'with_prefix':
                    r = x.with_prefix('' if prefix == 'none' else prefix)
                elif op == 'abs':
                    r = abs(x)
                elif op == 'same' and prefix in ('yaml', 'unsafe'):
                    # serialised and loaded again: nothing may be rounded away
                    s = io.StringIO()
                    (yaml if prefix == 'yaml' else unsafe).dump({'q': x}, s)
                    r = (yaml if prefix == 'yaml' else unsafe).load(s.getvalue())['q']
                elif op == 'same':
                    r = x
                elif op in ('smul', 'sdiv', 'sadd', 'ssub'):
                    r = OPS[op[1:]](x, y)
                else:
                    r = OPS[op](x, y)
                if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                    ev['truth'] = int(bool(r))
                elif op != 'print':
                    ev['r'] = dec(r.base_value())
                    ev['ru'] = r.unit
                    if dec(float(r)) != ev['r']:
                        ctx.violation('float', 'float() and base_value() differ for %r' % r)
                ev['kept'] = int(before == (snap(x), snap(y)))
        except Exception as e:
            ev['err'] = 1
            ev['exc'] = repr(e)
            ev.setdefault('truth', -1)
        events.append(ev)
        ctx.traces += 1
        ctx.case((op, repr(a), repr(b), how, prefix))

    # 1. exhaustive small model: all pairs, all prefixes of the model
    r = ctx.model('Quantity', timeout=300)
    seen = set()
    for c in r.prints:
        k = repr((c['op'], c['a'], c['b']))
        if k in seen:
            continue
        seen.add(k)
        record(c['op'], c['a'], c['b'], how=len(seen) % 3)

    # 2. seeded histories over all prefixes and units
    rng = ctx.rng
    units = ['B', 'B/s', 'Hz', 'FLOP/s', 'cy', 'It/s', 'B/cy', 'cy/CL', 's']
    pnames = list(PEXP)
    wide = units + ['', 'Mops', 'Event', 'Tx', 'k']    # units that start like a prefix
    def q(unit=None, small=False):
        m = rng.choice([rng.randint(1, 999), rng.randint(1, 20)])
        if rng.random() < .3:
            return dict(v=[m * 25, -2], p=rng.choice(pnames), u=unit or rng.choice(units))
        return dict(v=[m, 0], p=rng.choice(pnames), u=unit or rng.choice(units))

    for i in range(ctx.pick(4000, 40000)):
        a = q()
        op = rng.choice(['add', 'sub', 'mul', 'div', 'smul', 'sdiv', 'sadd', 'ssub', 'reduced',
                         'with_prefix', 'abs', 'print', 'print', 'same', 'lt', 'le', 'gt', 'ge',
                         'eq', 'ne', 'floordiv', 'mod', 'eq'])
        how = rng.randint(0, 2)
        near = lambda: rng.choice([p for p in pnames if abs(PEXP[p] - PEXP[a['p']]) <= 3
                                   and (PEXP[p] <= 18 or op in ('add', 'sub'))])
        if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'floordiv', 'mod') and PEXP[a['p']] > 18:
            # beyond the range in which doubles hold these values exactly
            a['p'] = rng.choice(pnames[:6])
        if op in ('add', 'sub', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'floordiv', 'mod'):
            b = dict(v=[rng.randint(1, 400), 0], p=near(), u=a['u'] if rng.random() < .8 else rng.choice(units))
            if rng.random() < .15:
                # one quantity, or both, without unit
                rng.choice([a, b])['u'] = ''
                if rng.random() < .2:
                    a['u'] = b['u'] = ''
            if rng.random() < .3 and op in ('eq', 'ne', 'le', 'ge', 'lt', 'gt'):
                # the same quantity with another prefix
                p = near()
                d = PEXP[a['p']] - PEXP[p]
                b = dict(v=[a['v'][0], a['v'][1] + d], p=p, u=a['u'])
                if d < 0:
                    b = dict(a)
            record(op, a, b, how if b['v'][1] >= -2 else 0)
        elif op in ('mul', 'div'):
            b = dict(v=[rng.choice([1, 2, 4, 5, 8, 10, 20, 25, 40, 50, 100, 125, 200, 250]), 0],
                     p=rng.choice(pnames[:5]), u=rng.choice(units))
            record(op, a, b, how)
        elif op in ('smul', 'sdiv'):
            record(op, a, dict(v=[rng.choice([1, 2, 4, 5, 8, 10, 20, 25, 40, 100]), 0], p='none', u=''), how)
        elif op in ('sadd', 'ssub'):
            a['p'] = rng.choice(['none', 'k'])
            record(op, a, dict(v=[rng.randint(0, 5000), 0], p='none', u=''), how)
        elif op == 'with_prefix':
            a['u'] = rng.choice(wide)
            record(op, a, None, 0, rng.choice(pnames))
        elif op == 'print':
            if rng.random() < .5:
                a = dict(v=[rng.randint(0, 99999), -rng.randint(0, 4)], p=a['p'], u=a['u'])
            record(op, a, None, 0 if a['v'][1] < -2 else how, rng.choice(['yaml', 'str']))
        else:
            if op in ('reduced', 'abs', 'smul') and rng.random() < .3:
                a['u'] = rng.choice(wide)
                how = 0
            store = None
            if op == 'same' and rng.random() < .7:
                store = rng.choice(['yaml', 'unsafe'])
                a['v'] = [rng.randint(0, 2 ** 30), -rng.randint(0, 9)]
                how = 0
            if op in ('abs', 'reduced', 'same') and rng.random() < .3:
                a['v'] = [-a['v'][0], a['v'][1]]
                how = 0
            record(op, a, None, how, store)
    # 3. unitless and unit-like-a-prefix arithmetic
    for u in wide:
        for p in pnames:
            a = dict(v=[7, 0], p=p, u=u)
            record('smul', a, dict(v=[2, 0], p='none', u=''), 0)
            record('add', a, dict(v=[7, 0], p=p, u=u), 0)
            record('reduced', a, None, 0)
    ctx.sample(events[-1])
    ctx.sample(events[len(events) // 2])
    # TLC evaluates in 32 bit: aligned mantissas stay below 2^31 by construction of the events
    ctx.validate('QuantityTrace', events, chunk=20000, describe=lambda v, ev: (
        '%s %s %s' % (v['clause'], ev['a'], ev.get('b')),
        'event %r breaks %s, must be %s' % (ev, v['clause'], v['want'])))
    ctx.assume('values observed as floats are compared at 11 significant digits; printing may '
               'round to two decimals or 1 %')
