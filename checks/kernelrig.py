"""Random kernels as trees of spec/KernelLang.tla, their C text and their YAML description."""

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}


def c(v, form='dec'):
    return dict(k='c', v=v, form=form)


def n(x):
    return dict(k='n', n=x)


def b(l, op, r):
    return dict(k='b', op=op, l=l, r=r)


def val(e, env):
    """Only used to choose programs which are valid C; what they mean is up to the specification."""
    if e['k'] == 'c':
        return e['v']
    if e['k'] == 'n':
        return env[e['n']]
    return OPS[e['op']](val(e['l'], env), val(e['r'], env))


def refs(e):
    if e['k'] == 'a':
        return [e]
    if e['k'] == 'b':
        return refs(e['l']) + refs(e['r'])
    if e['k'] == 'u':
        return refs(e['l'])
    return []


def changed(e):
    if e['k'] == 'b':
        return changed(e['l']) + changed(e['r'])
    if e['k'] == 'u':
        return ([] if e['op'] == '-' else [e['l']]) + changed(e['l'])
    return []


def reads(p):
    out = []
    for s in p['body']:
        out += ([] if s['op'] == '=' else [s['lhs']]) + refs(s['rhs'])
    return out


def writes(p):
    out = []
    for s in p['body']:
        out += changed(s['rhs']) + [s['lhs']]
    return out


def iterations(p, env):
    """Values of all names in each iteration."""
    envs = [dict(env)]
    for l in p['loops']:
        new = []
        for x in envs:
            new += [dict(x, **{l['i']: v}) for v in range(val(l['s'], env), val(l['e'], env), val(l['d'], env))]
        envs = new
    return envs


# -- text -----------------------------------------------------------------------------------------
class Printer(object):
    def __init__(self, rng, plain=False):
        self.rng, self.plain = rng, plain

    def sp(self):
        return '' if self.plain else self.rng.choice(['', '', ' ', ' ', '  '])

    def paren(self, t):
        return '(' + self.sp() + t + self.sp() + ')'

    def expr(self, e, level=0):
        k = e['k']
        if k == 'c':
            t = {'dec': '%d', 'hex': '0x%x', 'oct': '0%o'}.get(e['form'], '%d') % e['v']
            if e['form'] == 'float':
                t = e['text']
        elif k == 'n':
            t = e['n']
        elif k == 'f':
            t = e['t']
        elif k == 'a':
            t = e['n'] + ''.join('[' + self.sp() + self.expr(x) + self.sp() + ']' for x in e['ix'])
        elif k == 'b':
            prec = 1 if e['op'] in '+-' else 2
            t = (self.expr(e['l'], prec) + self.sp() + e['op'] + self.sp() + self.expr(e['r'], prec + 1))
            if prec < level:
                return self.paren(t)
        elif k == 'u':
            inner = self.expr(e['l'], 9 if e['op'] == '-' else 0)
            t = inner + e['op'][1:] if e['op'][0] == 'p' else e['op'] + inner
            if level > 0 or e['op'] == '-':
                return self.paren(t)
        elif k == 'text':          # beyond the subset
            t = e['t']
        if k == 'b' and level == 9:
            return self.paren(t)
        if not self.plain and self.rng.random() < .1 and k in 'abfn':
            return self.paren(t)
        return t

    def index(self, e):
        return self.expr(e)

    def lines(self, p):
        rng = self.rng
        out = []
        k = 0
        ds = p['decls']
        while k < len(ds):
            group = [ds[k]]
            while k + 1 < len(ds) and rng.random() < .3 and ds[k + 1]['type'] == ds[k]['type'] \
                    and not ds[k].get('const') and not ds[k + 1].get('const'):
                k += 1
                group.append(ds[k])
            k += 1
            names = []
            for d in group:
                t = d['name'] + ''.join('[' + self.sp() + self.expr(x) + self.sp() + ']' for x in d['dims'])
                if d.get('init'):
                    t += ' = ' + d['init']
                names.append(t)
            out.append(('const ' if group[0].get('const') else '') + group[0]['type'] + ' ' +
                       (',' + self.sp()).join(names) + ';')
        out.append('')
        if p.get('pragma'):
            out.append(p['pragma'])
        for x, l in enumerate(p['loops']):
            ind = '  ' * x
            nxt = {'++': '++' + l['nvar'], 'p++': l['nvar'] + '++', '--': '--' + l['nvar'], 'p--': l['nvar'] + '--'}.get(
                l['next'])
            if nxt is None:
                nxt = l['nvar'] + self.sp() + l['next'] + self.sp() + self.expr(l['d'])
            head = {1: p['itype'] + ' ', 0: '', 2: p['itype'] + ' '}[l['declared']] + l['i'] + self.sp() + '=' + \
                self.sp() + self.expr(l['s']) + (', zz = 0' if l['declared'] == 2 else '')
            last = x == len(p['loops']) - 1
            braces = l.get('braces', True) or (last and len(p['body']) != 1) or (last and p.get('inner'))
            l['_b'] = braces
            out.append(ind + 'for' + self.sp() + '(' + head + ';' + self.sp() + l['cvar'] + self.sp() + l['cond'] +
                       self.sp() + self.expr(l['e']) + '; ' + nxt + ')' + (' {' if braces else ''))
            if not last and p['between'] and x == 0:
                out += [ind + '  ' + t for t in p['between_text']]
        ind = '  ' * len(p['loops'])
        for s in p['body']:
            if p.get('inner') and rng.random() < .5:
                out.append('#pragma vector aligned')
            if s['kind'] == 'assign':
                t = self.expr(s['lhs']) + self.sp() + ' ' + s['op'] + ' ' + self.sp() + self.expr(s['rhs']) + ';'
            else:
                t = s['text']
            out.append(ind + t)
        for x in reversed(range(len(p['loops']))):
            if p['loops'][x]['_b']:
                out.append('  ' * x + '}')
        out += p['after_text']
        for l in p['loops']:
            del l['_b']
        return out

    def text(self, p):
        out = []
        for t in self.lines(p):
            if not self.plain and not t.startswith('#') and self.rng.random() < .15:
                t += self.rng.choice(['  // a[i] = b[i+1]', ' //', '// for(int i=0; i<N; i++) {'])
            out.append(t)
            if not self.plain and self.rng.random() < .1:
                out.append(self.rng.choice(['', '   ', '// comment']))
        return '\n'.join(out) + '\n'


# -- programs ---------------------------------------------------------------------------------------
CONSTS = [['N', 'M'], ['N'], ['N', 'M', 'K'], ['nx', 'ny'], ['size'], ['beta', 'gamma'], ['E', 'I'], ['n1', 'N'],
          ['pi', 'S'], ['lines', 'Q'], ['Nx', 'O', 'zeta']]
INDICES = [['i', 'j', 'k'], ['k', 'j', 'i'], ['j', 'i', 'k'], ['x', 'y', 'z'], ['ii', 'jj', 'kk'], ['row', 'col', 'e']]
ARRAYS = ['a', 'b', 'c', 'u', 'v', 'U', '_x', 'data', 'a2', 'B', 'field', 'test']
SCALARS = ['s', 't', 'alpha', 'c0', 'W']
TYPES = ['double', 'double', 'double', 'float', 'float', 'double _Complex', 'float _Complex']


class Maker(object):
    """Valid programs of the subset; *execute*: only what can be computed with small integers."""

    def __init__(self, rng, execute=False, most=150, sizes=(3, 9)):
        self.rng, self.execute, self.most, self.sizes = rng, execute, most, sizes

    def linear(self, idx, const):
        """Index expression for one dimension."""
        rng = self.rng
        k = rng.choice(['i', 'i+', 'i-', '+i', 'i', 'i+', 'i-', '2i', 'rev', 'fix', 'name', 'sum'])
        i = n(rng.choice(idx))
        off = c(rng.choice([1, 1, 2, 3]), rng.choice(['dec'] * 12 + ['hex']))
        if k == 'i':
            return i
        if k == 'i+':
            return b(i, '+', off)
        if k == 'i-':
            return b(i, '-', off)
        if k == '+i':
            return b(off, '+', i)
        if k == '2i':
            e = b(c(2), '*', i) if rng.random() < .5 else b(i, '*', c(3))
            return b(e, rng.choice('+-'), off) if rng.random() < .5 else e
        if k == 'rev':
            return b(b(n(rng.choice(const)), '-', c(1)), '-', i)
        if k == 'fix':
            return c(rng.randint(0, 3))
        if k == 'name':
            return b(n(rng.choice(const)), '-', c(1))
        return b(i, '+', n(rng.choice(idx)))

    def flattened(self, idx, const):
        """i*M + j."""
        rng = self.rng
        if len(idx) < 2:
            return self.linear(idx, const)
        i, j = rng.sample(idx, 2)
        m = self.stride
        left = n(i)
        if rng.random() < .4:
            left = b(left, rng.choice('+-'), c(rng.choice([1, 2])))
        left = b(left, '*', m) if self.order else b(m, '*', left)
        right = n(j)
        if rng.random() < .4:
            right = b(right, rng.choice('+-'), c(rng.choice([1, 2])))
            return b(left, '+', right)
        return b(left, '+', right) if rng.random() < .7 else b(right, '+', left)

    def literal(self):
        rng = self.rng
        if self.execute:
            v = rng.randint(0, 3)
            return dict(k='f', v=v, t=rng.choice(['%d', '%d.0', '%d.', '0%d.0e0'][:3]) % v)
        return dict(k='f', v=0, t=rng.choice(['0.25', '2.0', '1e-3', '3', '.5', '1.0f', '7']))

    def value(self, depth, leaf):
        rng = self.rng
        r = rng.random()
        if depth == 0 or r < .3:
            return leaf()
        if r < .4:
            return dict(k='u', op='-', l=self.value(depth - 1, leaf))
        ops = '+-*' if self.execute else '+-*/'
        return b(self.value(depth - 1, leaf), rng.choice(ops), self.value(depth - 1, leaf))

    def make(self):
        while True:
            p = self.attempt()
            if p:
                return p

    def attempt(self):
        rng = self.rng
        const = rng.choice(CONSTS)
        nl = rng.choice([1, 1, 2, 2, 2, 3])
        idx = rng.choice(INDICES)[:nl]
        envs = [{x: rng.randint(*self.sizes) for x in const} for _ in range(3)]
        self.stride, self.order = rng.choice([n(rng.choice(const)), n(rng.choice(const)), c(5)]), rng.random() < .5
        loops = []
        for i in idx:
            e = n(rng.choice(const))
            e = rng.choice([e, e, b(e, '-', c(1)), b(e, '-', c(1)), b(e, '-', c(2)), c(rng.randint(3, 6)), b(e, '+', c(2)),
                            b(c(2), '*', e)])
            d = rng.choice([1, 1, 1, 1, 2, 3, 4])
            loops.append(dict(i=i, s=rng.choice([c(0), c(1), c(2), c(0), c(1)]), e=e, d=c(d),
                              next=rng.choice(['++', 'p++', '+=']) if d == 1 else '+=', cond='<', cvar=i, nvar=i,
                              declared=1, braces=rng.random() < .5))
        if rng.random() < .1:
            name = rng.choice(const)
            loops[0]['s'] = b(n(name), '-', c(3))
            loops[0]['e'] = rng.choice([n(name), b(n(name), '-', c(1)), b(n(name), '+', c(2)), b(c(2), '*', n(name))])
        p = dict(decls=[], loops=loops, body=[], after=[], after_text=[], between=[], between_text=[],
                 itype=rng.choice(['int', 'int', 'long', 'unsigned int', 'unsigned long', 'long long']))
        spaces = [iterations(p, e) for e in envs]
        if not all(0 < len(s) <= self.most for s in spaces):
            return None
        arrays = rng.sample(ARRAYS, rng.choice([1, 2, 2, 3, 4]))
        arrays = {a: rng.choice([1, 1, 2, 2, 3] if nl > 1 else [1, 1, 1, 2]) for a in arrays}
        scalars = rng.sample(SCALARS, rng.choice([0, 1, 1, 2, 3]))
        type_ = rng.choice(TYPES)
        used = {}

        def ref(name):
            nd = arrays[name]
            if nd == 1 and rng.random() < .4:
                ix = [self.flattened(idx, const)]
            else:
                # usually the innermost loop runs over the last dimension
                ix = [self.linear(idx if rng.random() < .3 else [idx[max(0, len(idx) - nd + x)]], const)
                      for x in range(nd)]
            for x, e in enumerate(ix):
                low = min(val(e, env) for s in spaces for env in s)
                if low < 0:
                    e = ix[x] = b(e, '+', c(-low))
            for x, e in enumerate(ix):
                used.setdefault((name, x), []).append(e)
            return dict(k='a', n=name, ix=ix)

        mine = list(arrays)

        def leaf():
            r = rng.random()
            if r < .7:
                return ref(rng.choice(mine))
            if r < .85 and scalars:
                return dict(k='a', n=rng.choice(scalars), ix=[])
            if r < .9:
                return dict(k='a', n=rng.choice(idx + const), ix=[])
            return self.literal()

        often = rng.choice([.15, .15, .15, .6])
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3]) if often < .5 else rng.choice([3, 4, 5])):
            lhs = ref(rng.choice(mine)) if not scalars or rng.random() >= often else dict(k='a', n=rng.choice(scalars), ix=[])
            rhs = self.value(rng.choice([1, 2, 2, 3]), leaf)
            if not self.execute and rng.random() < .06:
                rhs = b(rhs, '+', dict(k='u', op=rng.choice(['++', 'p++', '--', 'p--']), l=ref(rng.choice(mine))))
            if type_.endswith('_Complex'):
                pass
            op = rng.choice(['=', '=', '=', '=', '+=', '-=', '*='] + ([] if self.execute else ['/=']))
            p['body'].append(dict(kind='assign', op=op, lhs=lhs, rhs=rhs))
        if not any(w['ix'] for w in writes(p)):
            return None
        for a in [x for x in arrays if any((x, d) in used for d in range(3))] + scalars:
            dims = []
            for x in range(arrays.get(a, 0)):
                need = [max(val(e, env) for e in used[a, x] for env in s) + 1 for s in spaces]
                cands = [n(v) for v in const] + [b(n(v), '+', c(k)) for v in const for k in (1, 2, 4)] + \
                    [b(c(2), '*', n(v)) for v in const] + [b(n(v), '*', n(w)) for v in const for w in const] + \
                    [b(b(n(v), '*', n(w)), '+', c(9)) for v in const for w in const]
                rng.shuffle(cands)
                ok = [e for e in cands if all(q <= val(e, env) <= 3 * q + 6 for q, env in zip(need, envs))]
                dims.append(ok[0] if ok and rng.random() < .9 else c(max(need) + rng.choice([0, 0, 1, 5])))
            d = dict(name=a, dims=dims, type=type_)
            if not dims and rng.random() < .3:
                d['init'] = rng.choice(['0.5', '1.0', '2'])
                written = any(w['n'] == a for w in writes(p))
                if not written and rng.random() < .5:
                    d['const'] = 1
            elif not dims and rng.random() < .1 and not any(w['n'] == a for w in writes(p)):
                d['const'] = 1
            p['decls'].append(d)
        rng.shuffle(p['decls'])
        if not any(d['dims'] for d in p['decls']):
            return None
        p['order'] = sorted(d['name'] for d in p['decls'] if d['dims'])
        if rng.random() < .3:
            p['pragma'] = rng.choice(['#pragma omp parallel for', '#pragma omp parallel for schedule(static)',
                                      '#pragma unroll', '#pragma omp for'])
        if nl > 1 and rng.random() < .15:
            p['between'], p['between_text'] = ['pragma'], ['#pragma ivdep']
            p['loops'][0]['braces'] = True
        p['inner'] = rng.random() < .1
        same = [[x['name'] for x in p['decls'] if [str(d) for d in x['dims']] == [str(d) for d in y['dims']] and x['dims']]
                for y in p['decls']]
        same = [s for s in same if len(s) > 1]
        if same and rng.random() < .4:
            p['after'], p['after_text'] = ['swap'], ['swap(%s, %s);' % tuple(rng.sample(same[0], 2))]
        p['envs'] = envs
        return p


def valuations(rng, p, count=3):
    """Values for all names, in which loops are not empty."""
    names = set(x for env in p['envs'] for x in env) | set(l['i'] for l in p['loops'])
    out = []
    while len(out) < count:
        env = {x: rng.randint(11, 30) for x in sorted(names)}
        if all(val(l['s'], env) < val(l['e'], env) for l in p['loops'] if l['e']['k'] in 'bcn'):
            out.append(env)
    return out


def bare(p):
    """What the specification needs to know."""
    return {k: v for k, v in p.items() if k in ('decls', 'loops', 'body', 'after', 'between', 'order')}


def description(p, flops):
    """The same kernel as description."""
    pr = Printer(None, plain=True)

    def access(ix):
        return [pr.expr(e) for e in ix] if ix else None

    out = dict(loops=[dict(index=l['i'], start=pr.expr(l['s']), stop=pr.expr(l['e']), step=l['d']['v'])
                      for l in p['loops']],
               arrays={d['name']: dict(type=tuple(d['type'].split()), dimension=access(d['dims'])) for d in p['decls']},
               flops=dict(flops))
    for key, which in (('data sources', reads), ('data destinations', writes)):
        s = {}
        for a in which(p):
            s.setdefault(a['n'], [])
            if access(a['ix']) not in s[a['n']]:
                s[a['n']].append(access(a['ix']))
        out[key] = s
    return out
