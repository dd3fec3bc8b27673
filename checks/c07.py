"""C07: what is extracted from kernels (spec/KernelLang.tla, spec/KernelTrace.tla)."""
import copy
import re

import sympy

from checks import kernelrig as rig
from checks.common import quiet
from checks.simproc import parallel


# -- programs beyond the subset -------------------------------------------------------------------
def text(t):
    return dict(k='text', t=t)


def some_index(rng, p):
    return rng.choice([l['i'] for l in p['loops']])


def break_it(rng, p, pr):
    """A change of program *p* after which it is not in the subset; returns its name."""
    p['inner'] = False
    loop = rng.choice(p['loops'])
    s = rng.choice(p['body'])
    arefs = [a for a in rig.reads(p) + rig.writes(p) if a['ix']]
    a = rng.choice(arefs)
    i = some_index(rng, p)
    arr = rng.choice([d for d in p['decls'] if d['dims']])
    bad_index = [text(pr.expr(a['ix'][0]) + ' / 2'), text(i + ' % 3'), text(i + ' << 1'), text('%s[%s]' % (arr['name'], i)),
                 text('f(%s)' % i), text('(int)%s' % i), text('-%s + 9' % i), text('%s++' % i), text('~%s' % i),
                 text('%s > 3 ? %s : 2' % (i, i)), text('2 + (%s / 2)' % i), text('%s - (-1)' % i), text("'a'"),
                 text('i[%s]' % arr['name']), text('%s | 1' % i)]
    kind = rng.choice(['cond', 'next', 'cvar', 'nvar', 'variable', 'step', 'declared', 'start', 'stop', 'index', 'dim', 'rhs', 'lhs',
                       'statement', 'after', 'between', 'type', 'mixed', 'float', 'op', 'cond2'])
    if kind == 'cond':
        loop['cond'] = rng.choice(['<=', '>', '>=', '!=', '=='])
    elif kind == 'cond2':
        loop['e'] = text('%s && %s < 5' % (pr.expr(loop['e'], 3), loop['i']))
    elif kind == 'next':
        loop['next'] = rng.choice(['--', 'p--', '-=', '*=', '<<='])
    elif kind == 'cvar':
        loop['cvar'] = rng.choice(['N', 'other', loop['i'] + 'x'])
    elif kind == 'nvar':
        loop['nvar'] = rng.choice(['N', 'other', loop['i'] + 'x'])
    elif kind == 'variable':        # only the declared one is another
        loop['cvar'] = loop['nvar'] = rng.choice(['N', 'other', loop['i'] + 'x', p['loops'][0]['i']])
        if loop['cvar'] == loop['i']:
            return None
    elif kind == 'step':
        loop['next'], loop['d'] = '+=', rng.choice([rig.n('N'), text('1+1'), text('-1'), text('N*2'), text('2.0'), text('1.5')])
        if loop['d'].get('t') in ('-1',):
            loop['next'] = '+='
    elif kind == 'declared':
        loop['declared'] = rng.choice([0, 2])
    elif kind == 'start':
        loop['s'] = rng.choice([text('N / 2'), text('f(1)'), text('-1'), text('1 << 1'), text('N % 3'), text('(int)2')])
    elif kind == 'stop':
        loop['e'] = rng.choice([text('N / 2'), text('f(1)'), text('N >> 1'), text('N % 3'), text('min(N, 3)'), text('(N - 1) / 2')])
    elif kind == 'float':
        loop['e'] = dict(k='c', v=10, form='float', text=rng.choice(['10.5', '7.0', '1e1', '100.5', '9.999', '5.f']))
        if rng.random() < .4:
            loop['s'], loop['e'] = dict(k='c', v=0, form='float', text=rng.choice(['0.5', '1.0', '0.'])), rig.c(9)
    elif kind == 'index':
        a['ix'][rng.randrange(len(a['ix']))] = rng.choice(bad_index)
    elif kind == 'dim':
        arr['dims'][rng.randrange(len(arr['dims']))] = rng.choice(
            [text('N / 2'), text('N % 5'), text('N << 1'), text('f(N)'), text('10.0'), text('(N > 3 ? N : 3)'), text('')])
    elif kind == 'rhs':
        pick = pr.expr(rng.choice(arefs))
        s['rhs'] = rng.choice([text('sqrt(%s)' % pick), text('(double)%s' % pick), text('%s > 0 ? %s : 1.0' % (pick, pick)),
                               text('!%s' % pick), text('+%s' % pick), text('*%s' % pick), text('~%s' % pick),
                               text('(%s = 2)' % pick), text('%s * f(2)' % pick), text('%s + (1, 2)' % pick),
                               text('sizeof(%s)' % pick), text('p.x + %s' % pick), text('p->x + %s' % pick),
                               rig.b(s['rhs'], '+', text('exp(%s)' % pick))])
    elif kind == 'lhs':
        s['lhs'] = rng.choice([text('*' + arr['name']), text('p.x'), text('p->x')])
    elif kind == 'op':
        s['kind'], s['text'] = 'expression', rng.choice(
            ['%s++;', '++%s;', '%s;', 'f(%s);', 'if (%s > 0) s = 1;', 'while(%s > 2) {}']) % pr.expr(a)
    elif kind == 'statement':
        p['body'].insert(rng.randint(0, len(p['body'])), dict(
            kind='other', op='=', lhs=s['lhs'], rhs=dict(k='f', v=0, t='0'), text=rng.choice(
                ['double tmp = %s;' % pr.expr(a), 'for(int q = 0; q < 3; q++) { %s = q; }' % pr.expr(a), 'break;',
                 'continue;', 'return;', 'double tmp;', 'if (%s < 3) %s = 0.;' % (i, pr.expr(a))])))
        if len(p['body']) == 2 and p['body'][1]['kind'] == 'other' and p['body'][1]['text'].startswith('for'):
            p['body'][1]['text'] = 'break;'
    elif kind == 'after':
        p['after'].append('other')
        p['after_text'] = p['after_text'] + [rng.choice(
            ['%s = 0;' % pr.expr(a), 'for(int q = 0; q < 3; q++) %s = q;' % pr.expr(a), 'swap2(%s, %s);' % (arr['name'],
             arr['name']), 'double late;', 'return;', '%s++;' % pr.expr(a)])]
    elif kind == 'between':
        if len(p['loops']) < 2:
            return None
        p['between'] = ['assign']
        p['between_text'] = [rng.choice(['%s = 0;', '%s += 1;', 'f(%s);']) % pr.expr(a)]
        p['loops'][0]['braces'] = True
    elif kind == 'type':
        t = rng.choice(['int', 'long', 'unsigned', 'char', 'long double'])
        for d in p['decls']:
            d['type'] = t
    elif kind == 'mixed':
        if len(p['decls']) < 2:
            return None
        d = rng.choice(p['decls'])
        d['type'] = rng.choice([t for t in ('double', 'float', 'double _Complex', 'float _Complex') if t != d['type']])
    return kind


# -- the real code ----------------------------------------------------------------------------------
def extract(job):
    import kerncraft.kernel as K
    try:
        if 'code' in job:
            k = quiet(K.KernelCode, job['code'], machine=None)
        else:
            k = quiet(K.KernelDescription, job['description'])
    except SystemExit as e:
        return dict(accepted=0, error='exit %s' % e.code)
    except Exception as e:
        return dict(accepted=0, error='%s: %s' % (type(e).__name__, e))
    try:
        return inspect(k, job['envs'], K)
    except Exception as e:
        return dict(accepted=0, error='%s: %s' % (type(e).__name__, e))


def inspect(k, envs, K):
    envs = [{K.symbol_pos_int(x): v for x, v in e.items()} for e in envs]

    def values(e):
        out = []
        for env in envs:
            v = sympy.sympify(e).subs(list(env.items()))
            out.append(int(v) if v.is_Integer else -999999)
        return out

    def accesses(d):
        return [[name, [] if a is None else [values(e) for e in a]] for name, s in sorted(d.items())
                for a in sorted(s, key=str)]

    flops = {op: int(k._flops.get(op, 0)) for op in '+-*/'}
    stack = list(k.get_loop_stack())
    sizes = k.array_sizes()
    return dict(
        accepted=1, loops=[[l['index']] + [values(l[x]) for x in ('start', 'stop', 'increment')] for l in stack],
        variables=[[name, [] if v[1] is None else [values(e) for e in v[1]], ' '.join(v[0])]
                   for name, v in sorted(k.variables.items())],
        sources=accesses(k.sources), destinations=accesses(k.destinations), flops=flops,
        others=sum(v for op, v in k._flops.items() if op not in '+-*/'), datatype=' '.join(k.datatype),
        sizes=[[name, values(s)] for name, s in sorted(sizes.items())], length=values(k.iteration_length()))


def describe(v, ev):
    return (v['clause'], '%s: %s (specification: %s) for\n%s' % (
        v['clause'], str(ev.get({'operations': 'flops', 'iterations': 'length'}.get(v['clause'], v['clause']), ev.get('error', '')))[:300], v['want'][:300], ev['text']))


def operations(p):
    out = {}

    def count(e):
        if e['k'] == 'b':
            count(e['l'])
            count(e['r'])
        elif e['k'] == 'u':
            count(e['l'])
        if e['k'] in 'bu':
            out[e['op'][-1]] = out.get(e['op'][-1], 0) + 1
    for s in p['body']:
        if s['op'] != '=':
            out[s['op'][0]] = out.get(s['op'][0], 0) + 1
        count(s['rhs'])
    return out


def run(ctx):
    rng = ctx.rng
    ctx.model('MCKernelLang', workers=4)
    maker = rig.Maker(rng, most=2000)
    jobs, progs = [], []
    for x in range(ctx.pick(500, 5000)):
        p = maker.make()
        if rng.random() < .05:
            rng.choice(p['loops'])['e'] = rig.c(rng.choice([16, 17, 64]), rng.choice(['oct', 'hex', 'dec']))
        if rng.random() < .05:
            d = rng.choice([d for d in p['decls'] if d['dims']])
            d['dims'][0] = rig.c(rng.choice([100, 64, 77]), rng.choice(['oct', 'hex', 'dec']))
        code = rig.Printer(rng).text(p)
        envs = rig.valuations(rng, p)
        progs.append(p)
        jobs.append(dict(code=code, envs=envs, text=code))
        if rng.random() < .5:
            d = rig.description(p, operations(p))
            q = copy.deepcopy(p)
            progs.append(q)
            jobs.append(dict(description=d, envs=envs, text=repr(d)))
    broken = {}
    for x in range(ctx.pick(500, 5000)):
        p = copy.deepcopy(maker.make())
        try:
            kind = break_it(rng, p, rig.Printer(rng, plain=True))
        except KeyError:
            kind = None
        if kind is None:
            continue
        broken[kind] = broken.get(kind, 0) + 1
        code = rig.Printer(rng).text(p)
        progs.append(p)
        jobs.append(dict(code=code, envs=[{}], text=code, kind=kind))
    out = parallel(jobs, extract)
    events, accepted = [], 0
    for p, j, r in zip(progs, jobs, out):
        if 'r' not in r:
            ctx.violation('failure', 'exception %s for\n%s' % (r.get('x'), j['text']), j)
            continue
        r = r['r']
        accepted += r['accepted']
        ctx.case(j['text'])
        events.append(dict(r, what='parse', prog=rig.bare(p), envs=j['envs'], text=j['text']))
    ctx.require(accepted >= len(jobs) / 3 and len(broken) >= 15,
                'programs are not what they should be: %r %d' % (broken, accepted))
    ctx.extra['programs accepted'] = accepted
    ctx.extra['changes beyond the subset'] = broken
    for e in events:
        if not e['accepted']:
            e['envs'] = []
    ctx.traces += len(events)
    ctx.sample({k: events[0][k] for k in ('text', 'loops', 'sources') if k in events[0]})
    ctx.validate('KernelTrace', events, chunk=400, describe=describe)
