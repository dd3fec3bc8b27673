"""C02: results do not depend on what earlier runs left in the cache (spec/CacheKeys.tla)."""
import json
import os
import shutil

from checks import cacherig as R
from checks import simproc

KERNELS = [R.kernel_text(0), R.kernel_text(1), R.kernel_text(0).replace(' * s', ' * (s + 2.0)'),
           R.kernel_text(0).replace('double', 'float')]
CONSTANTS = [{'M': 10, 'N': 24}, {'M': 24, 'N': 10}, {'M': 10, 'N': 240}]
FLAGS = [None, '-O1 -g', '-O1_-g', '-O1/-g', '-O1,-g', '-O1 -D' + 'x' * 300, '-O1 -D' + 'x' * 299 + 'y']
STORED = ['header', 'code', 'ompcode', 'main', 'asm', 'obj', 'exe', 'ompexe', 'incore', 'lc', 'sim']
# parts of a situation that are seen in what a want reports (besides those of the specification)
IRRELEVANT = ('where', 'file')


def situation(root, sit):
    """Write the files of a situation; the arguments of Prog."""
    kernel = ['k.c', 'other.c'][sit['file']]
    machine = ['', 'elsewhere/'][sit['where']] + 'machine.yml'
    R.write(os.path.join(root, kernel), KERNELS[sit['kernel']], R.OLD)
    kw = {}
    if sit['sets']:
        kw.update(sets=4, sets2=8)
    if sit['cl']:
        kw.update(cl=32)
    if sit['flags']:
        kw.update(flags='-O3 -mavx')
    if sit['arch']:
        kw.update(osaca='HSW')
    if sit['bw']:
        kw.update(bw=9)
    R.write(os.path.join(root, machine), R.machine_text(**kw), R.OLD)
    consts = dict(CONSTANTS[sit['consts']])
    if sit['more']:
        consts['Z'] = 7
    return dict(kernel=kernel, machine=machine, consts=consts, cores=[1, 4][sit['cores']],
                model=[None, 'LLVM-MCA'][sit['model']], compiler=[None, 'clang'][sit['compiler']],
                flags=FLAGS[sit['cflags']], block=['auto', 0, 1][sit['block']],
                increment=['auto', 16, 1][sit['incr']])


def once(root, want, sit):
    sim = simproc.Simulation(root)
    sim.spawn(R.Prog(root, want, **situation(root, sit)))
    r = sim.run(lambda ready, s: ready[0])[0]
    if 'exc' in r:
        r = {'exc': r['exc'].strip().split('\n')[-1].replace(root, '')}
    return r, sum(e['op'] == 'open-w' and not e['f'].endswith('.lock') for e in sim.events)


def run_history(job):
    root = os.path.join(job['dir'], 'w%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    out = [once(root, h['want'], h['sit']) for h in job['hist']]
    shutil.rmtree(root, ignore_errors=True)
    return out


def key(want, sit):
    return want + json.dumps(sit, sort_keys=True)


def describe(hist):
    text = []
    for h in hist:
        text.append('%s(%s)' % (h['want'], ', '.join('%s=%s' % kv for kv in sorted(h['sit'].items()) if kv[1])))
    return ' then '.join(text)


def run(ctx):
    R.prepare(ctx, ('auto', 0, 1), ('auto', 16, 1))
    ctx.model('CacheKeys', consts={'MaxRuns': ctx.pick(2, 3)}, workers=8, timeout=800)
    weak = ctx.tlc('CacheKeys', 'CacheKeysWeak.cfg', workers=8, count=False).prints
    shown = {tuple(p['weak']) for p in weak}
    long_runs = ctx.tlc('CacheKeys', consts={'MaxRuns': ctx.pick(5, 6), 'Emit': 'TRUE'}, count=False,
                        args=['-simulate', 'num=%d' % ctx.pick(150, 1500), '-depth', '7', '-seed', str(ctx.seed)]).prints
    stored = {p['weak'][0] for p in weak}
    if len(stored) < 13 or len(shown) < 70:
        raise R.MachineryError('specification with weak names shows only %d of them' % len(shown))
    work = os.path.join(ctx.scratch, 'worlds')
    os.makedirs(work)
    # each missing part of a name is shown by some history; take a few of each
    rng = ctx.rng
    hists, done = {}, {}
    rng.shuffle(weak)
    for p in weak:
        w = tuple(p['weak'])
        text = describe(p['hist'])
        if done.get(w, 0) < ctx.pick(5, 40) or text in hists:
            hists[text] = p['hist']
            done[w] = done.get(w, 0) + 1
    for p in weak[:ctx.pick(60, 600)]:
        # exchanged in a single step
        h = [dict(x) for x in p['hist'][:1]]
        h[0]['want'] = 'incore'
        h[0]['sit'] = dict(h[0]['sit'], block=rng.randint(0, 2), incr=rng.randint(0, 2))
        h.append(dict(h[0], sit=dict(h[0]['sit'], block=h[0]['sit']['incr'], incr=h[0]['sit']['block'])))
        hists[describe(h)] = h
    for p in long_runs:
        hists[describe(p['hist'])] = p['hist']
    # there and back again, with other stored artefacts asked for, and with several at once
    for p in list(hists.values()):
        if rng.random() < ctx.pick(.15, .5):
            h = [dict(x) for x in p]
            h.append(dict(h[0]))
            if rng.random() < .5:
                h[rng.randrange(len(h))]['want'] = rng.choice(STORED)
            if rng.random() < .3:
                i = rng.randrange(len(h))
                h[i]['want'] = '+'.join(rng.sample(STORED, 3))
            hists[describe(h)] = h
    hists = [hists[t] for t in sorted(hists)]
    fresh = {}
    for h in hists:
        for r in h:
            fresh[key(r['want'], r['sit'])] = dict(dir=work, hist=[r])
    names = sorted(fresh)
    for n, r in zip(names, simproc.parallel([fresh[n] for n in names], run_history)):
        if 'x' in r:
            raise R.MachineryError(r['x'])
        fresh[n] = r['r'][0]
    failing = sorted(n for n in names if 'ok' not in fresh[n][0])
    if len(failing) > .2 * len(names):
        ctx.violation('fails', 'runs from an empty cache fail: %s: %r' % (failing[0], fresh[failing[0]]))
        return
    out = simproc.parallel([dict(dir=work, hist=h) for h in hists], run_history)
    used = total = 0
    for h, r in zip(hists, out):
        if r is None or 'x' in r:
            raise R.MachineryError('replay failed: %s' % (r and r['x']))
        text = describe(h)
        ctx.case(text)
        ctx.traces += 1
        for i, (run_, (got, written)) in enumerate(zip(h, r['r'])):
            want, written_fresh = fresh[key(run_['want'], run_['sit'])]
            total += 1
            used += written < written_fresh
            if got != want:
                ctx.violation(text, 'run %d of: %s reports %s, from an empty cache %s' % (
                    i + 1, text, differing(got, want), differing(want, got)), {'history': h, 'reported': got,
                                                                             'empty cache': want})
                break
    ctx.require(used >= total // 10, 'only %d of %d runs used something stored' % (used, total))
    # which parts matter, in the specification and really
    seen = {}
    for n in names:
        want = n.split('{')[0]
        sit = json.loads(n[len(want):])
        off = [d for d in sit if sit[d]]
        base = fresh.get(key(want, dict.fromkeys(sit, 0)))
        if len(off) == 1 and base:
            seen.setdefault(off[0], set())
            if base[0] != fresh[n][0]:
                seen[off[0]].add(want)
    ctx.extra['parts seen in'] = {d: sorted(w) for d, w in seen.items()}
    ctx.extra['runs'] = total
    ctx.extra['runs that used something stored'] = used
    ctx.extra['weak names shown'] = len(shown)
    ctx.extra['failing alike'] = len(failing)
    blind = [d for d in seen if d not in IRRELEVANT and not seen[d]]
    if blind:
        ctx.extra['parts without influence'] = blind
    ctx.sample([{'history': text, 'runs': len(h)} for text, h in [(describe(h), h) for h in hists[:5]]])
    ctx.assume('compilers and in-core analysers are stand-ins whose output tells all they were given')
    ctx.assume('all files are older than all artefacts, so that only names can tell situations apart (dates: C03)')


def differing(a, b):
    a, b = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '...' + a[max(i - 30, 0):i + 60]
