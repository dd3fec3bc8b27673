"""C03: stale and partial artefacts (spec/ArtefactCache.tla with kills and edits)."""
import os
import random
import shutil

from checks import cacherig as R
from checks import simproc
from checks.c01 import NEGATIVE, VISIBLE, brief

MACHINES = [dict(), dict(cl=32), dict(flags='-O1 -mavx'), dict(sets=4, sets2=8), dict(osaca='HSW'), dict(sets=64)]


def follow(log, names, world):
    state = {'at': 0, 'seen': 0}

    def choose(ready, sim):
        while state['at'] < len(log):
            who, dies = log[state['at']][:2]
            if who in ('edit', 'touch'):
                world(sim, who)
            here = [q for q in ready if q.num == names.get(who)]
            if here and dies:
                state['at'] += 1
                return ('kill', here[0])
            new = [e for e in sim.events[state['seen']:] if e['p'] == names.get(who) and e['op'] in VISIBLE]
            if not here or new:
                state['at'] += 1
                state['seen'] = len(sim.events)
                continue
            return here[0]
        return ready[0]
    return choose


class World(object):
    """The outside: edits of the kernel and of the machine description."""

    def __init__(self, root):
        self.root, self.versions = root, {'k.c': 0, 'machine.yml': 0}

    def write(self, name, v, mtime=None):
        text = R.kernel_text(v) if name == 'k.c' else R.machine_text(**MACHINES[v % len(MACHINES)])
        self.versions[name] = v
        R.write(os.path.join(self.root, name), text, mtime)

    def edit(self, sim, name, v, when='now'):
        path = os.path.join(self.root, name)
        mtime = {'now': None, 'keep': os.stat(path).st_mtime, 'older': os.stat(path).st_mtime - 100}[when]
        if v is None:
            os.utime(path)
        else:
            self.write(name, v, mtime)
        sim.record(0, 'edit', f=name, mode=str(self.versions[name]))


def readings(events, num, start):
    """Versions of kernel and machine description process *num* has read."""
    cur, got = dict(start), {}
    for e in events:
        if e['op'] == 'edit':
            cur[e['f']] = int(e['mode'])
        if e['p'] == num and e['op'] == 'open-r' and e['f'] in cur:
            got.setdefault(e['f'], set()).add(cur[e['f']])
    return got


def spoil(root, how, rng):
    """Leave artefacts behind as nobody should use them: damaged and too old."""
    stamp = {'older-than-all': R.OLD - 1000, 'older-than-source': None, 'older-than-machine': None}[how]
    n = 0
    for d, _, files in os.walk(root):
        if d == root:
            continue
        for f in files:
            path = os.path.join(d, f)
            if f.endswith('.lock'):
                continue
            with open(path, 'rb') as h:
                data = h.read()
            kind = rng.choice(['cut', 'empty', 'junk'])
            with open(path, 'wb') as h:
                h.write({'cut': data[:len(data) // 2], 'empty': b'', 'junk': b'junk\n'}[kind])
            os.utime(path, (stamp or R.OLD + 1000,) * 2)
            n += 1
    if how == 'older-than-source':
        os.utime(os.path.join(root, 'k.c'), (R.OLD + 2000,) * 2)
    elif how == 'older-than-machine':
        os.utime(os.path.join(root, 'machine.yml'), (R.OLD + 2000,) * 2)
    return n


def run_world(job):
    root = os.path.join(job['dir'], 'w%d' % os.getpid())
    R.world(root)
    rng = random.Random(job.get('seed', 0))
    world = World(root)
    runs, events = [], []

    def later(kind, **kw):
        sim = simproc.Simulation(root)
        sim.spawn(R.Prog(root, kind=kind, **kw))
        r = sim.run(lambda ready, s: ready[0])[0]
        runs.append([kind, world.versions['k.c'], world.versions['machine.yml'], r])
    for kind in job.get('warm', ()):
        later(kind)
    for name, v, when in job.get('between', ()):
        world.edit(simproc.Simulation(root), name, v, when)
    if job.get('spoil'):
        spoil(root, job['spoil'], rng)
    start = dict(world.versions)
    sim = simproc.Simulation(root, seed=job.get('seed', 0))
    for p in job['progs']:
        sim.spawn(R.Prog(root, **p))
    for n, (name, v, when) in job.get('edits', ()):
        sim.hooks[n] = lambda name=name, v=v, when=when: world.edit(sim, name, v, when)
    kills = {int(k): v for k, v in job.get('kills', {}).items()}
    if 'log' in job:
        def outside(sim, what):
            name = rng.choice(['k.c', 'machine.yml'])
            world.edit(sim, name, None if what == 'touch' else rng.randint(0, 3))
        choose = follow(job['log'], {'a': 1, 'b': 2, 'c': 3}, outside)
    elif job.get('order'):
        choose = lambda ready, s: ready[0]
    else:
        stick, last = rng.choice([0, .7, .95]), [None]

        def choose(ready, sim):
            for q in ready:
                if q.num == last[0] and rng.random() < stick:
                    return q
            q = rng.choice(ready)
            last[0] = q.num
            return q
    results = sim.run(choose, kills)
    for p in sim.procs:
        got = readings(sim.events, p.num, start)
        runs.append([job['progs'][p.num - 1]['kind'], sorted(got.get('k.c', [])), sorted(got.get('machine.yml', [])),
                     results[p.num - 1], job['progs'][p.num - 1].get('fail', 0)])
    for step in job.get('after', ()):
        if isinstance(step, str):
            later(step)
        else:
            world.edit(simproc.Simulation(root), *step)
    shutil.rmtree(root, ignore_errors=True)
    return {'runs': runs, 'deadlock': sim.deadlock, 'events': sim.events, 'ops': [p.ops for p in sim.procs]}


KINDS = ['incore', 'exe', 'lc', 'sim', 'main', 'code', 'obj', 'asm', 'header', 'incore+exe']


def run(ctx):
    R.prepare(ctx)
    base = {'Wants': 'Pairs', 'Deps': 'Chain'}
    ctx.model('MCArtefactCache', consts=dict(base, MaxKills=2, MaxEdits=1), workers=6)
    ctx.model('MCArtefactCache', consts={'Deps': 'SmallDeps', 'Wants': 'Triple', 'Procs': '{"a", "b", "c"}',
                                         'MaxEdits': 0, 'MaxTouches': 0, 'MaxKills': ctx.pick(1, 2)}, workers=6)
    if ctx.thorough:
        ctx.model('MCArtefactCache', consts=dict(base, MaxKills=2, MaxEdits=2), workers=8, timeout=900)
        ctx.model('MCArtefactCache', consts={'Deps': 'MCDeps', 'Wants': 'SamePair', 'MaxEdits': 1, 'MaxTouches': 0,
                                             'MaxKills': 1}, workers=8, timeout=900)
    for switch, broken in NEGATIVE[:2]:
        r = ctx.tlc('MCArtefactCache', consts=dict(base, **{switch: 'FALSE'}), workers=4, check=False, count=False)
        if r.violated not in broken:
            raise R.MachineryError('specification without %s breaks %r' % (switch, r.violated))
    logs = ctx.tlc('MCArtefactCache', 'MCArtefactLog.cfg', count=False, timeout=300,
                consts={'Wants': 'SamePair', 'Deps': 'MCDeps', 'MaxEdits': 2, 'MaxKills': 1, 'MaxTouches': 1},
                args=['-simulate', 'num=%d' % ctx.pick(60, 400), '-depth', '220', '-seed', str(ctx.seed)]).prints
    work = os.path.join(ctx.scratch, 'worlds')
    os.makedirs(work)
    rng = ctx.rng
    jobs = []

    def job(progs, **kw):
        jobs.append(dict(kw, progs=[dict(kind=p) if isinstance(p, str) else p for p in progs], dir=work))

    # results from an empty cache, for every version of kernel and machine description
    versions = [(k, m) for k in range(4) for m in range(len(MACHINES))]
    for kind in KINDS:
        for k, m in versions:
            job([kind], between=[('k.c', k, 'keep'), ('machine.yml', m, 'keep')], order=1)
    out = simproc.parallel(jobs, run_world)
    solo, length = {}, {}
    for j, r in zip(jobs, out):
        if 'x' in r:
            raise R.MachineryError(r['x'])
        (_, k), (_, m) = [(x[0], x[1]) for x in j['between']]
        kind, _, _, res = r['r']['runs'][0][:4]
        if 'ok' not in res:
            ctx.violation('alone %s' % kind, 'a run alone fails: %r' % (res,))
            return
        solo[kind, k, m] = res
        length[kind] = r['r']['ops'][0]
    differ = {kind: len({repr(v) for (kk, k, m), v in solo.items() if kk == kind}) for kind in KINDS}
    ctx.require(min(differ[k] for k in KINDS if k != 'header') >= 3,
                'results do not tell versions apart: %r' % differ)
    jobs = []
    for p in logs:
        job(['incore', 'incore'], log=p['log'], after=['incore', 'exe'], seed=rng.randint(0, 10 ** 9))
    # killed at every operation, alone
    for kind in ['incore', 'exe', 'lc', 'sim', 'main', 'obj']:
        for n in range(0, length[kind] + 1):
            other = rng.choice(KINDS)
            job([kind], kills={1: n}, order=1, after=[kind, other], seed=rng.randint(0, 10 ** 9))
    # killed while renewing what has become stale
    for kind in ['incore', 'exe', 'lc', 'sim']:
        for n in range(rng.randint(0, 2), length[kind] + 1, ctx.pick(3, 1)):
            job([kind], warm=[kind], between=[('k.c', None, 'now')], kills={1: n}, order=1, after=[kind],
                seed=rng.randint(0, 10 ** 9))
            job([kind], warm=[kind], between=[('k.c', 1, 'now')], kills={1: n}, order=1,
                after=[kind, ('k.c', 0, 'now'), kind], seed=rng.randint(0, 10 ** 9))
    # edits at every operation
    for kind in ['incore', 'exe', 'lc', 'sim', 'incore+exe']:
        for n in range(rng.randint(0, 1), length[kind] + 1, ctx.pick(3, 1)):
            name = rng.choice(['k.c', 'machine.yml'])
            v = rng.randint(1, 3)
            job([kind], edits=[(n, (name, v, rng.choice(['now', 'now', 'keep', 'older'])))], order=1,
                after=[kind, (name, 0, rng.choice(['now', 'keep', 'older'])), kind])
    # the compiler fails half way
    for kind in ['incore', 'exe', 'obj', 'asm', 'incore+exe']:
        for n in (1, 2, 3):
            job([dict(kind=kind, fail=n)], order=1, after=[kind])
    # damaged artefacts that are older than something they depend on
    for kind in KINDS:
        for how in ('older-than-all', 'older-than-source', 'older-than-machine'):
            job([kind], warm=[kind], spoil=how, order=1, after=[kind], seed=rng.randint(0, 10 ** 9))
            job([kind], warm=['incore+exe', 'lc', 'sim'], spoil=how, order=1, after=KINDS[:4],
                seed=rng.randint(0, 10 ** 9))
    # histories of edits between runs
    for n in range(ctx.pick(80, 600)):
        after = []
        for _ in range(rng.randint(3, 8)):
            if rng.random() < .5:
                after.append((rng.choice(['k.c', 'machine.yml']), rng.choice([None, 0, 1, 2, 3]),
                              rng.choice(['now', 'now', 'keep', 'older'])))
            else:
                after.append(rng.choice(KINDS))
        job([rng.choice(KINDS)], order=1, after=after + [rng.choice(KINDS)])
    # several processes, kills and edits at random
    for n in range(ctx.pick(200, 2500)):
        progs = [rng.choice(KINDS) for _ in range(rng.choice([1, 2, 2, 3]))]
        kills = {rng.randint(1, len(progs)): rng.randint(0, 120)} if rng.random() < .7 else {}
        edits = [(rng.randint(0, 250), (rng.choice(['k.c', 'machine.yml']), rng.choice([None, 1, 2, 3]),
                                        rng.choice(['now', 'keep']))) for _ in range(rng.randint(0, 2))]
        job(progs, kills=kills, edits=edits, seed=rng.randint(0, 10 ** 9), after=progs[:1] + [rng.choice(KINDS)])
    out = simproc.parallel(jobs, run_world)
    events = []
    for j, r in zip(jobs, out):
        if r is None or 'x' in r:
            raise R.MachineryError('simulation failed: %s' % (r and r['x']))
        r = r['r']
        label = '%s %s' % ([p['kind'] for p in j['progs']], {k: v for k, v in j.items() if k not in ('progs', 'dir', 'log')})
        ctx.case(label + repr(j.get('log', '')))
        ctx.traces += 1
        replay = {'job': {k: v for k, v in j.items() if k != 'dir'}, 'operations': [brief(e) for e in r['events']][-300:]}
        if r['deadlock']:
            ctx.violation('deadlock %s' % label, 'processes wait for each other', replay)
            continue
        for kind, ks, ms, got, *fail in r['runs']:
            if 'killed' in got:
                continue
            if fail and fail[0] and 'exit' in got:
                continue
            ks = ks if isinstance(ks, list) else [ks]
            ms = ms if isinstance(ms, list) else [ms]
            want = [solo[kind, k, m] for k in ks for m in ms]
            if got not in want:
                ctx.violation('%s %s' % (kind, label), '%s with kernel %r and machine description %r: %r, from an empty '
                              'cache %r' % (kind, ks, ms, got, want[:1]), replay)
                break
        events.append({'p': 0, 'op': 'reset', 'f': '', 'g': '', 'fd': 0, 'mode': '', 'w': 0, 'res': 'ok'})
        events += [e for e in r['events'] if e['op'] != 'stat']
    ctx.sample([brief(e) for e in events[-12:]])
    ctx.validate('ArtefactTrace', events, chunk=20000, describe=lambda v, ev: (
        v['clause'], '%s: process %d, %s of %s %s, others: %s' % (
            v['clause'], ev['p'], ev['op'], ev['f'], ev['g'], v['want'])))
    ctx.extra['simulations'] = len(jobs)
    ctx.extra['versions'] = differ
    ctx.assume('the compiler is a stand-in (which goes on writing when its kerncraft process is killed); killed means '
               'SIGKILL: what was written to files before stays, the system itself does not crash')
    ctx.assume('the clock does not run backwards; artefacts are given dates explicitly where staleness by date matters')

