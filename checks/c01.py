"""C01: concurrent processes and artefacts (spec/ArtefactCache.tla, spec/ArtefactTrace.tla)."""
import os
import random
import shutil

from checks import cacherig as R
from checks import simproc

NEGATIVE = [('ContentKeys', {'RightInUse'}), ('AtomicWrite', {'WholeInUse'}), ('Recheck', {'NoWaste'}),
            ('HoldInUse', {'NotClobbered'})]


def brief(ev):
    return {k: v for k, v in ev.items() if v not in ('', 0) and k not in ('res',) or k in ('p', 'op')}


def chooser(schedule, rng):
    """Follow *schedule*, a list of (process number, operations); then one after the other."""
    state = {'at': 0, 'left': None}

    def choose(ready, sim):
        while state['at'] < len(schedule):
            p, n = schedule[state['at']]
            if state['left'] is None:
                state['left'] = n
            here = [q for q in ready if q.num == p]
            if state['left'] <= 0 or not here:
                state['at'] += 1
                state['left'] = None
                continue
            state['left'] -= 1
            return here[0]
        return ready[0]
    return choose


VISIBLE = ('flock', 'replace', 'open-lock', 'open-w', 'use-begin', 'use-end', 'kill', 'exit')


def follow(log, names):
    """Schedule of a behaviour of the specification: one visible operation per step of it."""
    state = {'at': 0, 'seen': 0}

    def choose(ready, sim):
        while state['at'] < len(log):
            who = names.get(log[state['at']][0])
            here = [q for q in ready if q.num == who]
            new = [e for e in sim.events[state['seen']:] if e['p'] == who and e['op'] in VISIBLE]
            if not here or new or log[state['at']][1]:
                state['at'] += 1
                state['seen'] = len(sim.events)
                continue
            return here[0]
        return ready[0]
    return choose


def run_world(job):
    """One simulation; returns its results and its operations."""
    root = os.path.join(job['dir'], 'w%d' % os.getpid())
    R.world(root, kernel=job.get('kernel', 0))
    for warm in job.get('warm', ()):
        sim = simproc.Simulation(root)
        sim.spawn(R.Prog(root, **warm))
        sim.run(lambda ready, s: ready[0])
    if job.get('age'):
        # everything there is stale by its date, though complete
        R.write(os.path.join(root, 'k.c'), R.kernel_text(job.get('kernel', 0)))
    sim = simproc.Simulation(root, seed=job.get('seed', 0))
    for p in job['progs']:
        sim.spawn(R.Prog(root, **p))
    rng = random.Random(job.get('seed', 0))

    def touch():
        os.utime(os.path.join(root, 'k.c'))
    for n in job.get('touch', ()):
        sim.hooks[n] = touch
    if 'log' in job:
        choose = follow(job['log'], {'a': 1, 'b': 2, 'c': 3})
        n = 0
        for who, kill, _ in job['log']:
            n += 1
            if who == 'touch':
                sim.hooks[n * 4] = touch
    elif 'schedule' in job:
        choose = chooser([tuple(x) for x in job['schedule']], rng)
    else:
        stick = rng.choice([0, .5, .8, .95])
        last = []

        def choose(ready, sim):
            if last and rng.random() < stick:
                for q in ready:
                    if q.num == last[0]:
                        return q
            q = rng.choice(ready)
            last[:] = [q.num]
            return q
    results = sim.run(choose)
    after = []
    for p in job['progs']:
        s2 = simproc.Simulation(root)
        s2.spawn(R.Prog(root, **p))
        after += s2.run(lambda ready, s: ready[0])
    ops = [p.ops for p in sim.procs]
    shutil.rmtree(root, ignore_errors=True)
    return {'results': results, 'after': after, 'events': sim.events, 'deadlock': sim.deadlock, 'ops': ops}


def run(ctx):
    R.prepare(ctx)
    # 1. the protocol itself
    base = {'Wants': 'Pairs', 'Deps': 'Chain'}
    ctx.model('MCArtefactCache', consts=base, workers=6)
    ctx.model('MCArtefactCache', consts={'Deps': 'MCDeps', 'Wants': 'SamePair', 'MaxEdits': 0, 'MaxKills': 1}, workers=6)
    ctx.model('MCArtefactCache', consts={'Deps': 'SmallDeps', 'Wants': 'Triple', 'Procs': '{"a", "b", "c"}',
                                         'MaxEdits': 0, 'MaxTouches': 0, 'MaxKills': 0}, workers=6)
    if ctx.thorough:
        ctx.model('MCArtefactCache', consts={'Deps': 'MCDeps', 'Wants': 'MixedPair', 'MaxEdits': 0, 'MaxTouches': 1},
                  workers=8, timeout=900)
        ctx.model('MCArtefactCache', consts={'Deps': 'SmallDeps', 'Wants': 'Triple2', 'Procs': '{"a", "b", "c"}',
                                             'MaxEdits': 0, 'MaxTouches': 1, 'MaxKills': 0}, workers=8, timeout=900)
    for switch, broken in NEGATIVE:
        r = ctx.tlc('MCArtefactCache', consts=dict(base, **{switch: 'FALSE'}), workers=4, check=False, count=False)
        if r.violated not in broken:
            raise R.MachineryError('specification without %s breaks %r' % (switch, r.violated))

    # 2. behaviours of the specification as schedules
    logs = []
    for want, deps, procs in (('SamePair', 'MCDeps', '{"a", "b"}'), ('MixedPair', 'MCDeps', '{"a", "b"}'),
                              ('Triple2', 'SmallDeps', '{"a", "b", "c"}')):
        r = ctx.tlc(
            'MCArtefactCache', 'MCArtefactLog.cfg', count=False, timeout=300,
            consts={'Wants': want, 'Deps': deps, 'Procs': procs, 'MaxEdits': 0, 'MaxKills': 0, 'MaxTouches': 1},
            args=['-simulate', 'num=%d' % ctx.pick(25, 200), '-depth', '220', '-seed', str(ctx.seed)])
        progs = {'SamePair': ['incore', 'incore'], 'MixedPair': ['incore', 'exe'],
                 'Triple2': ['incore', 'asm', 'code']}[want]
        logs += [(progs, p['log']) for p in r.prints]

    # 3. jobs
    work = os.path.join(ctx.scratch, 'worlds')
    os.makedirs(work)
    rng = ctx.rng
    jobs = []

    def job(kinds, **kw):
        progs = [dict(kind=k) if isinstance(k, str) else k for k in kinds]
        jobs.append(dict(kw, progs=progs, dir=work))
    for progs, log in logs:
        job(progs, log=log)
    kinds = ['header', 'code', 'main', 'asm', 'obj', 'exe', 'incore', 'lc', 'sim', 'ompexe', 'ompcode', 'incore+exe']
    solo = {}
    for k in kinds:
        job([k])
    n_solo = len(jobs)
    out = simproc.parallel(jobs[len(logs):], run_world)
    length = {}
    for k, r in zip(kinds, out):
        if 'x' in r:
            raise R.MachineryError(r['x'])
        r = r['r']
        if 'ok' not in r['results'][0]:
            ctx.violation('alone %s' % k, 'a run alone fails: %r' % (r['results'][0],))
            return
        solo[k] = r['results'][0]
        length[k] = r['ops'][0]
    jobs = jobs[:len(logs)]
    # one preemption at every operation
    pairs = [('incore', 'incore'), ('exe', 'exe'), ('lc', 'lc'), ('sim', 'sim'), ('exe', 'incore'),
             ('incore', 'exe')]
    if ctx.thorough:
        pairs += [('obj', 'exe'), ('asm', 'incore'), ('incore+exe', 'incore+exe'), ('main', 'exe'), ('header', 'exe'),
                  ('ompexe', 'exe')]
    for a, b in pairs:
        step = 1 if ctx.thorough or length[a] < 60 else 2
        for n in range(rng.randint(0, step - 1), length[a] + 1, step):
            job([a, b], schedule=[(1, n)] + [(2, 10 ** 6), (1, 10 ** 6)])
    # stale artefacts and touched sources: one preemption in each
    for a, b in (('exe', 'exe'), ('incore', 'incore')):
        for n in range(0, length[a], ctx.pick(6, 2)):
            job([a, b], warm=[dict(kind=a)], age=1, schedule=[(1, n), (2, 10 ** 6), (1, 10 ** 6)])
            job([a, b], schedule=[(1, n), (2, 10 ** 6), (1, 10 ** 6)], touch=[n])
            m = rng.randint(1, length[b])
            job([a, b], schedule=[(1, n), (2, m), (1, 10 ** 6)], touch=[n + m // 2])
    # users of a finished executable or analysis while the source is touched and others rebuild it
    for a in ('exe', 'incore', 'obj', 'asm', 'code', 'main'):
        for back in range(1, 16, ctx.pick(2, 1)):
            n = max(length[a] - back, 0)
            job([a, a], schedule=[(1, n), (2, 10 ** 6), (1, 10 ** 6)], touch=[n])
    # the same for users of an artefact that was there already
    for a in ('exe', 'incore', 'obj', 'asm', 'code', 'main'):
        for n in range(rng.randint(0, 1), 26, ctx.pick(2, 1)):
            job([a, a], warm=[dict(kind=a)], schedule=[(1, n), (2, 10 ** 6), (1, 10 ** 6)], touch=[n])
    # random schedules of two to four processes, some removing their own intermediates
    for n in range(ctx.pick(260, 3000)):
        progs = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            k = rng.choice(kinds)
            progs.append(dict(kind=k, keep=rng.random() > .15))
        extra = {}
        if rng.random() < .3:
            extra['touch'] = sorted(rng.sample(range(200), rng.randint(1, 2)))
        if rng.random() < .2:
            extra.update(warm=[dict(kind=rng.choice(kinds))], age=rng.randint(0, 1))
        job(progs, seed=rng.randint(0, 10 ** 9), **extra)
    out = simproc.parallel(jobs, run_world)

    # 4. verdicts
    events, origin = [], []
    for j, r in zip(jobs, out):
        if r is None or 'x' in r:
            raise R.MachineryError('simulation failed: %s' % (r and r['x']))
        r = r['r']
        label = '%s %s' % ([(p['kind'], p.get('keep', True)) for p in j['progs']],
                           {k: v for k, v in j.items() if k not in ('progs', 'dir', 'log')})
        ctx.case(label if 'log' not in j else label + repr(j['log']))
        ctx.traces += 1
        replay = {'job': {k: v for k, v in j.items() if k != 'dir'}, 'operations': [brief(e) for e in r['events']][-400:]}
        if r['deadlock']:
            ctx.violation('deadlock %s' % label, 'processes wait for each other: %r' % (r['results'],), replay)
            continue
        for which in ('results', 'after'):
            for p, got in zip(j['progs'], r[which]):
                if got != solo[p['kind']]:
                    ctx.violation('%s %s' % (which, label), '%s of %s: %r, alone %r' % (
                        {'results': 'result', 'after': 'result of a later run'}[which], p['kind'], got,
                        solo[p['kind']]), replay)
        events.append({'p': 0, 'op': 'reset', 'f': '', 'g': '', 'fd': 0, 'mode': '', 'w': 0, 'res': 'ok'})
        events += [e for e in r['events'] if e['op'] != 'stat']
        origin += [label] * (len(events) - len(origin))
    ctx.sample([brief(e) for e in events[:12]])
    ctx.validate('ArtefactTrace', events, chunk=20000, describe=lambda v, ev: (
        v['clause'], '%s: process %d, %s of %s %s, others: %s' % (
            v['clause'], ev['p'], ev['op'], ev['f'], ev['g'], v['want'])))
    ctx.extra['simulations'] = len(jobs)
    ctx.extra['rule'] = ('processes are forked and stopped at every operation below the kernel\'s directory; one '
                         'preemption at every operation for the listed pairs, behaviours of the specification, '
                         'and seeded schedules of up to 4 processes')
    ctx.assume('the compiler is a stand-in that reads its inputs and writes its output in steps; OSACA analysis of the '
               'marked assembly is a stand-in that reads the file; locks, files and processes are real')
    ctx.assume('locks of the system exclude each other (checked on every trace), one host, a file system with flock')
