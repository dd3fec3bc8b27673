"""C24: generating machine files (spec/MachineBench.tla, spec/MachineBenchTrace.tla)."""
import json
import os
import re
import signal
import stat
import sys
import time

from checks import simproc
from checks.c23 import description

# variants of the kernels of likwid-bench; some do not run on every machine, some must not be considered
VARIANTS = [
    ('load', 'load', 'ok'), ('load', 'load_avx', 'ok'), ('load', 'load_avx512', 'fails'), ('load', 'load_mem', 'no'),
    ('copy', 'copy', 'ok'), ('copy', 'copy_sp', 'no'), ('copy', 'copy_sse', 'ok'),
    ('update', 'update_avx512', 'fails'), ('update', 'update', 'ok'),
    ('triad', 'triad', 'ok'), ('triad', 'triad_mem_avx', 'no'), ('triad', 'triad_avx_nt', 'no'),
    ('daxpy', 'daxpy_sp_avx', 'no'), ('daxpy', 'daxpy', 'ok'), ('daxpy', 'daxpy_avx', 'ok'),
]

BENCH = r'''#!/bin/sh
ulimit -S -f unlimited
dir=%s
if [ "$1" = "-a" ]; then cat $dir/variants; exit 0; fi
read n < $dir/count
n=$((n+1))
echo $n > $dir/count
read at mode < $dir/plan
bw=$((1000 + (n * 7919) %% 65521))
failed=0
case "$2" in *avx512) failed=1;; esac
echo "$n $bw $failed $*" >> $dir/calls
if [ $n = "$at" ]; then
  echo 1 > $dir/fired
  case $mode in
    interrupted) kill -INT $PPID; sleep 0.05;;
    killed) kill -KILL $PPID;;
    unwritten) prlimit --pid $PPID --fsize=200:;;
  esac
fi
if [ $failed = 1 ]; then echo "Illegal instruction"; exit 132; fi
echo "Allocate: whatever"
printf 'Time:\t\t0.5 sec\nMByte/s:\t\t%%d.00\n' $bw
echo done
'''


def script(path, text):
    with open(path, 'w') as f:
        f.write(text)
    os.chmod(path, stat.S_IRWXU)


def reset():
    """Caches of this process are not those of the next one."""
    import kerncraft.machinemodel as mm
    for f in vars(mm).values():
        if hasattr(f, 'cache_clear'):
            f.cache_clear()


def no_machine_state():
    import subprocess
    import kerncraft.machinemodel as mm
    real = subprocess.check_output

    def check_output(cmd, *args, **kwargs):
        if str(cmd if isinstance(cmd, str) else cmd[0]).endswith('machine-state.sh'):
            return b'state'
        return real(cmd, *args, **kwargs)
    subprocess.check_output = check_output
    if hasattr(mm, 'get_machien_state'):
        mm.get_machien_state = lambda: 'state'


def generate(args, gently):
    """Run the generator in a process of its own; returns how it ended."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            null = os.open(os.devnull, os.O_RDWR)
            err = os.open('err', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(null, 0), os.dup2(null, 1), os.dup2(err, 2)
            if not gently:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            import kerncraft.machinemodel as mm
            reset()
            no_machine_state()
            sys.argv = ['likwid_bench_auto'] + args
            mm.main()
            code = 0
        except BaseException:   # noqa
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return status


def load(path):
    from kerncraft.machinemodel import MachineModel
    return MachineModel(path)


def summary(m):
    entries = []
    b = m['benchmarks']
    if not isinstance(b, dict):
        return dict(entries=[], kernels=[])

    def whole(x):
        v = float(x) / 1e6
        return int(round(v)) if abs(v - round(v)) < 1e-6 else -1
    for level, by in b['measurements'].items():
        for tpc, e in by.items():
            names = sorted(set(e.get('results', {})) | set(e.get('stats', {})))
            entries.append(dict(
                level=str(level), tpc=tpc, cores=list(e['cores']), threads=list(e['threads']),
                kB=[int(float(s) / 1000) for s in e['total size']],
                series=[dict(kernel=k, results=[whole(x) for x in e['results'].get(k, [])],
                             stats=[[whole(x) for x in s] for s in e['stats'].get(k, [])]) for k in names]))
    kernels = [dict(name=k, fastest=str(v.get('fastest bench kernel') or '')) for k, v in b['kernels'].items()]
    return dict(entries=entries, kernels=kernels)


def rest(m):
    d = {k: v for k, v in m._data.items() if k not in ('benchmarks', 'machine state')}
    return repr(sorted(d.items(), key=lambda kv: kv[0]))


def apply_hardware(m, hw):
    from kerncraft.prefixedunit import PrefixedUnit
    m._data['cores per socket'] = hw['cores']
    m._data['threads per core'] = hw['threads']
    for lv, mem in zip(hw['levels'], m['memory hierarchy']):
        mem['size per group'] = PrefixedUnit(float(lv['kB']), 'k', 'B')
        mem['cores per group'] = lv['group']
    m['memory hierarchy'][-1]['cores per group'] = hw['cores']


def worker(job):
    """One history of processes which benchmark into a machine file."""
    from kerncraft import __version__
    from kerncraft.machinemodel import MachineModel
    os.makedirs(job['dir'])
    os.chdir(job['dir'])
    here = os.getcwd()
    script('likwid-bench', BENCH % here)
    with open('variants', 'w') as f:
        for kernel, name, _ in VARIANTS:
            f.write('%s - Double-precision %s, whatever it does\n' % (name, kernel))
        f.write('sum - Double-precision sum\nclcopy - load_avx copies\n')
    os.environ['PATH'] = here + ':' + os.environ['PATH']
    hw = job['hw']
    content = dict(id=1, clock=2, numa=8, bw=[10], levels=[
        dict(name=lv['name'], sets=64, ways=8, group=1) for lv in hw['levels']])
    d = description(content, __version__)
    d['benchmarks'] = {'none': 'INFORMATION_REQUIRED', 'empty': {}, 'part': {
        'kernels': {'load': d['benchmarks']['kernels']['load']}, 'measurements': {}}}[job['initial']]
    m = MachineModel(machine_yaml=d)
    apply_hardware(m, hw)
    m.dump('m0.yml')
    name, n = 'm0.yml', 0
    events = [dict(ev='machine', hw=hw, fresh=True)]
    with open('count', 'w') as f:
        f.write('0\n')
    done = 0
    for step in job['steps']:
        if step['end'] == 'edited':
            hw = step['hw']
            m = load(name)
            apply_hardware(m, hw)
            m.dump(name)
            events.append(dict(ev='machine', hw=hw, fresh=False))
            continue
        for f in ('fired', 'calls'):
            if os.path.exists(f):
                os.remove(f)
        with open('plan', 'w') as f:
            f.write('%d %s\n' % (done + step['at'] if step['end'] != 'finished' else 0, step['end']))
        before = rest(load(name))
        n += 1
        out = name if step['same'] else 'm%d.yml' % n
        status = generate(['-m', name, '--no-readouts', '--no-memory-hierarchy'] + ['-v'] * step['verbose'] + [out],
                          step['gently'])
        fired = os.path.exists('fired')
        calls = []
        if os.path.exists('calls'):
            with open('calls') as f:
                for line in f:
                    done, bw, failed, args = line.split(None, 3)
                    done = int(done)
                    w = re.match(r'-t (\S+) -W S0:(\d+)kB:(\d+):1:(\d+)$', args.strip())
                    g = w.groups() if w else ('?' + args, -1, -1, -1)
                    calls.append(dict(variant=g[0], kB=int(g[1]), threads=int(g[2]), stride=int(g[3]), bw=int(bw),
                                      failed=failed == '1' or (fired and False)))
        if os.WIFSIGNALED(status):
            end = {signal.SIGKILL: 'killed', signal.SIGXFSZ: 'unwritten'}.get(os.WTERMSIG(status), 'signal')
        elif os.WEXITSTATUS(status):
            end = 'unwritten' if fired and step['end'] == 'unwritten' else 'error'
        else:
            end = step['end'] if fired and step['end'] == 'interrupted' else 'finished'
        if end == 'error':
            with open('err') as f:
                why = f.read()[-600:]
            return dict(events=events, failed=why, step=step)
        e = dict(ev='run', end=end, expected=step['end'] if fired else 'finished', calls=calls,
                 variants=[dict(kernel=k, name=v) for k, v, s in VARIANTS if s != 'no'], loads=True, rest=True)
        # what was not saved in another file is continued from where it was
        target = out if os.path.exists(out) and (os.path.getsize(out) or out == name) else name
        try:
            m = load(target)
            e['file'] = summary(m)
            e['rest'] = rest(m) == before
            name = target
        except Exception as exc:   # noqa
            e.update(loads=False, file=dict(entries=[], kernels=[]), why=repr(exc)[:300])
        if not calls:
            e['calls'] = []
        events.append(e)
        if not e['loads']:
            break
    return dict(events=events)


TOPOLOGY = '''--------------------------------------------------------------------------------
CPU name:\t%(name)s
CPU type:\t%(type)s
CPU stepping:\t4
********************************************************************************
Hardware Thread Topology
********************************************************************************
Sockets:\t\t%(sockets)d
Cores per socket:\t%(cores)d
Threads per core:\t%(threads)d
--------------------------------------------------------------------------------
HWThread\tThread\t\tCore\t\tSocket\t\tAvailable
%(list)s
--------------------------------------------------------------------------------
%(socketlist)s
--------------------------------------------------------------------------------
********************************************************************************
Cache Topology
********************************************************************************
%(caches)s
********************************************************************************
NUMA Topology
********************************************************************************
NUMA domains:\t\t%(numa)d
--------------------------------------------------------------------------------
Domain:\t\t\t0
Free memory:\t\t29023.3 MB
Total memory:\t\t32734.2 MB
--------------------------------------------------------------------------------
'''


def topology(m):
    n = m['sockets'] * m['cores']
    cpus = [(t * n + s * m['cores'] + c, t, c, s) for t in range(m['threads']) for s in range(m['sockets'])
            for c in range(m['cores'])]
    caches = []
    for lv in m['levels']:
        per = n // lv['groups']
        groups = ['( %s )' % ' '.join(str(t * n + g * per + c) for c in range(per) for t in range(m['threads']))
                  for g in range(lv['groups'])]
        size = '%d kB' % lv['kB'] if lv['kB'] % 1000 or m['id'] % 2 else '%d MB' % (lv['kB'] // 1000)
        caches.append('Level:\t\t\t%s\nSize:\t\t\t%s\nCache groups:\t\t%s\n%s' % (
            lv['name'][1:], size, ' '.join(groups), '-' * 80))
    return TOPOLOGY % dict(
        m, name='CPU %d' % m['id'], type='Type %d' % m['id'], caches='\n'.join(caches),
        list='\n'.join('%d\t\t%d\t\t%d\t\t%d\t\t*' % c for c in cpus),
        socketlist='\n'.join('Socket %d:\t\t( %s )' % (s, ' '.join(str(c[0]) for c in cpus if c[3] == s))
                             for s in range(m['sockets'])))


def put(m):
    script('likwid-topology', '#!/bin/sh\ncat <<EOF\n%sEOF\n' % topology(m))
    with open('cpuinfo', 'w') as f:
        f.write('processor\t: 0\nmodel name\t: CPU %d\nprocessor\t: 1\nmodel name\t: CPU %d\n' % (m['id'], m['id']))


def current(model, path):
    import builtins
    import contextlib
    import io
    # the file of this system cannot be replaced, but what opens it can
    real = builtins.open
    builtins.open = lambda name, *args, **kwargs: real(path if name == '/proc/cpuinfo' else name, *args, **kwargs)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return model.current_system(print_diff=True)
    finally:
        builtins.open = real


def readouts(job):
    """What is read from likwid-topology on different machines."""
    from kerncraft.machinemodel import MachineModel
    os.makedirs(job['dir'])
    os.chdir(job['dir'])
    os.environ['PATH'] = os.getcwd() + ':' + os.environ['PATH']
    out = []
    for m, twin in job['machines']:
        reset()
        put(m)
        model = MachineModel()
        model.update(benchmarks=False, machine_state=False, cpuinfo_path='cpuinfo')
        levels = []
        for h in model['memory hierarchy']:
            cpg = h.get('cache per group', {})
            levels.append(dict(
                name=h['level'], kB=int(round(float(h['size per group']) / 1000)) if h['size per group'] else 0,
                groups=h.get('groups', 0), cores=h['cores per group'], threads=h['threads per group'],
                next=cpg.get('load_from', '') if cpg.get('load_from') == cpg.get('store_to') else '?'))
        got = dict(sockets=model['sockets'], cores=model['cores per socket'], threads=model['threads per core'],
                   numa=model['NUMA domains per socket'], percore=model['cores per NUMA domain'], levels=levels)
        # what was filled in is kept, and stays with this description
        filled = MachineModel()
        filled.update(benchmarks=False, machine_state=False, cpuinfo_path='cpuinfo')
        filled['memory hierarchy'][0]['cache per group']['sets'] = 64
        filled['memory hierarchy'][0]['upstream throughput'][1] = ['2D']
        filled.update(benchmarks=False, machine_state=False, overwrite=False, cpuinfo_path='cpuinfo')
        again = MachineModel()
        again.update(benchmarks=False, machine_state=False, cpuinfo_path='cpuinfo')

        def kept(x):
            first = x['memory hierarchy'][0]
            return (first.get('cache per group', {}).get('sets') == 64,
                    list(first.get('upstream throughput', []))[1:2] == [['2D']])
        got['kept'] = (kept(filled) == (True, True) and kept(again) == (False, False)
                       and len(filled['memory hierarchy']) == len(m['levels']) + 1)
        model.dump('m.yml')
        stored = MachineModel('m.yml')
        same = current(stored, 'cpuinfo')
        reset()
        put(twin)
        other = current(stored, 'cpuinfo')
        keys = ('id', 'sockets', 'cores', 'threads', 'numa')
        out.append(dict(ev='readout', machine=m, got=got, same=bool(same), other=bool(other),
                        twin=dict(m, **{k: twin[k] for k in keys})))
    return out


def run(ctx):
    rng = ctx.rng
    # ---- the specification itself, and what it needs ----
    ctx.model('MachineBench', consts=ctx.pick({}, {'Series': 3, 'Stops': 3, 'Edits': 2}))
    for switch in ('Atomic', 'Invalidate'):
        r = ctx.tlc('MachineBench', consts={switch: 'FALSE'}, check=False)
        if r.violated not in ('Loads', 'Right', 'Truthful'):
            from lib.core import MachineryError
            raise MachineryError('specification without %s breaks %r' % (switch, r.violated))
    # ---- histories of the specification, run for real ----
    r = ctx.tlc('MachineBench', consts={'Emit': 'TRUE', 'Stops': ctx.pick(2, 3), 'Edits': ctx.pick(1, 2)},
                workers=4)
    hists = []
    for p in r.prints:
        if p['hist'] not in hists:
            hists.append(p['hist'])
    hists.sort(key=json.dumps)
    want = ctx.pick(44, 500)
    if len(hists) > want:
        short = [h for h in hists if len(h) <= 2]
        hists = short[:want // 3] + rng.sample(hists, want - min(len(short), want // 3))
    jobs = []
    for n, h in enumerate(hists):
        names = ['L1', 'L2', 'L3'][:rng.choice([1, 1, 2] if not ctx.thorough else [1, 2, 3])]
        threads = rng.choice([1, 1, 2])
        cores = rng.choice([1, 2] if threads == 2 or len(names) > 1 else [1, 2, 3])
        hw = dict(cores=cores, threads=threads, levels=[])
        kB = rng.choice([16, 32, 48])
        for name in names:
            hw['levels'].append(dict(name=name, kB=kB, group=rng.choice([1, cores]) if name != 'L1' else 1))
            kB *= rng.choice([4, 8, 25])
        hws = {1: hw}

        def total(x):
            return len([v for v in VARIANTS if v[2] != 'no']) + \
                5 * (len(x['levels']) + 1) * x['threads'] * x['cores'] * 10
        steps = []
        now = hw
        for e in h:
            s = dict(e)
            if e['end'] == 'edited':
                if e['at'] not in hws:
                    other = json.loads(json.dumps(hw))
                    what = rng.choice(['size', 'size', 'cores', 'little'])
                    i = rng.randrange(len(names))
                    if what == 'cores':
                        other['cores'] += 1
                        for lv in other['levels']:
                            if lv['group'] == hw['cores'] and lv['name'] != 'L1':
                                lv['group'] = other['cores']
                    elif what == 'little':
                        other['levels'][i]['kB'] = other['levels'][i]['kB'] * 1004 // 1000
                    else:
                        other['levels'][i]['kB'] = other['levels'][i]['kB'] * rng.choice([2, 3])
                    hws[e['at']] = other
                now = s['hw'] = hws[e['at']]
            else:
                # of four points in the specification
                s['at'] = max(1, min(total(now), total(now) * e['at'] // 4 + rng.randint(-6, 12)))
                s.update(same=rng.random() < 0.6, verbose=rng.choice([0, 0, 1, 2]), gently=rng.random() < 0.5)
            steps.append(s)
        jobs.append(dict(dir=os.path.join(ctx.scratch, 'h%d' % n), hw=hw, steps=steps,
                         initial=rng.choice(['none', 'empty', 'part'])))
    events = []
    ended = {}
    for j, r in zip(jobs, simproc.parallel(jobs, worker)):
        if r is None or 'x' in r:
            from lib.core import MachineryError
            raise MachineryError('worker failed: %s' % (r and r['x']))
        r = r['r']
        ctx.traces += 1
        ctx.case(json.dumps(j['steps']))
        if r.get('failed'):
            ctx.violation('generator-fails', r['failed'], dict(steps=j['steps'], hw=j['hw']))
        for e in r['events']:
            if e['ev'] == 'run':
                ended[e['end']] = ended.get(e['end'], 0) + 1
        events += r['events']
    ctx.extra['runs by how they ended'] = ended
    ctx.require(all(ended.get(k, 0) >= 8 for k in ('finished', 'interrupted', 'killed', 'unwritten')),
                'hardly any run ends as planned: %r' % ended)
    ctx.sample({'history': [dict(end=s['end'], at=s['at']) for s in jobs[0]['steps']], 'machine': jobs[0]['hw']})
    # ---- topologies ----
    machines = []
    for n in range(ctx.pick(48, 400)):
        sockets, threads = rng.choice([1, 1, 2, 4]), rng.choice([1, 2, 4])
        cores = rng.choice([1, 2, 4, 6, 8, 12])
        total = sockets * cores
        levels, kB, groups = [], rng.choice([16, 32, 48]), total
        for name in ['L1', 'L2', 'L3', 'L4'][:rng.choice([1, 2, 3, 3, 4])]:
            levels.append(dict(name=name, kB=kB, groups=groups))
            kB *= rng.choice([4, 8, 10, 25])
            groups = rng.choice([g for g in range(1, groups + 1) if groups % g == 0 and total % g == 0])
        domains = sockets * rng.choice([d for d in (1, 1, 2, 3, 4) if cores % d == 0])
        m = dict(id=n, sockets=sockets, cores=cores, threads=threads, levels=levels,
                 numa=domains if rng.random() < 0.9 else 1)
        twin = json.loads(json.dumps(m))
        what = rng.choice(['nothing', 'id', 'sockets', 'threads', 'cores', 'numa'])
        if what == 'id':
            twin['id'] += 1000
        elif what == 'sockets':
            twin['sockets'] *= 2
            twin['numa'] *= 2
            for lv in twin['levels']:
                lv['groups'] *= 2
        elif what == 'threads':
            twin['threads'] *= 2
        elif what == 'cores':
            twin['cores'] *= 2
        elif what == 'numa':
            twin['numa'] *= 2
            twin['cores'] *= 2
        machines.append((m, twin))
    jobs = [dict(dir=os.path.join(ctx.scratch, 't%d' % i), machines=machines[i::8]) for i in range(8)]
    for r in simproc.parallel(jobs, readouts):
        if r is None or 'x' in r:
            if r and '/kerncraft/machinemodel.py' in r['x']:
                ctx.violation('readout-fails', r['x'][-900:], None)
                continue
            from lib.core import MachineryError
            raise MachineryError('worker failed: %s' % (r and r['x']))
        for e in r['r']:
            ctx.traces += 1
            ctx.case(json.dumps(e['machine']))
            events.append(e)
    ctx.validate('MachineBenchTrace', events, timeout=800, describe=lambda v, ev: (
        v['clause'], '%s: wanted %s in %s' % (v['clause'], v['want'], json.dumps(ev)[:900])))
    ctx.assume('likwid-bench and likwid-topology are replaced by stand-ins; the script describing the state of the '
               'machine is not run')
    ctx.assume('processes are killed while a benchmark runs or while the file is written; the system keeps running')
