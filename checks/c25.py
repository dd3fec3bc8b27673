"""C25: figures of benchmarks (spec/BenchRun.tla, spec/BenchRunTrace.tla)."""
import io
import json
import math
import os
import re
import stat
import types
from fractions import Fraction

from checks import kernelrig as rig
from checks.c07 import operations
from checks.common import REPO, quiet
from checks.modelrig import big
from checks.simproc import parallel

# answers according to ./plan: ticks per repetitions, jitter, call which fails, clock in MHz, name of the bandwidth
LIKWID = r'''#!/bin/sh
if [ "$1" = "-a" ]; then cat groups; exit 0; fi
read num den jitter fails clock volume bandwidth < plan
read n < count; n=$((n+1)); echo $n > count
group=; cpus=; exe=
while [ $# -gt 0 ]; do
  case "$1" in
    -g) group=$2; shift;;
    -C) cpus=$2; shift;;
    -m) shift; exe=$1; shift; break;;
  esac
  shift
done
reps=${1%.*}
us=$((reps * num / den + n % 3 * jitter))
counting=0; case "$group" in *:*) counting=1;; esac
if [ $n = $fails ]; then failed=1; else failed=0; fi
printf '{"ev": "run", "group": "%s", "cpus": "%s", "exe": "%s", "repsarg": "%s", "rest": "%s", "us": %d, "failed": %d, "counting": %d}\n' \
  "$group" "$cpus" "$exe" "$1" "$*" $us $failed $counting >> calls
[ $failed = 1 ] && exit 3
echo 'TABLE,Group 1 Raw,'
echo "CPU type:,Some CPU,"
echo "CPU clock:,$(($clock/1000)).$(printf %03d $(($clock%1000))) GHz,"
if [ $counting = 1 ]; then
  IFS=,
  for c in $group; do
    case "$c" in
      ZERO*) v=-;;
      *) e=${c%%:*}; v=$((${e#EV} * 7919 % 65521 + reps % 977 + 1));;
    esac
    echo "${c%%:*},${c#*:},$v"
    echo "${c%%:*} $v" >> counters
  done
fi
echo 'TABLE,Group 1 Metric,'
printf 'Runtime (RDTSC) [s],%d.%06d\n' $((us / 1000000)) $((us % 1000000))
echo 'Runtime unhalted [s],0.125'
if [ "$group" = MEM ] && [ $volume = 1 ]; then printf 'Memory data volume [GBytes],%d.75\n' $n; fi
case $bandwidth in
  0) echo "Memory bandwidth [MBytes/s],$n.5";;
  1) echo "Memory BW [MBytes/s],$n.5";;
esac
'''
SPOTS = [('L1', 'loads'), ('L1', 'stores'), ('L1', 'misses'), ('L1', 'evicts'), ('L2', 'loads'), ('L2', 'stores'),
         ('L2', 'misses'), ('L2', 'evicts'), ('L3', 'loads'), ('L3', 'stores'), ('L3', 'misses'), ('L3', 'evicts'),
         ('MEM', 'loads'), ('MEM', 'stores')]
loaded = {}


def bench(job):
    """One benchmark: its runs, and how it ended."""
    from kerncraft.kernel import KernelCode, KernelDescription
    from kerncraft.machinemodel import MachineModel
    from kerncraft.models import Benchmark
    from kerncraft.prefixedunit import PrefixedUnit
    os.makedirs(job['dir'], exist_ok=True)
    os.chdir(job['dir'])
    with open('likwid-perfctr', 'w') as f:
        f.write(LIKWID)
    os.chmod('likwid-perfctr', stat.S_IRWXU)
    if not os.environ['PATH'].startswith(job['dir'] + ':'):
        os.environ['PATH'] = job['dir'] + ':' + os.environ['PATH']
    with open('groups', 'w') as f:
        f.write('Group name\tDescription\n--------\n' + ''.join('%8s\tWhatever %s\n' % (g, g) for g in job['groups']))
    with open('plan', 'w') as f:
        f.write('%(num)d %(den)d %(jitter)d %(fails)d %(clock)d %(volume)d %(bandwidth)d\n' % job)
    with open('count', 'w') as f:
        f.write('0\n')
    for name in ('calls', 'counters'):
        open(name, 'w').close()
    if job['mhz'] not in loaded:
        loaded[job['mhz']] = MachineModel(job['machine'])
    m = loaded[job['mhz']]
    m.current_system = lambda **kw: bool(job['matches'])
    asked = []

    def get_bandwidth(*a, **kw):
        asked.append([a, kw])
        return PrefixedUnit(job['bw'], 'M', 'B/s'), 'copy'
    m.get_bandwidth = get_bandwidth
    names = {}
    for x, (level, what) in enumerate(SPOTS):
        h = [h for h in m['memory hierarchy'] if h['level'] == level][0]
        if x == 0:
            for g in m['memory hierarchy']:
                g['performance counter metrics'] = {}
        names[level, what] = '%s%d' % ('ZERO' if x in job['zeros'] else 'EV', x + 1)
        h['performance counter metrics'][what] = names[level, what] + ':PMC[0-3]'
    m['overlapping model']['performance counter metric'] = 'EV51:PMC[0-3]'
    m['non-overlapping model']['performance counter metric'] = 'EV52:PMC[0-3]'
    if job['code']:
        k = quiet(KernelCode, job['code'], machine=m)
    else:
        k = quiet(KernelDescription, job['description'], machine=m)
    for name, v in job['set']:
        k.set_constant(name, v)
    built = []
    k.build_executable = lambda **kw: built.append(kw) or ('./bench', open(os.devnull))
    args = types.SimpleNamespace(cores=job['cores'], no_phenoecm=bool(job['noecm']), verbose=job['verbose'], iterations=10,
                                 ignore_warnings=bool(job['ignore']), compiler=None, compiler_flags=None)
    end = dict(ev='end', results=0)
    try:
        b = quiet(Benchmark, k, m, args)
        quiet(b.analyze)
        out = io.StringIO()
        quiet(b.report, output_file=out)
        end['results'] = 1
    except SystemExit as e:
        if not e.code:
            return dict(bad='ended with code %r' % e.code)
    calls = []
    with open('calls') as f:
        for line in f:
            c = json.loads(line)
            rest = c.pop('rest').split()
            text = c.pop('repsarg')
            if not re.fullmatch(r'\d+(\.0)?', text):
                return dict(bad='number of repetitions is %r' % text)
            c['reps'], c['args'] = int(text.split('.')[0]), rest[1:]
            calls.append(c)
    if end['results']:
        r = b.results
        end['openmp'] = int(bool(built[-1].get('openmp')))
        end['ecm'] = int(r['ECM'] is not None)
        timed = [n for n, c in enumerate(calls, 1) if not c['counting']][-1]
        end['volume'] = timed * 4 + 3 if job['volume'] and 'MEM' in job['groups'] else -1
        end['got'] = dict(
            tpr=float(r['Runtime (per repetition) [s]']), iter=float(r['Iterations per repetition']),
            itcl=float(r['Iterations per cacheline']), cycl=float(r['Runtime (per cacheline update) [cy/CL]']),
            mflop=float(r['Performance [MFLOP/s]']), mlup=float(r['Performance [MLUP/s]']))
        end['mit'] = float(r['Performance [MIt/s]'])
        v, w = float(r['MEM volume (per repetition) [B]']), float(r['MEM BW [MByte/s]'])
        end['gotvolume'] = 'nan' if math.isnan(v) else v
        end['bandwidth'] = 'nan' if math.isnan(w) else w
        end['wantbandwidth'] = 'nan' if job['bandwidth'] == 2 else timed + .5
        end['report'] = out.getvalue()
        if end['ecm']:
            values = {}
            with open('counters') as f:
                for line in f:
                    e, v = line.split()
                    values.setdefault(e, 0 if v == '-' else int(v))
            end['counters'] = {}
            for level, what in SPOTS:
                end['counters'].setdefault(level, {})[what] = values[names[level, what]]
            end['ol'] = values['EV51']
            end['gottransfers'] = {c: {w: float(x.value) for w, x in d.items()} for c, d in r['data transfers'].items()}
            end['gotmodel'] = {x: float(y) for x, y in r['ECM'].items()}
            end['asked'] = [[float(x) for x in a] + sorted(kw.items()) for a, kw in asked]
    return dict(calls=calls, end=end)


def close(x, want):
    w = Fraction(big(want[0]), big(want[1]))
    return x != 'nan' and math.isfinite(x) and abs(Fraction(x) - w) <= Fraction(1, 10 ** 9) * abs(w)


LINES = [('cycl', r'Runtime \(per cacheline update\): (\S+) cy/CL', 1), ('volume', r'MEM volume \(per repetition\): (\S+) Byte', 1),
         ('mflop', r'Performance: (\S+) MFLOP/s', 1), ('mlup', r'Performance: (\S+) MLUP/s', 1),
         ('mlup', r'Performance: (\S+) MIt/s', 1)]


def run(ctx):
    rng = ctx.rng
    ctx.model('MCBenchRun', timeout=400, consts=ctx.pick({}, {'MaxCost': 200, 'Fine': 100, 'MaxCounted': 3}))
    machines = {}
    for mhz in (2700, 1000, 3333):
        with open(REPO + '/tests/test_files/SandyBridgeEP_E5-2680.yml') as f:
            text, n = re.subn(r'(?m)^clock: .*$', 'clock: %d MHz' % mhz, f.read())
        ctx.require(n == 1, 'no clock in the machine file')
        machines[mhz] = os.path.join(ctx.scratch, 'machine%d.yml' % mhz)
        with open(machines[mhz], 'w') as f:
            f.write(text)
    maker = rig.Maker(rng, most=3000)
    jobs, progs = [], []
    while len(jobs) < ctx.pick(160, 1500):
        p = maker.make()
        env = p['envs'][0]
        written = {d['type'].split()[0] + str('_Complex' in d['type']) for d in p['decls']
                   if d['name'] in {a['n'] for a in rig.writes(p)}}
        names = {d['name'] for d in p['decls']}
        if len(written) != 1 or any(d.get('const') or d.get('init') for d in p['decls']):
            continue
        consts = sorted(env.items())
        rng.shuffle(consts)
        speed = rng.choice([(1, 100), (3, 7), (rng.randint(1, 40), 1), (rng.randint(100, 9000), rng.randint(1, 3)),
                            (rng.randint(10 ** 4, 10 ** 6), 1), (rng.randint(150001, 4 * 10 ** 6), 1), (149999, 1), (150000, 1)])
        x = len(jobs)
        mhz = rng.choice([2700, 1000, 3333])
        drift = rng.random() < .15
        job = dict(dir=os.path.join(ctx.scratch, 'b'), num=speed[0], den=speed[1], jitter=rng.choice([0, 0, 7]),
                   fails=rng.choice([99, 99, 99, 99, 99, 1, 2, 3]), mhz=mhz,
                   clock=int(mhz * (rng.choice([.97, 1.02]) if drift else rng.choice([1, 1, .995, 1.008]))),
                   drift=int(drift), volume=int(rng.random() < .8), bandwidth=rng.choice([0, 0, 1, 1, 2]),
                   groups=rng.choice([['MEM'], ['L2', 'MEM', 'L3'], ['BRANCH', 'MEM'], ['L2', 'CLOCK'], ['MEM_DP', 'L3']]),
                   matches=int(rng.random() < .85), ignore=int(rng.random() < .5), noecm=int(rng.random() < .3),
                   cores=rng.choice([1, 1, 1, 1, 2, 4]), verbose=0, bw=rng.choice([10000, 12345, 40000]),
                   zeros=rng.sample(range(len(SPOTS)), rng.choice([0, 0, 1, 3])), set=consts,
                   machine=machines[mhz], text=rig.Printer(rng, plain=True).text(p),
                   code=None, description=None)
        if rng.random() < .5:
            job['code'] = job['text']
        else:
            job['description'] = rig.description(p, operations(p))
        jobs.append(job)
        progs.append(p)
    for x, j in enumerate(jobs):
        j['dir'] += str(x)
    events, ends, of = [], 0, {}
    keys = ('matches', 'ignore', 'drift', 'noecm', 'cores', 'groups', 'mhz', 'bw')
    for p, j, r in zip(progs, jobs, parallel(jobs, bench)):
        ctx.case((j['text'], str(j['set']), str({k: j[k] for k in keys})))
        told = {k: j[k] for k in keys + ('num', 'den', 'jitter', 'fails', 'volume', 'bandwidth', 'set')}
        if 'r' not in r or 'bad' in r['r']:
            ctx.violation('failure', 'benchmark with %r of\n%s: %s' % (told, j['text'], r.get('x') or r['r']), j)
            continue
        ctx.traces += 1
        r = r['r']
        events.append(dict({k: j[k] for k in keys}, ev='begin', prog=rig.bare(p), consts=dict(p['envs'][0]), exe='./bench', cl=64,
                           thr=[32, 32], args=[str(v) for n, v in sorted(j['set'])]))
        for c in r['calls'] + [r['end']]:
            of[len(events)] = (j, told)
            events.append(c)
        ends += r['end']['results']
    ctx.require(ends > len(jobs) // 4, 'hardly any results: %d' % ends)
    ctx.extra['benchmarks with results'] = ends
    wants = []
    ctx.validate('BenchRunTrace', events, collect=wants, timeout=800, describe=lambda v, ev: (
        v['clause'], '%s: %s (specification: %s), benchmark %r' % (
            v['clause'], {k: x for k, x in ev.items() if k != 'report'}, v['want'], of.get(v['line'], ['', ''])[1])))
    for w in wants:
        e, (j, told) = events[w['line']], of[w['line']]

        def wrong(what, got, want):
            ctx.violation('figure:' + what, '%s is %r, specified: %r; benchmark %r of\n%s' % (what, got, want, told, j['text']), j)

        def compare(what, got, want):
            if not close(got, want):
                wrong(what, got, float(Fraction(big(want[0]), big(want[1]))))
        if 'figures' in w:
            for k, q in w['figures'].items():
                compare(k, e['got'][k], q)
            compare('mit', e['mit'], w['figures']['mlup'])
            if e['volume'] < 0 and e['gotvolume'] != 'nan':
                wrong('volume', e['gotvolume'], 'unknown')
            if e['bandwidth'] != e['wantbandwidth']:
                wrong('bandwidth', e['bandwidth'], e['wantbandwidth'])
            for k, pattern, digits in LINES:
                m = re.findall(pattern, e['report'])
                q = w['figures'].get(k)
                if len(m) != 1 or q and abs(Fraction(m[0]) - Fraction(big(q[0]), big(q[1]))) > Fraction(6, 1000) + (
                        Fraction(big(q[0]), big(q[1])) / 10 ** 12):
                    wrong('reported ' + k, m, q)
        elif 'volume' in w:
            compare('volume', e['gotvolume'], w['volume'])
        else:
            for level, d in w['transfers'].items():
                for k, q in d.items():
                    compare('%s %s' % (level, k), e['gottransfers'][level][k], q)
            for k, q in w['model'].items():
                compare(k, e['gotmodel'][k], q)
            if e['asked'] != [[-1., float(e['counters']['L3']['misses']), float(e['counters']['L3']['evicts']), 1.]]:
                wrong('bandwidth of memory', e['asked'], 'streams %r' % e['counters']['L3'])
    ctx.sample({k: v for k, v in events[-1].items() if k != 'report'})
    ctx.assume('likwid-perfctr is replaced by a stand-in which takes a chosen time per repetition; the executable is not run '
               '(what it computes is the subject of C22)')
