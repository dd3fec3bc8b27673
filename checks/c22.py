"""C22: generated code executed against the specification (spec/KernelLang.tla, spec/KernelTrace.tla)."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from checks import cacherig, kernelrig as rig
from checks.common import REPO, quiet
from checks.simproc import parallel

HEADERS = os.path.join(REPO, 'kerncraft', 'headers')
GUARD = 48
SENTINEL = 9973
LIKWID = '''
void likwid_markerInit(void); void likwid_markerClose(void); void likwid_markerRegisterRegion(const char *);
void likwid_markerStartRegion(const char *); void likwid_markerStopRegion(const char *);
#define LIKWID_MARKER_INIT likwid_markerInit()
#define LIKWID_MARKER_CLOSE likwid_markerClose()
#define LIKWID_MARKER_REGISTER(x) likwid_markerRegisterRegion(x)
#define LIKWID_MARKER_START(x) likwid_markerStartRegion(x)
#define LIKWID_MARKER_STOP(x) likwid_markerStopRegion(x)
'''


def simulate(p, env, before, limit=2**21):
    """Whether numbers stay small; what they are is up to the specification."""
    dims = {d['name']: [rig.val(x, env) for x in d['dims']] for d in p['decls']}
    mem = {x: list(v) for x, v in before.items()}

    def at(a, e):
        k = 0
        for x, d in zip(a['ix'], dims[a['n']]):
            k = k * d + rig.val(x, e)
        return k

    def ev(x, e):
        if x['k'] == 'f':
            return x['v']
        if x['k'] == 'a':
            return mem[x['n']][at(x, e)] if x['n'] in dims else e[x['n']]
        if x['k'] == 'u':
            return -ev(x['l'], e)
        r = rig.OPS[x['op']](ev(x['l'], e), ev(x['r'], e))
        if abs(r) > limit:
            raise OverflowError
        return r

    try:
        for e in rig.iterations(p, env):
            for s in p['body']:
                v = ev(s['rhs'], e)
                k = at(s['lhs'], e)
                old = mem[s['lhs']['n']][k]
                v = v if s['op'] == '=' else rig.OPS[s['op'][0]](old, v)
                if abs(v) > limit:
                    return False
                mem[s['lhs']['n']][k] = v
    except OverflowError:
        return False
    return True


def run_cmd(cmd, env=None, timeout=60):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout,
                       universal_newlines=True, errors='replace')
    return r.returncode, r.stdout


def signature(header):
    m = re.search(r'\bkernel\s*\(([^)]*)\)', header)
    return [re.search(r'(\w+)\s*$', a).group(1) for a in m.group(1).split(',')]


def driver(job, names):
    """Calls the kernel for each setting, prints what is in memory."""
    p = job['prog']
    types = {d['name']: d['type'] for d in p['decls']}
    arrays = [d['name'] for d in p['decls'] if d['dims']]
    scalars = [d['name'] for d in p['decls'] if not d['dims']]
    t = ['#include <stdio.h>', '#include <stdlib.h>', '#include "kernel.h"']
    body = []
    for s in job['settings']:
        body.append('{')
        for x, v in s['consts'].items():
            body.append('  long c_%s = %d;' % (x, v))
        if job['big']:
            body.append('  long c_kbig = %s;' % job['big'])
        for x in arrays:
            init = [SENTINEL] * GUARD + s['before'][x] + [SENTINEL] * GUARD
            body.append('  static %s m_%s[] = {%s};' % (types[x], x, ','.join(map(str, init))))
        for x in scalars:
            body.append('  static %s m_%s = %d;' % (types[x], x, s['before'][x][0]))
        args = []
        for x in names:
            if x in arrays:
                args.append('m_%s + %d' % (x, GUARD))
            elif x.endswith('_') and x[:-1] in scalars:
                args.append('&m_%s' % x[:-1])
            else:
                args.append('c_%s' % x)
        body.append('  kernel(%s);' % ', '.join(args))
        body.append('  int outside = 0; double odd = 0;')
        body.append('  printf("{");')
        for x in arrays:
            size = len(s['before'][x])
            body.append('  for(int q = 0; q < %d; q++) outside += (m_%s[q] != %d) + (m_%s[q + %d] != %d);' % (
                GUARD, x, SENTINEL, x, GUARD + size, SENTINEL))
            body.append('  printf("\\"%s\\": [");' % x)
            body.append('  for(int q = 0; q < %d; q++) { double v = (double)m_%s[q + %d]; odd += v != (long)v || '
                        'm_%s[q + %d] != (%s)v; printf("%%s%%ld", q ? ", " : "", (long)v); }' % (
                            size, x, GUARD, x, GUARD, types[x]))
            body.append('  printf("], ");')
        for x in scalars:
            body.append('  printf("\\"%s\\": [%%ld], ", (long)(double)m_%s);' % (x, x))
        body.append('  printf("\\"outside\\": %d}\\n", outside + (odd != 0));')
        body.append('}')
    return '\n'.join(t + ['int main(void) {'] + body + ['return 0; }']) + '\n'


def stub(job, names):
    """Stands in for the kernel when running the main program."""
    p = job['prog']
    types = {d['name']: d['type'] for d in p['decls']}
    arrays = [d['name'] for d in p['decls'] if d['dims']]
    scalars = [d['name'] for d in p['decls'] if not d['dims']]
    consts = [x for x in names if x not in arrays and not (x.endswith('_') and x[:-1] in scalars)]
    t = ['#include <stdio.h>', '#include <string.h>', '#include "likwid.h"', '#include "kernel.h"',
         'size_t __sanitizer_get_allocated_size(const volatile void *);', 'static int kc_seen;']
    for x, n in (('Init', 'init'), ('Close', 'close')):
        t.append('void likwid_marker%s(void) { printf("{\\"e\\": \\"%s\\"}\\n"); }' % (x, n))
    for x, n in (('Register', 'register'), ('Start', 'start'), ('Stop', 'stop')):
        t.append('void likwid_marker%sRegion(const char *r) { printf("{\\"e\\": \\"%s\\", \\"r\\": \\"%%s\\"}\\n", r); }'
                 % (x, n))
    head = open(job['header']).read().strip().rstrip(';')
    t.append(head + ' {')
    t.append('  printf("{\\"e\\": \\"call\\", \\"consts\\": {");')
    for k, x in enumerate(consts):
        t.append('  printf("%s\\"%s\\": %%ld", (long)%s);' % (', ' if k else '', x, x))
    t.append('  printf("}, \\"room\\": {");')
    for k, x in enumerate(arrays):
        t.append('  printf("%s\\"%s\\": %%ld", (long)__sanitizer_get_allocated_size((void*)%s));' % (', ' if k else '', x, x))
    t.append('  printf("}, \\"start\\": {");')
    for k, x in enumerate(arrays):
        t.append('  printf("%s\\"%s\\": %%ld", (long)%s %% 1048576);' % (', ' if k else '', x, x))
    t.append('  printf("}, \\"alias\\": {");')
    for k, x in enumerate(arrays):
        t.append('  printf("%s\\"%s\\": %%d", %s);' % (', ' if k else '', x, ' + '.join(
            '((void*)%s == (void*)%s)' % (x, y) for y in arrays)))
    t.append('  printf("}, \\"set\\": [");')
    for k, x in enumerate(arrays):
        t.append('  printf("%s[\\"%s\\", [");' % (', ' if k else '', x))
        t.append('  if (!kc_seen) { int kc_any = 0; size_t kc_size = __sanitizer_get_allocated_size((void*)%s) / sizeof(*%s);'
                 ' for(size_t kc_q = 0; kc_q < kc_size; kc_q++) { unsigned char *kc_b = (unsigned char*)(%s + kc_q); int kc_same = 1;'
                 ' for(size_t kc_w = 0; kc_w < sizeof(*%s); kc_w++) if (kc_b[kc_w] != 0xbe) kc_same = 0;'
                 ' if (!kc_same) { printf("%%s%%ld", kc_any ? ", " : "", (long)kc_q); kc_any = 1; } } }' % (x, x, x, x))
        t.append('  printf("]]");')
    t.append('  printf("]}\\n"); kc_seen = 1; fflush(stdout);')
    t.append('}')
    return '\n'.join(t) + '\n'


def build(job):
    import kerncraft.kernel as K
    from kerncraft.machinemodel import MachineModel
    tempfile.tempdir = job['dir']
    work = tempfile.mkdtemp()
    try:
        return build_in(job, work, K, MachineModel)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build_in(job, work, K, MachineModel):
    tempfile.tempdir = work
    k = quiet(K.KernelCode, job['code'], machine=quiet(MachineModel, job['machine']), filename=None)
    for x, v in job['settings'][0]['consts'].items():
        k.set_constant(x, v)
    if job['big']:          # not used by the kernel, but given to it
        k.set_constant('kbig', int(job['big']))
    _, l1 = k.get_kernel_header()
    kernel_c, l2 = k.get_kernel_code(openmp=job['openmp'])
    main_c, l3 = k.get_main_code()
    header = os.path.join(os.path.dirname(main_c), 'kernel.h')
    names = signature(open(header).read())
    job = dict(job, header=header)
    out = dict(text=open(kernel_c).read())
    omp = ['-fopenmp'] if job['openmp'] else []
    with open(os.path.join(work, 'likwid.h'), 'w') as f:
        f.write(LIKWID)
    with open(os.path.join(work, 'driver.c'), 'w') as f:
        f.write(driver(job, names))
    base = ['-std=c99', '-w', '-I' + HEADERS, '-I' + os.path.dirname(main_c), '-I' + work, '-D_POSIX_C_SOURCE=200809L']
    cc = job['cc']
    rc, err = run_cmd([cc, job['opt']] + base + omp + [kernel_c, os.path.join(work, 'driver.c'), '-o',
                                                       os.path.join(work, 'k')])
    if rc:
        return dict(out, error='kernel does not compile: ' + err[:1500])
    rc, txt = run_cmd([os.path.join(work, 'k')], env=dict(os.environ, OMP_NUM_THREADS='1'))
    if rc:
        return dict(out, error='kernel fails with %d: %s' % (rc, txt[-500:]))
    out['after'] = [json.loads(l) for l in txt.splitlines()]
    if job['main'] is not None:
        with open(os.path.join(work, 'stub.c'), 'w') as f:
            f.write(stub(job, names))
        # the whole benchmark has to compile and link, and stays within its arrays
        with open(os.path.join(work, 'likwid.c'), 'w') as f:
            f.write('#include "likwid.h"\nvoid likwid_markerInit(void) {} void likwid_markerClose(void) {}\n' + '\n'.join(
                'void likwid_marker%sRegion(const char *r) {}' % x for x in ('Register', 'Start', 'Stop')) + '\n')
        asan = ['-fsanitize=address'] if job['asan'] else []
        rc, err = run_cmd([cc, job['opt']] + base + omp + asan + [
            main_c, kernel_c, os.path.join(HEADERS, 'dummy.c'), os.path.join(work, 'likwid.c'), '-o',
            os.path.join(work, 'full')])
        if rc:
            return dict(out, error='benchmark does not compile: ' + err[:1500])
        if asan:
            for rep, s in job['main']:
                for x, v in s['consts'].items():
                    k.set_constant(x, v)
                rc, txt = run_cmd([os.path.join(work, 'full'), str(rep)] + [str(v) for v in k.constants.values()],
                                  env=dict(os.environ, OMP_NUM_THREADS='2', ASAN_OPTIONS='detect_leaks=0'))
                if rc:
                    return dict(out, error='benchmark fails with %d: %s' % (rc, txt[-2500:]))
        cmd = ['gcc', '-O1', '-fsanitize=address'] + base + omp + [
            main_c, os.path.join(work, 'stub.c'), os.path.join(HEADERS, 'dummy.c'), '-o', os.path.join(work, 'm')]
        rc, err = run_cmd(cmd)
        if rc:
            return dict(out, error='main program does not compile: ' + err[:1500])
        env = dict(os.environ, OMP_NUM_THREADS='1',
                   ASAN_OPTIONS='max_malloc_fill_size=100000000:malloc_fill_byte=190:detect_leaks=0')
        out['main'] = []
        for rep, s in job['main']:
            for x, v in s['consts'].items():
                k.set_constant(x, v)
            rc, txt = run_cmd([os.path.join(work, 'm'), str(rep)] + [str(v) for v in k.constants.values()], env=env)
            if rc:
                return dict(out, error='main program fails with %d: %s' % (rc, txt[-2500:]))
            out['main'].append([json.loads(l) for l in txt.splitlines()])
    return out


def describe(v, ev):
    return (v['clause'], '%s: %s (specification: %s)\nconstants %s\n%s\n%s' % (
        v['clause'], str({k: ev[k] for k in ('before', 'after', 'outside', 'order', 'calls', 'set') if k in ev})[:700],
        v['want'][:300], ev.get('consts'), ev['text'], ev['code'][:900]))


def run(ctx):
    rng = ctx.rng
    ctx.model('MCKernelLang', workers=4)
    machines = []
    for cl in (64, 128):
        f = os.path.join(ctx.scratch, 'machine%d.yml' % cl)
        cacherig.write(f, cacherig.machine_text(cl=cl), cacherig.OLD)
        machines.append((cl, f))
    maker = rig.Maker(rng, execute=True, most=60)
    jobs = []
    while len(jobs) < ctx.pick(170, 1800):
        p = maker.make()
        if p['itype'].startswith('unsigned') and any(
                a['n'] not in [d['name'] for d in p['decls']] for a in rig.reads(p)):
            p['itype'] = 'int'
        settings = []
        for consts in p['envs']:
            sizes = {d['name']: [rig.val(x, consts) for x in d['dims']] for d in p['decls']}
            before = {}
            for x, dims in sizes.items():
                count = 1
                for q in dims:
                    count *= q
                before[x] = [rng.choice([0, 1, 1, 2, -1, 3]) for _ in range(count)]
            if sum(map(len, before.values())) < 3000 and simulate(p, consts, before):
                settings.append(dict(consts=consts, before=before))
        if not settings:
            continue
        cl, f = rng.choice(machines)
        main = [(rng.randint(1, 4), s) for s in settings[:2]] if rng.random() < .5 else None
        top = {'int': 0, 'unsigned int': 2 ** 32}.get(p['itype'], 2 ** 63)
        big = str(rng.randrange(2 ** 31, top)) if top and rng.random() < .4 else ''
        jobs.append(dict(prog=p, big=big, code=rig.Printer(rng).text(p), settings=settings, machine=f, cl=cl, main=main,
                         openmp=rng.random() < .4, cc=rng.choice(['gcc', 'gcc', 'clang']), opt=rng.choice(['-O0', '-O2']),
                         asan=rng.random() < .5, dir=ctx.scratch))
        if jobs[-1]['cc'] == 'clang' and jobs[-1]['openmp']:
            jobs[-1]['cc'] = 'gcc'
    events = []
    executed = mains = 0
    for j, r in zip(jobs, parallel(jobs, build)):
        ctx.case(j['code'])
        if 'r' not in r:
            ctx.violation('failure', 'exception %s for\n%s' % (r.get('x'), j['code']), j)
            continue
        r = r['r']
        if 'error' in r:
            ctx.violation('error', '%s\nfor\n%s\ngenerated:\n%s' % (r['error'], j['code'], r['text']), j)
            continue
        bare = rig.bare(j['prog'])
        for s, after in zip(j['settings'], r['after']):
            outside = after.pop('outside')
            executed += 1
            events.append(dict(what='execution', prog=bare, consts=s['consts'], before=s['before'], after=after,
                               outside=outside, text=r['text'], code=j['code']))
        for (rep, s), log in zip(j['main'] or [], r.get('main', [])):
            mains += 1
            calls = [e for e in log if e['e'] == 'call']
            for e in calls:         # numbers larger than those of the specification
                e['big'] = str(e['consts'].pop('kbig', ''))
            events.append(dict(what='main', prog=bare, consts=s['consts'], repeat=rep, cl=j['cl'],
                               big=j['big'], order=[e['e'] for e in log if e['e'] in ('call', 'start', 'stop')],
                               calls=[{x: c[x] for x in ('consts', 'big', 'room', 'start', 'alias')} for c in calls],
                               set=calls[0]['set'] if calls else [], text=r['text'], code=j['code']))
    ctx.require(executed >= ctx.pick(150, 1500) and mains >= ctx.pick(50, 500),
                'hardly anything was executed: %d, %d' % (executed, mains))
    ctx.extra['executions of generated kernels'] = executed
    ctx.extra['executions of main programs'] = mains
    ctx.traces += len(events)
    if events:
        ctx.sample({k: events[0][k] for k in ('code', 'consts', 'after') if k in events[0]})
    ctx.validate('KernelTrace', events, chunk=60, describe=describe, timeout=800)
