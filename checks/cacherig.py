"""Kernels, machine descriptions and programs for the checks of cached artefacts (C01, C02, C03)."""
import hashlib
import os
import shutil
import sys
import tempfile
import time

from checks.common import REPO, quiet
from checks import simproc

KERNEL = '''double a[M][N];
double b[M][N];
double s;

for(int j=1; j<M-1; ++j) {
    for(int i=1; i<N-1; ++i) {
        b[j][i] = %s;
    }
}
'''
BODIES = ['(a[j][i-1] + a[j][i+1]) * s', '(a[j][i-1] + a[j][i+1] + a[j-1][i] + a[j+1][i]) * s', 'a[j][i] + s',
          's * a[j-1][i]']

MACHINE = '''kerncraft version: %(version)s
model name: %(name)s
model type: test
clock: 2.0 GHz
sockets: 1
cores per socket: 4
threads per core: 1
NUMA domains per socket: 1
cores per NUMA domain: 4
cacheline size: %(cl)d B
isa: x86
in-core model: !!omap
  - OSACA: %(osaca)s
  - LLVM-MCA: -mcpu=sandybridge
FLOPs per cycle:
  SP: {total: 16, ADD: 8, MUL: 8}
  DP: {total: 8, ADD: 4, MUL: 4}
compiler: !!omap
- gcc: %(flags)s
overlapping model:
  ports:
    OSACA: ['0', '1', '5']
    LLVM-MCA: [SBPort0]
  performance counter metric: T_OL
non-overlapping model:
  ports:
    OSACA: [2D, 3D]
    LLVM-MCA: [SBPort23]
  performance counter metric: T_nOL
memory hierarchy:
- level: L1
  cache per group: {sets: %(sets)d, ways: 4, cl_size: %(cl)d, replacement_policy: LRU, write_allocate: true,
    write_back: true, load_from: L2, store_to: L2}
  cores per group: 1
  threads per group: 1
  groups: 4
  upstream throughput: [architecture code analyzer, [2D, 3D]]
  transfers overlap: false
- level: L2
  cache per group: {sets: %(sets2)d, ways: 8, cl_size: %(cl)d, replacement_policy: LRU, write_allocate: true,
    write_back: true}
  cores per group: 4
  threads per group: 4
  groups: 1
  upstream throughput: [32 B/cy, half-duplex]
  transfers overlap: false
- level: MEM
  cores per group: 4
  threads per group: 4
  upstream throughput: [full socket memory bandwidth, half-duplex]
  transfers overlap: false
  size per group: null
benchmarks:
  kernels:
    load:
      read streams: {bytes: 8 B, streams: 1}
      write streams: {bytes: 0 B, streams: 0}
      read+write streams: {bytes: 0 B, streams: 0}
      FLOPs per iteration: 0
    copy:
      read streams: {bytes: 8 B, streams: 1}
      write streams: {bytes: 8 B, streams: 1}
      read+write streams: {bytes: 0 B, streams: 0}
      FLOPs per iteration: 0
  measurements:
    L1: {1: {threads per core: 1, cores: [1, 2, 3, 4], results: {load: [90 GB/s, 180 GB/s, 270 GB/s, 360 GB/s],
        copy: [80 GB/s, 160 GB/s, 240 GB/s, 320 GB/s]}}}
    L2: {1: {threads per core: 1, cores: [1, 2, 3, 4], results: {load: [50 GB/s, 100 GB/s, 150 GB/s, 200 GB/s],
        copy: [40 GB/s, 80 GB/s, 120 GB/s, 160 GB/s]}}}
    MEM: {1: {threads per core: 1, cores: [1, 2, 3, 4], results: {load: [%(bw)d GB/s, 17 GB/s, 19 GB/s, 20 GB/s],
        copy: [7 GB/s, 12 GB/s, 13 GB/s, 14 GB/s]}}}
'''
OLD = time.time() - 5000


def machine_text(**kw):
    import kerncraft
    from kerncraft import __version__
    d = dict(version=__version__, name='Test CPU', cl=64, osaca='SNB', flags='-O3', sets=8, sets2=16, bw=10)
    d.update(kw)
    return MACHINE % d


def kernel_text(n=0, pre=''):
    return pre + KERNEL % BODIES[n % len(BODIES)]


def write(path, text, mtime=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)
    if mtime is not None:
        os.utime(path, (mtime, mtime))


def world(root, kernel=0, machine=None):
    """A directory with a kernel and a machine description, both old."""
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    write(os.path.join(root, 'k.c'), kernel_text(kernel), OLD)
    write(os.path.join(root, 'machine.yml'), machine_text(**(machine or {})), OLD)
    return root


CONSTS = {'M': 10, 'N': 24}
REPORTS = {'ecm': (['ECM'], '-P', 'LC'), 'ecmdata': (['ECMData'], '-P', 'SIM'),
           'roofline': (['RooflineASM', 'RooflineFLOP'], '-P', 'SIM'), 'lcs': (['LC'],)}


PORTS = {'0': 6.0, '1': 4.0, '5': 3.0, '2D': 4.0, '3D': 5.0, 'SBPort0': 6.0, 'SBPort23': 5.0}


def stand_in(incore_model, rig):
    """Replace the in-core analysers by one that tells what it is given."""
    for tool in ('osaca_analyse_instrumented_assembly', 'llvm_mca_analyse_instrumented_assembly',
                 'iaca_analyse_instrumented_binary'):
        def analyse(name, *a, tool=tool, **kw):
            a = [x for x in a if isinstance(x, (str, int))]
            seen = rig.use(name)
            return {'output': '%s %s %r' % (tool, seen, a), 'throughput': 4.0 + int(seen[:3], 16) / 256, 'uops': 7,
                    'port cycles': dict(PORTS), 'parameter': repr(a), 'lcd': 1.0, 'cp_latency': 3.0}
        setattr(incore_model, tool, analyse)


class Prog(object):
    """One kerncraft run, stated as the calls the models make, returning all that was produced."""

    def __init__(self, root, kind, consts=None, cores=1, keep=True, machine='machine.yml', kernel='k.c',
                 block='auto', increment='auto', model=None, args=None, child=None, fail=0, compiler=None,
                 flags=None):
        self.__dict__.update(locals())

    def __call__(self, child=None):
        from kerncraft.machinemodel import MachineModel
        from kerncraft.kernel import KernelCode
        self.child = child
        if child is not None:
            child.fail_compile = self.fail
        os.environ.update(LIKWID_INCLUDE='-I/nowhere', LIKWID_LIB='-L/nowhere')
        tmp = os.path.join(self.root, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        tempfile.tempdir = tmp
        if self.kind in REPORTS:
            return self.command_line(*REPORTS[self.kind])
        path = os.path.join(self.root, self.kernel)
        args = self.args
        if self.compiler or self.flags:
            import types
            args = types.SimpleNamespace(compiler=self.compiler, compiler_flags=self.flags)
        machine = MachineModel(os.path.join(self.root, self.machine), args=args)
        with open(path) as f:
            code = f.read()
        k = KernelCode(code, machine, filename=path, keep_intermediates=self.keep)
        for n, v in (self.consts or CONSTS).items():
            k.set_constant(n, v)
        out = {}
        for kind in self.kind.split('+'):
            out[kind] = getattr(self, 'do_' + kind)(k, machine)
        return out

    def use(self, path):
        if self.child is not None:
            return self.child.use(path)
        with open(path, 'rb') as f:
            d = f.read()
        return hashlib.sha256(d).hexdigest()[:16] + ':%d' % len(d)

    def file(self, r):
        path, lock = r
        h = self.use(path)
        lock.close()
        return h

    def command_line(self, models, *more):
        import io
        from kerncraft import kerncraft, incore_model
        stand_in(incore_model, self)
        argv = ['-m', os.path.join(self.root, self.machine), '-c', str(self.cores), '-vv',
                '--asm-block', str(self.block), '--pointer-increment', str(self.increment)]
        for m in models:
            argv += ['-p', m]
        for n, v in sorted((self.consts or CONSTS).items()):
            if n in CONSTS:
                argv += ['-D', n, str(v)]
        for name, v in (('--compiler', self.compiler), ('--compiler-flags', self.flags), ('-i', self.model)):
            if v:
                argv += [name + '=' + v if name.startswith('--') else name] + ([] if name.startswith('--') else [v])
        if not self.keep:
            argv.append('--clean-intermediates')
        parser = kerncraft.create_parser()
        args = parser.parse_args(argv + list(more) + [os.path.join(self.root, self.kernel)])
        kerncraft.check_arguments(args, parser)
        out = io.StringIO()
        kerncraft.run(parser, args, output_file=out)
        lines = [l for l in out.getvalue().split('\n') if self.root not in l]
        return {self.kind: '\n'.join(lines)}

    def do_header(self, k, m):
        name, lock = k.get_kernel_header()
        lock.close()
        return name

    def do_code(self, k, m):
        return self.file(k.get_kernel_code())

    def do_ompcode(self, k, m):
        return self.file(k.get_kernel_code(openmp=True))

    def do_main(self, k, m):
        return self.file(k.get_main_code())

    def do_asm(self, k, m):
        return self.file(k.compile_kernel(assembly=True))

    def do_obj(self, k, m):
        return self.file(k.compile_kernel())

    def do_exe(self, k, m):
        return self.file(k.build_executable())

    def do_ompexe(self, k, m):
        return self.file(k.build_executable(openmp=True))

    def do_incore(self, k, m):
        from kerncraft import incore_model
        stand_in(incore_model, self)
        r, inc = k.incore_analysis(asm_block=self.block, pointer_increment=self.increment, model=self.model)
        return [{x: r[x] for x in sorted(r)}, inc]

    def predictor(self, cls, k, m):
        p = cls(k, m, cores=self.cores)
        plain = lambda x: [('nan' if v != v else round(float(v), 9)) if isinstance(v, (int, float)) or hasattr(
            v, '__float__') else repr(v) for v in x]
        return [plain(p.get_loads()), plain(p.get_hits()), plain(p.get_misses()), plain(p.get_stores()),
                plain(p.get_evicts())]

    def do_lc(self, k, m):
        from kerncraft.cacheprediction import LayerConditionPredictor as P
        return self.predictor(P, k, m)

    def do_sim(self, k, m):
        from kerncraft.cacheprediction import CacheSimulationPredictor as P
        return self.predictor(P, k, m)


MEMO = {}


def install_memo():
    """Marking takes seconds; its (real) outcome for the canned assembly is looked up instead."""
    from kerncraft import incore_model
    import io
    real = incore_model.asm_instrumentation

    def marking(input_file, output_file, *a, **kw):
        text = input_file.read()
        head, _, rest = text.partition('\n')
        if not head.startswith('# ') or rest != simproc.ASM:
            return real(io.StringIO(text), output_file, *a, **kw)
        key = repr((a, sorted(kw.items())))
        if key not in MEMO:
            out = io.StringIO()
            block, inc = real(io.StringIO(rest), out, *a, **kw)
            MEMO[key] = (None, inc, out.getvalue())
        block, inc, marked = MEMO[key]
        output_file.write(head + '\n' + marked)
        return block, inc
    incore_model.asm_instrumentation = marking


def alone(prog_of, work, **kw):
    """Result of a run alone from an empty cache (in a process of its own, same stand-ins)."""
    sim = simproc.Simulation(work)
    sim.spawn(prog_of)
    return sim.run(lambda ready, s: ready[0])[0]


def prepare(ctx, blocks=('auto',), increments=('auto',)):
    """Load everything before forking."""
    import io
    import kerncraft.kernel  # noqa
    import kerncraft.cacheprediction  # noqa
    from kerncraft import incore_model
    install_memo()
    for block in blocks:
        for inc in increments:
            quiet(incore_model.asm_instrumentation, io.StringIO('# x\n' + simproc.ASM), io.StringIO(),
                  block_selection=block, pointer_increment=inc, isa='x86')


from lib.core import MachineryError  # noqa
