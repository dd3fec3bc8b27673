KP = 'kerncraft/kernel.py'
CP = 'kerncraft/cacheprediction.py'
MM = 'kerncraft/machinemodel.py'
IC = 'kerncraft/incore_model.py'
CLI = 'kerncraft/kerncraft.py'
ECM = 'kerncraft/models/ecm.py'
RL = 'kerncraft/models/roofline.py'
BM = 'kerncraft/models/benchmark.py'

prop('C01', 'Concurrent runs never use or clobber an artefact that is being written',
     'When several kerncraft processes work on the same kernel at the same time, no process ever reads or returns a cached intermediate artefact (generated source, assembly, object, marked assembly, executable, stored analysis) that another process is still writing, and no two processes write the same artefact at the same time. Every process finishes, and its result is the one it would have produced alone.',
     ['schedules'],
     'every interleaving of the file-system and lock operations of concurrent runs sharing one kernel directory',
     'The tests run one process at a time; the races between checking for, locking and writing an artefact need particular interleavings.',
     [KP, IC, CP],
     [('acquire-check-upgrade locking of intermediate files', 'kerncraft/kernel.py: KernelCode._get_intermediate_file'),
      ('stored analyses', 'kerncraft/kernel.py: @intermediate users; kerncraft/incore_model.py, kerncraft/cacheprediction.py')],
     observe=['lock, open, write and close operations on files in the kernel cache directory', 'values returned by concurrent runs'],
     technique='TLA+ model of the lock protocol checked with TLC; its schedules replayed into real processes',
     note='All interleavings of the modelled protocol for up to 3 processes; a schedule set generated by TLC is replayed against the real code with lock/file operations gated.')

prop('C02', 'Cached intermediate results never change what an analysis reports',
     'Whatever earlier analyses left in the cache next to a kernel, an analysis reports exactly what it would report with an empty cache. This holds for every sequence of runs that differ in the kernel, its constants, the machine description, the number of cores, the cache predictor, the compiler and its flags, the chosen assembly block and the pointer increment.',
     ['histories', 'configurations'],
     'every history of analyses sharing a kernel cache directory',
     'Tests start from an empty cache and never compare a warm run against a cold one across differing configurations.',
     [KP, IC, CP],
     [('cache file naming by hash of inputs', 'kerncraft/kernel.py: _get_intermediate_location and its callers'),
      ('stored layer-condition and simulation analyses', 'kerncraft/cacheprediction.py'),
      ('stored in-core analyses', 'kerncraft/kernel.py / kerncraft/incore_model.py')],
     observe=['predictor results', 'in-core results', 'model reports'],
     technique='TLA+ model of a keyed artefact store; TLC-generated run histories replayed, warm vs. cold',
     note='Histories generated by TLC (every ordered pair of configurations plus sampled longer ones) are executed with a shared cache and compared with cold runs.')

prop('C03', 'Stale or partially written artefacts are never used',
     'After the kernel source or the machine description has changed, or after an earlier run was killed at any point while writing an intermediate artefact, a later run yields the same results as a run from an empty cache. It neither uses the stale or partial artefact nor fails because of it.',
     ['crash_points', 'histories'],
     'every point at which a writer can be killed, and every order of source/machine edits and runs',
     'Tests never kill a writer nor edit a source between two runs.',
     [KP, CP, IC],
     [('dependency timestamps and rewrite of outdated artefacts', 'kerncraft/kernel.py: KernelCode._get_intermediate_file')],
     observe=['results of the run after the crash or edit'],
     technique='TLA+ crash model checked with TLC; crash points enumerated against the real code',
     note='Every write to an artefact is a crash point; the process is stopped there and the follow-up run compared with a cold run.')

prop('C04', 'Iteration numbers and loop indices correspond one to one in program order',
     'For every loop nest, iteration numbers 0..N-1 enumerate exactly the loop index tuples the C loops produce, in the order the C program executes them, and both conversions are inverse to each other. The reported total and per-loop iteration counts equal the number of iterations executed.',
     ['inputs', 'programs'],
     'every nest depth, start, stop and step (including steps that do not divide the range) and every iteration',
     'Tests look at step-1 nests with a handful of sample iterations.',
     [KP],
     [('iteration arithmetic', 'kerncraft/kernel.py: Kernel.global_iterator, global_iterator_to_indices, indices_to_global_iterator, max_global_iteration, iteration_length, get_loop_stack')],
     observe=['iteration counts', 'index tuples', 'iteration numbers'],
     technique='TLA+ loop-nest interpreter; every behaviour TLC enumerates is replayed into the conversions',
     note='Exhaustive over nests up to depth 3 with small bounds; seeded larger nests.')

prop('C05', 'Memory addresses of accesses match the array layout of the kernel',
     'For every kernel, each array occupies its own contiguous region, regions do not overlap, and the address computed for an access in any iteration is the address of the element the C statement touches in row-major order. Every source and destination access of every iteration appears exactly once, with reads before writes.',
     ['programs', 'inputs'],
     'every kernel in the supported C subset, every iteration and every element size',
     'Tests pin the offsets of a few kernels with fixed sizes.',
     [KP],
     [('address compilation', 'kerncraft/kernel.py: Kernel.compile_global_offsets, compile_sympy_accesses, compile_relative_distances, array_sizes, access_to_sympy')],
     observe=['offset streams per iteration', 'array sizes'],
     technique='TLA+ interpreter of affine loop nests over a memory map; recorded address streams validated against it',
     note='Kernels generated from a grammar; every recorded address is recomputed by the specification.')

prop('C06', 'Results depend only on the current constants, not on how they were set',
     'After any sequence of setting, overwriting and clearing constants, and of analyses in between, every query on a kernel answers exactly as a freshly built kernel with the same final constants would.',
     ['histories'],
     'every interleaving of constant definitions, clears and queries',
     'Tests set constants once before querying.',
     [KP],
     [('constant substitution and its memoisation', 'kerncraft/kernel.py: Kernel.set_constant, clear_state, subs_consts')],
     observe=['loop bounds, array sizes, offsets, flop counts, iteration counts after each step'],
     technique='TLA+ model of the constants store; TLC-enumerated histories replayed',
     note='All histories up to a bounded length over two constants.')

prop('C07', 'The parsed kernel matches the C source',
     'For every kernel in the supported C subset, the extracted loops (index, start, stop, step), arrays and scalars, read and write accesses, data type and operation counts are those of the C code. A kernel described directly and the same kernel parsed from code give the same results, and code outside the subset is rejected rather than misread.',
     ['programs'],
     'every program of the supported subset',
     'Tests pin the parse of about ten kernels.',
     [KP],
     [('AST walk', 'kerncraft/kernel.py: KernelCode._p_for, _p_assignment, _p_sources, conv_ast_to_sym'),
      ('declarative kernels', 'kerncraft/kernel.py: KernelDescription')],
     observe=['loop stack, sources, destinations, variables, flop counts, data type'],
     technique='TLA+ grammar and denotation of kernels; TLC-derived programs rendered to C, parsed, compared',
     note='Programs drawn from the specification grammar; the denotation is computed by the specification.')

prop('C08', 'Source cleaning removes only comments, macros and pragmas, keeping line numbers',
     'For every source text, cleaning removes exactly the requested comments, preprocessor lines and pragmas, leaves every other character unchanged and in order, and keeps every remaining character on its original line. It terminates for every text.',
     ['inputs'],
     'every sequence of code, comment openers/closers, quotes, directives and newlines',
     'There is no test of the cleaner beyond one pragma kernel.',
     ['kerncraft/pycparser_utils.py'],
     [('comment/macro/pragma scanner', 'kerncraft/pycparser_utils.py: clean_code')],
     observe=['returned text'],
     technique='TLA+ character automaton; all token strings up to a bound enumerated by TLC and replayed',
     note='Exhaustive over strings of tokens up to a bounded length; seeded longer ones.')

prop('C09', 'Layer conditions decide hits and misses soundly per cache level',
     'For every kernel with affine accesses and every cache size, an access is predicted as a hit in a level exactly if the layer condition that captures its reuse fits into that cache, each access is either hit or miss in each level, and misses never increase when a cache grows. Traffic reported per level counts each missed cache line once for loads and each written line once for evicts.',
     ['programs', 'configurations'],
     'every access pattern, size and cache capacity',
     'Tests compare a few stencils at a few sizes.',
     [CP, 'kerncraft/models/layer_condition.py'],
     [('layer conditions', 'kerncraft/cacheprediction.py: LayerConditionPredictor')],
     observe=['loads, misses, evicts, hits per level'],
     technique='TLA+ specification of layer-condition reuse; recorded predictions validated by TLC',
     note='Generated stencils and cache sizes; every prediction recomputed by the specification.')

prop('C10', 'The cache simulation predictor measures the steady state of the kernel',
     'For every kernel, the loads and stores handed to the cache simulator are the accesses of consecutive iterations in program order, warm-up covers the caches before anything is counted, and counted iterations make up whole cache lines. Reported misses, hits and evicts per cache line are the simulator counts of that measured section divided by the number of cache lines of work.',
     ['programs', 'configurations'],
     'every kernel, size and cache configuration',
     'Tests compare two kernels with fixed numbers.',
     [CP, MM],
     [('simulation driver', 'kerncraft/cacheprediction.py: CacheSimulationPredictor')],
     observe=['address stream given to the simulator', 'reported traffic'],
     technique='TLA+ model of warm-up/measure phases and an LRU hierarchy; recorded simulator call traces validated',
     note='The simulator calls are recorded by a wrapper and validated against the specification.')

prop('C12', 'The ECM prediction composes in-core and transfer times correctly',
     'For every set of in-core times and per-level transfer times the predicted time is the composition the machine description asks for: never below the slowest component, monotone in each contribution, and exact for overlapping and non-overlapping parts. Transfer time per level equals traffic divided by the documented or measured bandwidth, and scaling over cores follows the documented bus utilisation: it starts at the single-core time, is never better than linear, never worse with more cores, and never beyond the memory-bound limit, in any of the units offered.',
     ['inputs', 'configurations'],
     'every combination of component times, core counts, units and machine descriptions',
     'Tests pin ECM numbers of two kernels on one machine.',
     [ECM],
     [('ECM composition and scaling', 'kerncraft/models/ecm.py: ECMData, ECMCPU, ECM')],
     observe=['results of the models and their reports'],
     technique='TLA+ rational specification of ECM; recorded component values validated by TLC',
     note='Component times enumerated by TLC and injected; results recomputed with exact rationals.')

prop('C13', 'The Roofline prediction is the minimum over all bottlenecks',
     'For every kernel and machine description the Roofline model reports the smallest of the CPU peak (or in-core) limit and the bandwidth limits of all cache and memory levels, names the level that causes it, and uses arithmetic intensity, element type and core count consistently. Converting the result between units keeps its meaning.',
     ['inputs', 'configurations'],
     'every kernel, machine description, core count and unit',
     'Tests pin two kernels on one machine.',
     [RL],
     [('Roofline bottleneck search', 'kerncraft/models/roofline.py: Roofline, RooflineFLOP, RooflineASM')],
     observe=['model results and report'],
     technique='TLA+ rational specification of Roofline; recorded results validated by TLC',
     note='Traffic, bandwidth and peak values drawn per seed; expected bottleneck computed by the specification.')

prop('C14', 'Quantities with metric prefixes keep their value in every operation',
     'Parsing, printing, rescaling, adding, subtracting, multiplying, dividing, comparing and serialising a quantity with a metric prefix and unit always preserves the represented base value. Every prefix stands for its decimal factor, equal quantities compare equal whatever their prefix, and combining incompatible units is rejected.',
     ['inputs'],
     'every prefix, unit and value, and every chain of operations',
     'The class has no tests of its own.',
     ['kerncraft/prefixedunit.py'],
     [('prefix table and operators', 'kerncraft/prefixedunit.py: PrefixedUnit')],
     observe=['values, prefixes and units of results'],
     technique='TLA+ decimal-scaled model of quantities; recorded operation histories validated by TLC',
     note='All prefix pairs exhaustively, seeded values and operation chains.')

prop('C15', 'Bandwidth selection picks the best matching benchmark',
     'For every traffic pattern, level, core and thread count, the bandwidth used is that of the benchmark whose read/write stream mix is closest to the pattern among those measured, at the requested number of cores and threads. A request that has no measurement is reported as such and never answered with the value of another configuration.',
     ['inputs', 'configurations'],
     'every machine description and every mix of read, write and read-write streams',
     'Tests use one machine file and two kernels.',
     [MM],
     [('bandwidth lookup', 'kerncraft/machinemodel.py: MachineModel.get_bandwidth')],
     observe=['returned bandwidth and benchmark name'],
     technique='TLA+ specification of the selection; generated machine descriptions and queries validated by TLC',
     note='Exhaustive over small stream mixes and sets of benchmark kernels.')

prop('C16', 'Counter measurements cover every requested event without register conflicts',
     'For every set of requested performance counter events, the planned measurement runs together measure each event exactly once, every event sits in a register that can hold it, and no run uses a register twice. Planning terminates for every request, and metric values are computed from the counters they name.',
     ['inputs'],
     'every set of events, register options and metric formulas',
     'Tests compare a single plan.',
     [BM, MM, 'kerncraft/models/benchmark.py'],
     [('run planning', 'kerncraft/models/benchmark.py: build_minimal_runs, register_options, group_iterator'),
      ('metric formulas', 'kerncraft/machinemodel.py: MachineModel.parse_perfmetric')],
     observe=['planned runs', 'event strings', 'metric values'],
     technique='TLA+ scheduler model; TLC-enumerated requests replayed, plans validated',
     note='All small requests enumerated; plans validated by the specification.')

prop('C17', 'Counter and register notations are read and written consistently',
     'For every counter notation, the set of registers it denotes, the event, register and parameter it is split into, and the string it is written back to describe the same counter. Malformed notations are rejected.',
     ['inputs'],
     'every string of the counter notation',
     'Tests try a few notations.',
     [BM, MM],
     [('notation parsers', 'kerncraft/models/benchmark.py: group_iterator, register_options, eventstr; kerncraft/machinemodel.py: parse_perfctr_event')],
     observe=['parsed events', 'expanded register lists', 'event strings'],
     technique='TLA+ grammar of the notation; all sentences up to a bound replayed',
     note='Exhaustive over bounded notations.')

prop('C18', 'Command line definitions expand to exactly the requested runs and results',
     'For every set of constant definitions on the command line, the analysis runs exactly once for each distinct combination of requested values, ranges include both end points and the requested number of steps, and invalid definitions are rejected. Stored results of earlier invocations are kept, and each result is filed under the kernel, model, machine and constants that produced it.',
     ['inputs', 'histories'],
     'every list of definitions and every sequence of invocations sharing a result store',
     'Tests run single invocations with one or two definitions.',
     [CLI],
     [('definition parsing and expansion', 'kerncraft/kerncraft.py: AppendStringRange, run, create_parser'),
      ('result store', 'kerncraft/kerncraft.py: run')],
     observe=['sequence of analysed combinations', 'contents of the result store'],
     technique='TLA+ model of the command line and result store; TLC-generated invocations replayed',
     note='Small definition sets exhaustively, invocation histories sampled.')

prop('C19', 'Interval sets behave as sets of integers',
     'For every collection of ranges the interval set holds exactly the integers covered by at least one range, as sorted, non-touching ranges; size, membership, equality and union agree with that set. No operation changes its operands or the data passed in.',
     ['inputs', 'histories'],
     'every list of ranges and every history of operations on several sets',
     'Tests try pairs of ranges; chains of overlaps and sharing between objects need longer inputs and histories.',
     ['kerncraft/intervals.py'],
     [('normalisation', 'kerncraft/intervals.py: Intervals.__init__, __and__')],
     observe=['ranges, size and membership after every call'],
     technique='TLA+ model of the normalisation, exhaustive in TLC and replayed; recorded histories validated',
     note='Exhaustive for up to 3 ranges over small end points; seeded call histories beyond.')

prop('C20', 'Merging result stores keeps every result',
     'Merging any number of result stores yields a store that holds every entry of every input at its place, with later inputs taking precedence where both hold a result for the same entry, and changes none of the inputs.',
     ['inputs', 'histories'],
     'every sequence of nested result stores',
     'The merge tool has no tests.',
     ['kerncraft/picklemerge.py'],
     [('recursive merge', 'kerncraft/picklemerge.py: update, main')],
     observe=['merged store', 'input stores'],
     technique='TLA+ model of nested stores; all small stores enumerated by TLC and replayed',
     note='Exhaustive over bounded nesting depth and keys.')

prop('C21', 'Marking assembly keeps the code and finds the true pointer increment',
     'For every assembly listing and every choice of block, marking inserts only the markers around exactly the chosen block and keeps all instructions and their order. The pointer increment determined for a block equals the change of the addressing register per iteration whenever one is reported.',
     ['programs'],
     'every assembly block of the supported instruction sets',
     'Tests use two fixed listings.',
     [IC],
     [('block search and marking', 'kerncraft/incore_model.py: ISA.find_asm_blocks, get_pointer_increment, select_best_block, asm_instrumentation')],
     observe=['marked listing', 'returned increment'],
     technique='TLA+ register machine for straight-line blocks; generated blocks replayed and marked output validated',
     note='Blocks generated from a small instruction grammar for x86-64 and AArch64.')

prop('C22', 'Generated benchmark code computes the same kernel',
     'For every kernel, the C code generated for compilation and benchmarking performs the same memory accesses in the same order as the original kernel, for every setting of its constants. Array declarations, sizes and index expressions agree with the original source, and every generated file compiles.',
     ['programs'],
     'every kernel of the supported subset and every setting of constants',
     'Tests compile a few kernels and never execute them.',
     [KP],
     [('code generation', 'kerncraft/kernel.py: KernelCode.get_kernel_code, get_main_code, get_kernel_loop_nest and helpers')],
     observe=['final contents of arrays after executing the generated code'],
     technique='TLA+ loop-nest interpreter as the oracle for executed generated code',
     note='Generated kernels are compiled, run on tagged data and compared with the state the specification computes.')

prop('C23', 'Machine descriptions are isolated and history-independent',
     'For every sequence of loading, querying and simulating with machine descriptions, each query answers as on a freshly loaded description: cache hierarchies reflect the requested number of cores, descriptions never influence one another, and a description of an unsupported version is rejected. Writing a description out and loading it again gives the same description.',
     ['histories', 'configurations'],
     'every sequence of operations on one or several machine descriptions',
     'Tests load one machine file once.',
     [MM],
     [('machine model', 'kerncraft/machinemodel.py: MachineModel')],
     observe=['returned hierarchies, sizes, bandwidths and identifiers'],
     technique='TLA+ model of the description store; TLC-enumerated call histories replayed against fresh instances',
     note='All histories up to a bounded length over two descriptions and core counts.')

prop('C24', 'Generated machine files describe what was measured and survive interruption',
     'For every way of benchmarking a machine into a description - from scratch, updating an existing file, after a changed setting, and after any number of interruptions, kills or failed writes - the machine file on disk is at every moment a complete, loadable description; every bandwidth in it is the result of running the benchmark it is filed under (kernel, level, cores, threads, size of the working set) on this machine, nothing that was measured is lost when benchmarking is resumed, and entries that were already known are overwritten only when asked for. The topology described is the one the hardware reports.',
     ['histories', 'crash points', 'configurations'],
     'every sequence of benchmarking runs and every point at which one of them is interrupted',
     'Tests never run the generator, and none interrupts it.',
     [MM],
     [('generation', 'kerncraft/machinemodel.py: MachineModel.update, _update_benchmarks, dump, main (likwid_bench_auto)'),
      ('readouts', 'kerncraft/machinemodel.py: get_machine_readouts, get_memory_hierarchy, measure_bw, find_fastest_bench_kernel')],
     observe=['machine file after every run, interruption or failed write', 'benchmarks started and what is reported from them'],
     technique='TLA+ model of the generator with crashes, TLC-enumerated histories executed against stand-ins of likwid, traces validated',
     note='The likwid tools are replaced by stand-ins which record what they were asked for and answer with distinguishable numbers.')

prop('C25', 'Benchmark figures describe the measured run',
     'For every kernel, problem size, machine description and duration of a repetition, the Benchmark model runs the kernel with the given constants for long enough, ends, and reports figures of the run it measured: runtime per repetition and per cache line, performance in FLOP/s and iterations, memory volume and bandwidth and - if asked for - data transfers and the phenomenological ECM terms are the measured values divided by the work that was done: the iterations the loops execute times the repetitions of that run. A run at another clock than that of the machine description is not taken for granted.',
     ['inputs', 'histories', 'configurations'],
     'every kernel, problem size, duration of a repetition, resolution of the clock, counter value and machine description',
     'Benchmarks need likwid; no test runs one.',
     ['kerncraft/models/benchmark.py', KP],
     [('repetition loop and derived figures', 'kerncraft/models/benchmark.py: Benchmark.analyze, perfctr, report'),
      ('work per repetition', 'kerncraft/kernel.py: Kernel.iteration_length, bytes_per_iteration')],
     observe=['calls of likwid-perfctr', 'results and report of the model'],
     technique='TLA+ model of the repetition loop and rational specification of the figures; recorded benchmarks validated by TLC',
     note='likwid-perfctr is replaced by a stand-in with drawn costs, resolutions and counters.')
