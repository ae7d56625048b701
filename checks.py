"""Table of binaries and checks."""

COMBOS = {
    "f32": [0], "float": [0, 1, 2, 3], "int": list(range(4, 22)), "all": list(range(22)),
}
NUM_COMBOS = 22


def inst():
    return [("inst.cc", ("-DVF_COMBO=%d" % i,)) for i in range(NUM_COMBOS)]


BASE = ["vf.cc", "problem.cc"]

TARGETS = {}


def target(name, variant, sources, **kw):
    TARGETS[name] = dict(variant=variant, sources=list(sources), **kw)


REFBASE = BASE + [(f, o + ("-DVF_REFERENCE",)) for f, o in inst()]
target("ref-plain", "plain", ["h_ref.cc"] + REFBASE)
target("ref-asan", "asan", ["h_ref.cc"] + REFBASE)
target("num-plain", "plain", ["h_num.cc"] + BASE + inst())

WRAP = ["_ZN3ruy21PreparePackedMatricesEPNS_3CtxEPNS_11TrMulParamsE", "_ZN3ruy5TrMulEPNS_3CtxEPNS_11TrMulParamsE"]
WBASE = BASE + ["wrap.cc"]
target("conc-plain", "plain", ["h_conc.cc"] + WBASE + inst(), wrap=WRAP)

SYSWRAP = ["_ZN3ruy6detail18SystemAlignedAllocEl", "_ZN3ruy6detail17SystemAlignedFreeEPv"]
ABASE = WBASE + ["sysalloc.cc"]
target("mem-plain", "plain", ["h_mem.cc"] + ABASE + inst(), wrap=WRAP + SYSWRAP)
target("mem-asan", "asan", ["h_mem.cc"] + ABASE + inst(), wrap=WRAP + SYSWRAP)
target("cache-plain", "plain", ["h_cache.cc"] + ABASE + inst(), wrap=WRAP + SYSWRAP)
target("cache-asan", "asan", ["h_cache.cc"] + ABASE + inst(), wrap=WRAP + SYSWRAP)
target("life-plain", "plain", ["h_life.cc"] + ABASE + inst(), wrap=WRAP + SYSWRAP)
target("life-asan", "asan", ["h_life.cc"] + ABASE + inst(), wrap=WRAP + SYSWRAP)
FAULTWRAP = WRAP + SYSWRAP + ["posix_memalign", "aligned_alloc"]
target("fault-plain", "plain", ["h_fault.cc"] + ABASE + inst(), wrap=FAULTWRAP, ldflags=["-rdynamic"])
target("fault-asan", "asan", ["h_fault.cc"] + ABASE + inst(), wrap=FAULTWRAP, extra=["-DVF_ASAN"])
CPUWRAP = WRAP + ["cpuinfo_initialize", "cpuinfo_get_current_uarch_index", "cpuinfo_get_uarch", "cpuinfo_get_processors_count", "cpuinfo_get_processor", "cpuinfo_get_processors"]
target("cpu-plain", "plain", ["h_cpu.cc"] + WBASE + inst(), wrap=CPUWRAP)
target("cpu-asan", "asan", ["h_cpu.cc"] + WBASE + inst(), wrap=CPUWRAP)
target("pool-plain", "plain", ["h_pool.cc", "vf.cc", "delay.cc", "wrap.cc"], extra=["-DVF_DELAYS"], wrap=WRAP, ldflags=["-rdynamic"])
target("pool-tsan", "tsan", ["h_pool.cc", "vf.cc", "wrap.cc"], wrap=WRAP)
target("race-tsan", "tsan", ["h_race.cc"] + WBASE + inst(), wrap=WRAP)
target("race-tsan-release", "tsan-ndebug", ["h_race.cc"] + WBASE + inst(), wrap=WRAP)
target("set-plain", "plain", ["h_set.cc", "sets.cc"] + WBASE + inst(), wrap=WRAP)
target("set-tsan", "tsan", ["h_set.cc", "sets.cc"] + WBASE + inst(), wrap=WRAP)
target("ub-asan", "asan", ["h_ub.cc"] + WBASE + inst(), wrap=WRAP)
target("num-asan", "asan", ["h_num.cc"] + BASE + inst())
target("recorder-tsan", "trace-tsan", ["h_recorder.cc", "vf.cc"], lib=False)
target("recorder-asan", "trace-asan", ["h_recorder.cc", "vf.cc"], lib=False)
target("trace-plain", "trace", ["h_trace.cc"] + WBASE + inst(), wrap=WRAP)
PROFWRAP = ["nanosleep", "_ZN3ruy8profiler6detail12CopyToBufferERKNS1_5StackEPc"]
target("prof-plain", "prof", ["h_prof.cc"] + BASE + inst(), wrap=PROFWRAP)
target("prof-asan", "prof-asan", ["h_prof.cc"] + BASE + inst(), wrap=PROFWRAP)
target("prof-tsan", "prof-tsan", ["h_prof.cc"] + BASE + inst(), wrap=PROFWRAP, extra=["-DVF_TSAN"])

# Builds with optional optimizations left out (RUY_OPT_SET bits cleared).
SWITCHES = {"intrinsics": 0x1, "asm": 0x2, "tuning": 0x4, "fatkernel": 0x8, "aliasing": 0x20, "streaming": 0x40, "packahead": 0x80,
            "prefetch": 0x300, "fractalz": 0x400, "fractalu": 0x800, "hilbert": 0x1000}
ALLBITS = 0x1fff
OPT_VARIANTS = ["opt-0", "opt-0-ndebug", "ndebug", "prof", "opt-1fff-ndebug-prof", "opt-%x" % (ALLBITS & ~0x1802), "opt-%x" % (ALLBITS & ~0x1c00), "opt-%x" % (ALLBITS & ~0x1800),
                "opt-%x-ndebug" % (ALLBITS & ~0xa8)] + ["opt-%x" % (ALLBITS & ~b) for n, b in SWITCHES.items() if n in ("intrinsics", "asm", "fatkernel", "aliasing", "packahead", "hilbert")]


def opt_target(variant):
    name = "switch-" + variant
    target(name, variant, ["h_opt.cc"] + BASE + inst())
    return name


opt_target("plain")
for v in OPT_VARIANTS:
    opt_target(v)

CHECKS = {}


def check(pid, **kw):
    CHECKS[pid] = kw


def job(target, mode, quick, thorough, **kw):
    return dict(target=target, mode=mode, quick=quick, thorough=thorough, **kw)


CPU = "the CPU of the sandbox offers AVX, AVX2+FMA and AVX-512; paths it cannot run are not exercised"
ARM = "x86-64 build; the ARM code paths are not compiled and not exercised"

check(
    "P01",
    technique="runtime monitoring: oracle comparison of every result entry (int64 reference) over generated workloads on every code path",
    jobs=[job("num-plain", "int", 30000, 400000)],
    evaluations=["entries"], distinct=["problems"],
    rule="a multiplication problem with distinct type combination, shape, orders, strides and channel setting whose every entry was compared with the exact sum",
    require=["muls_portable", "entries", "very_deep_problems", "very_long_problems", "very_wide_strides", "wrapping_sums"],
    assumptions=[CPU, ARM],
)
check(
    "P02",
    technique="runtime monitoring: oracle comparison of every requantized entry, accumulator probing through the bias, monotonicity monitor",
    jobs=[job("num-plain", "quant", 16000, 250000), job("num-plain", "qprobe", 20000, 300000), job("num-plain", "qfunc", 400, 10000)],
    evaluations=["entries", "function_evaluations"], distinct=["problems", "scalings"],
    rule="a distinct requantized problem, or a distinct (accumulator, multiplier, exponent) driven through the library and compared",
    require=["entries", "monotone_pairs", "function_evaluations", "probe_muls_portable"],
    assumptions=[CPU, ARM, "scaled results whose value plus zero point leaves the 32-bit range are outside the documented domain and skipped"],
)
check(
    "P03",
    technique="runtime monitoring: oracle comparison of every floating-point entry (extended precision reference with error bound; exact for representable sums)",
    jobs=[job("num-plain", "float", 24000, 300000)],
    evaluations=["entries"], distinct=["problems"],
    rule="a floating-point problem with distinct types, shape, orders, strides and channel setting whose every entry was compared",
    require=["entries_exact", "entries_bounded", "muls_portable", "very_deep_problems", "very_long_problems", "very_wide_strides"],
    assumptions=[CPU, ARM],
)
check(
    "P06",
    technique="runtime monitoring: bitwise comparison against a single-threaded fresh-context execution under injected delays, random schedules and histories",
    jobs=[job("conc-plain", "repro", 5000, 60000, procs=4)],
    evaluations=["compared_muls"], distinct=["executions"],
    rule="an execution (problem plus the observed interleaving of pack and compute steps over threads) not seen before whose destination was compared bit for bit",
    require=["compared_muls", "multi_thread_muls", "history_muls", "long_stalls", "long_runs_of_uses"],
    assumptions=[CPU, ARM],
)
check(
    "P09",
    technique="runtime monitoring: event log of every pack and compute step checked offline against the tiling/pack-before-use specification, with injected delays",
    jobs=[job("conc-plain", "disc", 12000, 150000, procs=4), job("conc-plain", "bmap", 60000, 3000000, procs=2)],
    evaluations=["events", "plan_blocks"], distinct=["interleavings", "plan_shapes"],
    rule="a distinct observed interleaving of pack/compute steps with at least two threads, or a distinct work-splitting plan, checked completely",
    require=["multi_thread_muls", "long_stalls", "plans", "plans_order_0", "plans_order_2", "plans_order_3"],
    assumptions=[CPU, ARM],
)
check(
    "P21",
    technique="runtime monitoring: thread identities of all executed steps, thread counts and per-thread CPU clocks observed from the operating system",
    jobs=[job("conc-plain", "limit", 3000, 30000, procs=4), job("conc-plain", "idle", 48, 1000, procs=2, exclusive=True)],
    evaluations=["muls", "idle_periods"], distinct=["thread_histories", "idle_configs"],
    rule="a distinct history of thread maxima with the number of threads observed, or a distinct idle configuration measured",
    require=["muls", "idle_periods", "idle_workers"],
    assumptions=["idle CPU use is judged over four separate 100 ms windows, all of which must be busy for a violation"],
)

check(
    "P04",
    technique="runtime monitoring: differential executions, every undisturbed entry compared bit for bit after hostile changes elsewhere",
    jobs=[job("mem-plain", "local", 40000, 500000), job("mem-plain", "sub", 25000, 250000)],
    evaluations=["entries_compared", "sub_entries"], distinct=["problems", "sub_problems"],
    rule="a problem with distinct shape, layout, path and disturbance (or sub-block) that left at least one entry undisturbed, all of which were compared",
    require=["entries_compared", "sub_entries", "channel_disturbances", "sparse_problems"],
    assumptions=[CPU, ARM],
)
check(
    "P05",
    technique="runtime monitoring: guard pages around every buffer and scratch block, read-only inputs, canaries, scratch fill patterns; address and undefined-behaviour sanitizers",
    jobs=[job("mem-plain", "guard", 18000, 250000), job("mem-asan", "heap", 10000, 150000)],
    evaluations=["muls"], distinct=["problems", "heap_problems"],
    rule="a problem with distinct shape, layout and path executed with every buffer guarded (inaccessible pages or sanitizer red zones)",
    require=["muls", "scratch_pattern_pairs", "strided_destinations", "multi_thread_configs"],
    assumptions=[CPU, ARM, "reads of the gaps between strided rows or columns lie inside the declared extent and are allowed"],
)
check(
    "P13",
    technique="runtime monitoring: guarded read-only per-channel buffers of exact capacity, differential execution against ample buffers, advisory checked against the packed width observed",
    jobs=[job("mem-plain", "chan", 60000, 700000), job("mem-asan", "chan", 5000, 60000)],
    evaluations=["muls"], distinct=["channel_configs"],
    rule="a distinct (channel count, rounding, types, path, channel dimension, destination order) with at least one per-channel buffer supplied",
    require=["advisory_expected", "advisory_not_expected", "per_channel_muls", "no_buffers"],
    assumptions=[CPU, ARM],
)

check(
    "P10",
    technique="runtime monitoring: differential executions, every multiplication of a history with caching compared bit for bit with an uncached twin",
    jobs=[job("cache-plain", "seq", 6000, 150000), job("cache-asan", "seq", 800, 15000), job("cache-plain", "big", 24, 400, procs=6)],
    evaluations=["compared_muls"], distinct=["histories", "cache_states"],
    rule="a distinct history (types, shapes, paths, hits and insertions observed so far) whose last result was compared with the uncached one",
    require=["cache_hits", "cache_inserts", "cache_clears", "in_place_modifications", "uncached_modifications", "evictions"],
    assumptions=[CPU, ARM],
)
check(
    "P11",
    technique="runtime monitoring: online LRU model over every cache operation, memory observed at the system allocation functions",
    jobs=[job("cache-plain", "model", 30000, 500000), job("cache-asan", "model", 4000, 60000), job("cache-plain", "big", 24, 400, procs=6)],
    evaluations=["operations", "compared_muls"], distinct=["cache_states"],
    rule="a distinct history of insertions, lookups and evictions after which contents, byte total, entry count and live memory were compared with the model",
    require=["hits", "inserts", "multi_evictions", "evictions", "operations_larger_than_limit", "long_runs_of_uses"],
    assumptions=[CPU, ARM],
)

check(
    "P12",
    technique="runtime monitoring: online model of every scratch block (alignment, bounds, overlap, contents), system allocations observed at the allocation functions",
    jobs=[job("life-plain", "alloc", 50000, 600000), job("life-asan", "alloc", 6000, 60000), job("life-plain", "steady", 4000, 40000, procs=4)],
    evaluations=["allocations", "muls"], distinct=["allocator_histories", "workloads"],
    rule="a distinct history of rounds of allocations and resets, or a distinct repeated workload, with every block checked",
    require=["repeated_rounds", "aliasing_hints", "rounds", "repeated_passes"],
    assumptions=[CPU, ARM],
)
check(
    "P17",
    technique="runtime monitoring: live scratch blocks, live C++ objects and live threads observed around the destruction of contexts; address and leak sanitizers",
    jobs=[job("life-plain", "life", 6000, 60000, procs=4), job("life-plain", "prompt", 16, 300, procs=2), job("life-asan", "life", 1500, 12000, procs=2)],
    evaluations=["contexts", "prompt_destructions"], distinct=["histories", "prompt_configs"],
    rule="a distinct usage history (shapes, thread counts, spin settings, delays) after which the context was destroyed and everything it obtained was accounted for",
    require=["workers_ended", "cache_clears", "cached_bytes_cleared", "blocks_released", "unused_contexts", "prompt_destructions"],
    assumptions=[CPU, ARM],
)

check(
    "P07",
    technique="thread sanitizer (happens-before race detection) over the real library with injected delays and shadow accesses marking every packed column and computed tile",
    jobs=[job("race-tsan", "race", 1200, 15000, procs=4), job("race-tsan-release", "race", 1200, 15000, procs=4), job("pool-tsan", "pool", 2000, 30000, procs=2)],
    evaluations=["muls", "executions"], distinct=["interleavings"],
    rule="a distinct observed interleaving of pack and compute steps of a multi-threaded multiplication executed under the race detector",
    require=["multi_thread_muls", "pack_and_compute_events", "concurrent_context_groups", "executions"],
    assumptions=[CPU, ARM, "the race detector does not see 32- and 64-byte vector accesses; shadow accesses per packed column and 4x4 tile stand for them"],
)
check(
    "P08",
    technique="runtime monitoring: per-task records checked after every call, delays injected around every mutex and condition variable, waits ended without cause, deadlock watchdog",
    jobs=[job("pool-plain", "pool", 10000, 150000, procs=6)],
    evaluations=["tasks"], distinct=["pool_histories"],
    rule="a distinct history of task counts and task durations on one pool, every task of which was checked for exactly one complete run on the right thread",
    require=["executions", "sleeps_on_condition_variables", "injected_delays", "spurious_wakeups", "large_pools", "long_tasks", "long_idle_periods", "long_runs_of_uses"],
    assumptions=["hangs are reported only when every thread of the process is blocked"],
)

check(
    "P14",
    technique="runtime monitoring: code executed and reported by every multiplication compared with the setting history, tuning recorded at every step",
    jobs=[job("set-plain", "path", 16000, 400000), job("set-plain", "tune", 3000, 120000, procs=4)],
    evaluations=["muls", "steps_observed"], distinct=["setting_histories", "tuning_histories"],
    rule="a distinct sequence of path, environment, tuning and thread settings after which the executed code, the reported path and the settings were compared with what was set",
    require=["paths_compared", "detections", "multi_thread_muls", "steps_observed", "automatic_steps", "executed_portable", "executed_avx"],
    assumptions=[CPU, ARM, "environment values that are not hexadecimal numbers are outside the documented interface"],
)
check(
    "P15",
    technique="runtime monitoring: control registers read before and after every multiplication and at every compute step, bitwise comparison on denormal data",
    jobs=[job("set-plain", "fpenv", 16000, 150000, procs=4), job("set-plain", "denorm", 12000, 100000, procs=4)],
    evaluations=["muls", "denormal_muls"], distinct=["environments", "denormal_problems"],
    rule="a distinct combination of control settings, problem, path and thread count observed before and after, or a distinct denormal problem compared across settings",
    require=["multi_thread_muls", "denormal_multi_thread_muls", "problems_with_denormal_results", "compute_steps"],
    assumptions=[CPU, ARM, "exceptions raised by the data itself stay masked; status flags are not control settings and may change"],
)
check(
    "P16",
    technique="runtime monitoring: contexts driven concurrently and handed between threads, every step compared with the same script run alone; race detector",
    jobs=[job("set-plain", "indep", 5000, 100000, procs=4), job("set-tsan", "indep", 250, 5000, procs=2)],
    evaluations=["compared_muls"], distinct=["groups"],
    rule="a distinct group of scripts (settings and multiplications) whose every step was compared between the concurrent and the solitary execution",
    require=["compared_muls", "handover_groups", "concurrent_groups", "cache_hits", "advisories"],
    assumptions=[CPU, ARM],
)

check(
    "P19",
    technique="undefined-behaviour and address sanitizers plus the library's own assertions over extreme sizes, strides, cache sizes and thread counts; progress watchdog",
    jobs=[job("ub-asan", "plan", 12000, 300000), job("ub-asan", "exec", 1200, 20000, procs=6),
          job("ub-asan", "dry", 600, 20000, procs=4),
          job("num-asan", "int", 1500, 30000), job("num-asan", "quant", 1200, 30000), job("num-asan", "qprobe", 1500, 40000), job("num-asan", "qfunc", 80, 2000, procs=2),
          job("num-asan", "float", 1200, 30000)],
    evaluations=["plans", "muls", "dry_muls", "function_evaluations"], distinct=["plans", "extreme_problems", "dry_problems", "problems", "scalings"],
    rule="a distinct plan, extreme multiplication, ordinary problem or scaling executed under the sanitizers with assertions enabled",
    require=["plans_over_2GB", "blocks_checked", "long_dimension_muls", "wide_stride_muls", "spans_over_1GB", "entries_checked", "dry_over_2G_operations", "dry_steps"],
    assumptions=[CPU, ARM, "steps of the largest multiplications are scheduled but not carried out; padded execution sizes are bounded by memory"],
)

check(
    "P18",
    technique="runtime monitoring: every sample compared with what the thread was executing, every tree with the samples taken (model); address, undefined-behaviour and thread sanitizers",
    jobs=[job("prof-plain", "live", 400, 12000, procs=3), job("prof-asan", "tree", 6000, 200000, procs=4), job("prof-asan", "live", 120, 3000, procs=2),
          job("prof-tsan", "live", 150, 3000, procs=2), job("prof-plain", "mul", 400, 12000, procs=2), job("prof-tsan", "mul", 100, 2000, procs=2), job("prof-asan", "mul", 100, 2000, procs=2)],
    evaluations=["samples", "samples_compared", "mul_samples"], distinct=["trees", "profiles", "mul_stacks"],
    rule="a distinct generated sample set, distinct live profile or distinct label stack seen inside a multiplication, compared completely",
    require=["stable_samples", "sampling_passes", "threads", "collapses", "prints", "printed_lines_compared", "muls_profiled", "mul_samples"],
    assumptions=["the profiler's sampling period is shortened to obtain more samples", ARM],
)

check(
    "P20",
    technique="runtime monitoring: destinations of one workload digested in builds with different switches and compared offline with the default build",
    jobs=[job("switch-plain", "digest", 1500, 20000, procs=3)] + [job("switch-" + v, "digest", 1500, 20000, procs=1) for v in OPT_VARIANTS],
    cross="switch-plain", random_variants={"quick": 2, "thorough": 24}, random_job=("digest", 1500, 20000),
    evaluations=["digests_compared"], distinct=["digests"],
    rule="a distinct result (code path and destination contents) seen in the builds and equal in all of them",
    require=["digests_compared", "builds_compared"],
    assumptions=[CPU, ARM, "a fixed list of switch combinations plus random ones per seed, not all subsets"],
)

check(
    "P22",
    technique="runtime monitoring with fault injection: every system memory request and thread creation of a history refused in turn in child processes, outcomes and results compared; scratch allocator against a model; address and undefined-behaviour sanitizers",
    jobs=[job("fault-plain", "oom", 400, 6000), job("fault-asan", "oom", 150, 2000), job("fault-plain", "thread", 200, 3000, procs=4), job("fault-plain", "scratch", 20000, 300000, procs=4)],
    evaluations=["faults", "scratch_requests"], distinct=["memory_faults", "thread_faults", "scratch_histories"],
    rule="a distinct (problem, refused request, outcome) whose returned results were all compared, or a distinct history of scratch requests with refusals, every block checked",
    require=["faults", "completed_despite_fault", "stopped_with_diagnosis", "results_compared_after_fault", "scratch_refused", "scratch_resets_refused", "scratch_blocks_checked", "scratch_destroyed_in_use", "faults_in_operator_new"],
    assumptions=[CPU, ARM, "refusals are injected at the aligned allocation function, at operator new during multiplications and at thread creation"],
)

check(
    "P23",
    technique="runtime monitoring: each ill-formed call in a child process of the real library with assertions, monitoring how it ends, the shared destination and the diagnosis, next to the well-formed call it was made from",
    jobs=[job("fault-plain", "misuse", 18000, 200000)],
    evaluations=["misuses", "well_formed_calls"], distinct=["misuse_cases"],
    rule="a distinct (problem, broken requirement, path, threads) stopped with a diagnosis and an untouched destination, whose well-formed counterpart completed with the right result",
    require=["misuse_float_zero_point", "misuse_int16_zero_point", "misuse_both_zero_points_lowest", "misuse_nonzero_bias_tail", "misuse_nonzero_multiplier_tail",
             "misuse_nonzero_exponent_tail", "misuse_mixed_multipliers", "misuse_constant_destination", "misuse_capacity_rounding", "diagnoses"],
    assumptions=[CPU, ARM, "builds with assertions only; requirements the library does not claim to diagnose (matching shapes, buffer sizes) are not included"],
)

check(
    "P24",
    technique="runtime monitoring: pack steps of every multiplication and entries held compared with the policies and the history of the operands",
    jobs=[job("cache-plain", "policy", 12000, 200000)],
    evaluations=["policy_decisions"], distinct=["policy_histories"],
    rule="a distinct history of operands, policies and outcomes on one context, every operand of every multiplication judged",
    require=["policy_muls", "reused_operands", "clears", "policy_pairs"],
    assumptions=[CPU, ARM, "histories stay below the size limit of the cache, which P11 covers"],
)

check(
    "P25",
    technique="runtime monitoring with fault injection: the CPU information library answers for invented machines (extensions left out, caches missing, unequal or unusable, detection failing) in child processes; paths, executed code, tuning of every step, cache sizes and results compared",
    jobs=[job("cpu-plain", "cpu", 12000, 200000), job("cpu-asan", "cpu", 2000, 30000)],
    evaluations=["muls", "cache_sizes_checked"], distinct=["machines"],
    rule="a distinct invented machine (instruction set extensions and cache topology) on which the path, the executed code, the cache sizes planned for and the result were judged",
    require=["detection_failures", "incomplete_cache_information", "complete_cache_information", "explicit_choices", "code_identified", "used_portable", "used_avx", "used_avx2", "used_avx512", "tuned_steps", "generally_tuned_steps", "moves_between_kinds"],
    assumptions=[CPU, ARM, "an extension the sandbox's CPU lacks is never reported to the library"],
)

check(
    "P26",
    technique="runtime monitoring: every entry of the reference multiplication compared with the oracle, guarded read-only surroundings; every entry access, printed form and setting compared with a model; address and undefined-behaviour sanitizers",
    jobs=[job("ref-plain", "ref", 40000, 500000), job("ref-asan", "ref", 8000, 100000), job("ref-plain", "access", 30000, 400000), job("ref-asan", "access", 6000, 80000)],
    evaluations=["entries", "accesses", "parameter_sets"], distinct=["problems", "layouts"],
    rule="a distinct reference multiplication whose every entry was compared, or a distinct matrix layout whose every entry was accessed and compared",
    require=["float_muls", "raw_muls", "quantized_muls", "per_channel_muls", "column_channels", "writes", "prints", "parameter_sets"],
    assumptions=[ARM, "matrices of fewer than 2^31 entries"],
)

NOT_APPLICABLE = {}
check(
    "P27",
    technique="runtime monitoring: traces left by exiting processes parsed and compared with the pack and compute steps, plans and threads observed while they ran; recorder under ThreadSanitizer and AddressSanitizer",
    jobs=[job("trace-plain", "trace", 3000, 40000), job("recorder-tsan", "recorder", 400, 6000, procs=4), job("recorder-asan", "recorder", 400, 6000, procs=4)],
    evaluations=["steps_compared", "recorded_lines_compared"], distinct=["traces", "recordings"],
    rule="a traced history whose steps and threads were not seen before, or a distinct invented recording, whose whole trace was compared with what was observed",
    require=["steps_compared", "worker_sections", "uneven_rows", "uneven_columns", "identities_checked", "plans_checked", "caching_reports_checked", "html_traces", "terminal_traces",
             "traces_on_stdout", "traces_in_files", "recorded_lines_compared"],
    some=True,
    assumptions=[CPU, ARM, "contexts are destroyed before the process exits",
                 "tracing is a debugging configuration of its own: when only its build fails, what still builds of it is judged and the rest is named here"],
)
