"""One entry per claimed property: which harness runs decide it. A run = one binary in one build configuration, sharded."""
def run(name, srcs, config="asan", lib=True, **kw):
    d = {"name": name, "bin": name, "srcs": srcs, "config": config, "lib": lib}
    d.update(kw)
    return d

PROPS = {}
PROPS["P26"] = {
    "runs": [run("smallvec", ["h_smallvec_3.cpp", "h_smallvec_4.cpp", "h_smallvec_1.cpp", "h_smallvec_2.cpp", "h_smallvec.cpp"], "asan0", lib=False, shards=8)],
    "rule": "random operation histories over three containers; non-trivial: used inline storage and changed storage at least once",
    "require": {"operations": 1000},
}

GA_SRCS = ["h_ga_perm.cpp", "h_ga_real.cpp", "h_ga_int.cpp", "h_ga_bin.cpp", "h_ga.cpp"]
def ga(area, **kw): return run("ga", GA_SRCS, "asan", hflags=["-O0"], area=area, case_limit=20, **kw)
GA_RULE = "complete runs of randomly configured GAs, every fitness call and generation recorded; non-trivial: more than the initial generation; distinct by digest of the recorded run"
for _p, _req in (("P01", {"fitness_calls": 20000}), ("P02", {"fitness_calls": 20000, "memetic_mutations": 1500, "nested_runs": 250}), ("P03", {"solutions": 2000, "runs_with_near_equal_fitness": 500}), ("P04", {"reuse_comparisons": 100, "exceptions_delivered": 100}),
                 ("P05", {"traced_evaluations": 2000, "runs_without_variation": 10}), ("P06", {"same_seed_comparisons": 200, "same_seed_comparisons_many_threads": 200, "different_seed_comparisons": 20})):
    PROPS[_p] = {"runs": [ga(_p)], "rule": GA_RULE, "require": dict(_req, runs=300)}

OPS_SRCS = ["h_ops_perm.cpp", "h_ops_real.cpp", "h_ops_int.cpp", "h_ops_bin.cpp", "h_ops.cpp"]
for _p, _req in (("P09", {"crossovers_checked": 10000, "rate_samples": 10000, "generic_comparisons": 1000, "sbx_distributions": 300}), ("P10", {"mutations_checked": 10000, "distribution_tests": 50})):
    PROPS[_p] = {"runs": [run("ops", OPS_SRCS, "asan", hflags=["-O0"], area=_p, case_limit=30)],
                 "rule": "operator calls on generated candidates; non-trivial: the operator changed a chromosome (or a distribution test over thousands of calls); distinct by digest of the results", "require": _req}

ALGO_SRCS = ["h_algo.cpp"]
for _p, _req, _rule in (("P11", {"selections": 100000, "distributions_compared": 300}, "selection histograms over generated fitness values; non-trivial: at least two different fitness values; distinct by the histogram"),
                        ("P12", {"replacements_checked": 5000, "improvements": 20}, "replacement decisions of real runs and of direct calls; non-trivial: more than one generation; distinct by the survivors"),
                        ("P13", {"split_fronts": 200, "tournaments": 100000, "exact_tournaments": 200}, "NSGA-II runs over generated fitness values, every survivor selection judged; non-trivial: population larger than 1; distinct by the survivors"),
                        ("P14", {"split_fronts": 200, "niching_checked": 200, "tournaments": 100000, "exact_tournaments": 200, "niche_ties_checked": 100}, "NSGA-III runs over generated fitness values, every survivor selection judged; non-trivial: population larger than 1; distinct by the survivors")):
    PROPS[_p] = {"runs": [run("algo", ALGO_SRCS, "asan", hflags=["-O0"], area=_p, case_limit=60)], "rule": _rule, "require": _req}

for _p, _req, _rule in (("P15", {"points_sorted": 50000, "fronts_checked": 20000, "partial_fronts": 1000}, "generated point sets sorted by every algorithm and compared with repeated removal; non-trivial: more than one front; distinct by the fronts"),
                        ("P16", {"reference_points": 100000, "spread_checks": 50, "subsets_checked": 300}, "generated reference point sets; non-trivial: several points in several dimensions; distinct by generator, dimension and count"),
                        ("P25", {"volumes_compared": 10000, "parallel_volumes": 4000}, "generated point sets, volume compared with slicing; non-trivial: positive volume and several points; distinct by volume and size")):
    PROPS[_p] = {"runs": [run("sets", ["h_sets.cpp"], "asan", hflags=["-O0"], area=_p, case_limit=60)], "rule": _rule, "require": _req}

for _p, _req, _rule in (("P27", {"operations": 100000, "overwrites": 1000, "cache_operations": 50000, "evictions": 1000, "injected_exceptions": 500}, "random operation histories over three buffers or caches; non-trivial: an element was overwritten or evicted; distinct by the history"),
                        ("P28", {"matrix_operations": 20000, "bitset_operations": 20000, "iterator_laws": 50000, "bit_laws": 1000}, "random operation histories over three objects; non-trivial: several rows and columns, or more than one word with a partial last word; distinct by the history")):
    PROPS[_p] = {"runs": [run("containers", ["h_containers.cpp"], "asan0", lib=False, area=_p, case_limit=60)], "rule": _rule, "require": _req}

for _p, _req, _rule in (("P29", {"float_pairs": 100000, "float_pairs_equal": 10000, "pareto_pairs": 50000, "pareto_dominated_pairs": 5000, "vector_laws": 2000, "cone_queries": 10000}, "generated numbers, vectors and trees; non-trivial: pairs both equal and different, several points; distinct by the values"),
                        ("P31", {"sequences": 4000, "shuffles": 100000, "functional": 2000}, "generated sequences and callables; non-trivial: more than two elements; distinct by the values")):
    PROPS[_p] = {"runs": [run("helpers", ["h_helpers.cpp"], "asan", hflags=["-O0"], area=_p, case_limit=60)], "rule": _rule, "require": _req}

RNG = lambda p, cfg, **kw: run("rng", ["h_rng.cpp"], cfg, lib=False, area=p, case_limit=60, **kw)
PROPS["P21"] = {"runs": [RNG("P21", "asan", hflags=["-O0"])], "rule": "calls with generated types, ranges and parameters, results collected and tested; non-trivial: more than one possible result; distinct by parameters",
                "require": {"random_integers": 500000, "random_reals": 500000, "distribution_tests": 500, "unique_samples": 1000}}
PROPS["P22"] = {"runs": [RNG("P22", "asan", hflags=["-O0"]), RNG("P22", "tsan", hflags=["-O1"])], "rule": "generator histories and multi-threaded draws compared with reference generators; non-trivial: jumps, several threads; distinct by seeds and draws",
                "require": {"generator_histories": 300, "streams": 500, "threads_exited_while_seeding": 200, "quasi_points": 10000, "unseeded_processes": 20, "seeded_processes": 10}}

def conc(p, *cfgs, shards=8): return [run("conc", ["h_conc.cpp"], c, lib=False, area=p, shards=shards, case_limit=25, hang_reruns=4, hflags=["-O0" if c == "asan" else "-O1"]) for c in cfgs]
CONC_RULE = "multi-threaded executions with injected delays, every call recorded; non-trivial: several threads took part; distinct by the parameters and what was observed"
PROPS["P17"] = {"runs": conc("P17", "asan", "tsan"), "rule": CONC_RULE, "require": {"loops": 5000, "iterations": 50000, "loops_with_exceptions": 500, "resizes": 500, "nested_loops": 100, "concurrent_loops": 1000, "loops_on_all_threads": 300}}
PROPS["P18"] = {"runs": conc("P18", "asan", "tsan"), "rule": CONC_RULE, "require": {"elements": 20000, "ordered_pairs": 100000, "closed_while_used": 100, "wakeups": 10000, "history_events": 50000}}
PROPS["P19"] = {"runs": conc("P19", "asan", "tsan", shards=3), "rule": CONC_RULE, "require": {"lock_acquisitions": 50000, "exclusive_acquisitions": 20000, "shared_acquisitions": 20000, "failed_tries": 1000, "latch_waits": 500}}
PROPS["P20"] = {"runs": conc("P20", "asan", "tsan", "plain", shards=2), "rule": CONC_RULE, "require": {"critical_sections": 30000, "versions_published": 5000, "nested_sections": 500, "grace_periods": 100}}

for _p, _req, _rule in (("P23", {"stops_judged": 3000, "stopped_by_condition": 1000, "stopped_by_limit": 300, "failed_runs": 50, "unlimited_runs": 10}, "scripted and real runs with generated stop conditions, the recorded history judged at every generation; non-trivial: more than one generation; distinct by condition and length"),
                        ("P24", {"runs": 2000, "entries_checked": 50000, "moved_reference_points": 200}, "scripted and real runs with generated sets of metrics, every entry recomputed from the recorded fitness; non-trivial: several generations and candidates; distinct by metrics and values")):
    PROPS[_p] = {"runs": [run("monitor", ["h_monitor.cpp"], "asan", hflags=["-O0"], area=_p, case_limit=30)], "rule": _rule, "require": _req}

PROPS["P30"] = {"runs": [run("problems", ["h_problems.cpp"], "asan", hflags=["-O0"], area="P30", case_limit=60), run("problems", ["h_problems.cpp"], "tsan", hflags=["-O1"], area="P30t", case_limit=60)],
                "rule": "problems of generated dimensions evaluated at generated points of their domain and compared with extended precision definitions; non-trivial: more than one variable; distinct by the values",
                "require": {"values_checked": 40000, "binary_values_checked": 20000, "dominance_checks": 100000, "climbing_steps": 20000, "fronts_checked": 80, "two_opt_moves": 200, "concurrent_evaluations": 20000, "runs": 100}}

PROPS["P07"] = {"runs": [run("race", ["h_race_perm.cpp", "h_race_real.cpp", "h_race_int.cpp", "h_race_bin.cpp", "h_race.cpp"], "tsan", hflags=["-O1"], area="P07", shards=4, case_limit=60, hang_reruns=3)],
                "technique": "race detector (ThreadSanitizer) over complete runs with generated configurations, and an online monitor of the evaluation counter",
                "rule": "complete multi-threaded runs of generated configurations under ThreadSanitizer; non-trivial: at least two evaluations overlapped; distinct by configuration",
                "require": {"runs": 500, "fitness_calls": 50000, "runs_with_concurrent_evaluations": 300, "independent_runs": 300, "counter_reads_while_running": 1000, "nested_inner_evaluations": 1000, "direct_algorithm_calls": 20000}}

HOST_SRCS = ["h_host_moo.cpp", "h_host_perm.cpp", "h_host_real.cpp", "h_host_int.cpp", "h_host_bin.cpp", "h_host.cpp"]
VALGRIND = ["valgrind", "-q", "--error-exitcode=55", "--exit-on-first-error=yes", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite", "--fair-sched=yes", "--track-origins=no"]
def val(name, srcs, area, divide, shards=2, **kw): return run(name, srcs, "val", hflags=["-O0"], area=area, divide=divide, shards=shards, case_limit=300, wrap=VALGRIND, crashes_only=not area.startswith("P08"), **kw)
PROPS["P08"] = {"runs": [run("host", HOST_SRCS, "asan", hflags=["-O0"], area="P08", case_limit=40, hang_reruns=2),
                         run("host", HOST_SRCS, "gcc", area="P08g", case_limit=60, hang_reruns=2),
                         val("host", HOST_SRCS, "P08v", 1, shards=6),
                         val("ops", OPS_SRCS, "P09", 200), val("ops", OPS_SRCS, "P10", 200), val("sets", ["h_sets.cpp"], "P15", 200), val("sets", ["h_sets.cpp"], "P16", 50), val("sets", ["h_sets.cpp"], "P25", 200),
                         val("helpers", ["h_helpers.cpp"], "P29", 200), val("helpers", ["h_helpers.cpp"], "P31", 100), val("monitor", ["h_monitor.cpp"], "P23", 100), val("monitor", ["h_monitor.cpp"], "P24", 100),
                         val("algo", ALGO_SRCS, "P13", 100), val("algo", ALGO_SRCS, "P14", 100)],
                "technique": "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck over hostile workloads with the library's assertions enabled, injected exceptions and object histories",
                "rule": "complete runs, operator calls and object histories with hostile configurations and values, under sanitizers or memcheck; non-trivial: user code was called several times; distinct by configuration and results",
                "require": {"runs": 10000, "exceptions_delivered": 2000, "runs_after_an_exception": 1000, "operator_calls": 30000, "object_histories": 1500, "moves": 1500, "runs_with_infinite_fitness": 1500, "runs_with_extreme_objectives": 4000, "runs_with_one_candidate": 1000, "runs_with_one_gene": 1000}}

for _p, _req, _rule in (("P32", {"runs": 1000, "events": 50000, "runs_with_several_lengths": 100, "generated_candidates_matched": 2000, "cached_runs": 200, "failed_runs": 50, "builtin_runs_with_several_lengths": 200}, "complete runs of user-defined encodings, everything recorded; non-trivial: more than the initial generation; distinct by the populations"),
                        ("P34", {"runs": 1000, "events": 100000, "runs_with_monitored_selections": 800, "failed_runs": 80}, "complete runs made of user-defined parts, every call recorded and judged by the protocol automaton; non-trivial: more than the initial generation; distinct by the populations")):
    PROPS[_p] = {"runs": [run("custom", ["h_custom.cpp"], "asan", hflags=["-O0"], area=_p, case_limit=30)], "rule": _rule, "require": _req}

PROPS["P33"] = {"runs": [run("config", ["h_config_perm.cpp", "h_config_real.cpp", "h_config_int.cpp", "h_config_bin.cpp", "h_config.cpp"], "asan", hflags=["-O0"], area="P33", case_limit=30)],
                "rule": "one generated configuration said in four different documented ways, runs with the same seed compared; non-trivial: more than the initial generation; distinct by the ways and the populations",
                "require": {"forms_compared": 4000, "moved_gas": 500, "default_algorithm_single": 200, "default_algorithm_multi": 200, "deduced_rates": 300, "default_rates_of_callables": 100}}
PROPS["P35"] = {"runs": [run("params", ["h_params.cpp"], "asan", hflags=["-O0"], area="P35", case_limit=30)],
                "rule": "one parameter of one built-in component set in five different ways (and left out), runs with the same seed compared; or samples of an operator for two values of its parameter; non-trivial: more than the initial generation; distinct by component and populations",
                "require": {"forms_compared": 1500, "defaults_compared": 300, "parameters_with_effect": 600, "ga_defaults": 40, "effects_compared": 100}}

PROPS["P37"] = {"runs": [run("init", ["h_init.cpp"], "asan", area="P37", case_limit=60)],
                "rule": "thousands of initial populations of one generated problem, or all matings of a run, tested against the uniform distribution; non-trivial: more than 1000 samples; distinct by problem and samples",
                "require": {"generated_candidates": 500000, "genes_tested": 3000, "permutation_tests": 20, "matings_judged": 20000, "runs_on_many_threads": 40}}

PROPS["P38"] = {"runs": [run("growth", ["h_growth.cpp"], "asan", area="P38", case_limit=60)],
                "rule": "the live heap bytes at the end of every generation, run, and use of a utility in one generated history; non-trivial: more than 50 generations, or repeated runs or uses; distinct by configuration and bytes",
                "require": {"generations_measured": 15000, "runs_with_cache": 50, "runs_measured": 3000, "histories_with_failures": 40, "histories_with_resizes": 30, "utility_histories": 40}}

def built(cfg, **kw): return run("gab", GA_SRCS, cfg, hflags=["-DVH_BUILDS"] + (["-O2"] if cfg == "rel" else []), area="P36", case_limit=20, **kw)
def rel(name, srcs, area, divide, **kw): return run(name, srcs, "rel", hflags=["-O1"], area=area, divide=divide, case_limit=60, **kw)
PROPS["P36"] = {"runs": [built("dbg", compare="runs"), built("rel", compare="runs"), built("fast"),
                         rel("ops", OPS_SRCS, "P09", 4), rel("ops", OPS_SRCS, "P10", 4), rel("sets", ["h_sets.cpp"], "P15", 4), rel("sets", ["h_sets.cpp"], "P16", 4), rel("sets", ["h_sets.cpp"], "P25", 4),
                         rel("algo", ALGO_SRCS, "P11", 4), rel("algo", ALGO_SRCS, "P12", 4), rel("algo", ALGO_SRCS, "P13", 4), rel("algo", ALGO_SRCS, "P14", 4),
                         rel("containers", ["h_containers.cpp"], "P27", 4), rel("containers", ["h_containers.cpp"], "P28", 4), rel("helpers", ["h_helpers.cpp"], "P29", 4), rel("helpers", ["h_helpers.cpp"], "P31", 4),
                         rel("monitor", ["h_monitor.cpp"], "P23", 4), rel("monitor", ["h_monitor.cpp"], "P24", 4), rel("rng", ["h_rng.cpp"], "P21", 4),
                         rel("conc", ["h_conc.cpp"], "P17", 4, hang_reruns=4), rel("conc", ["h_conc.cpp"], "P18", 4, hang_reruns=4), rel("conc", ["h_conc.cpp"], "P20", 4, hang_reruns=4)],
                "technique": "differential monitoring: the same seeded runs recorded in builds with and without assertions, optimisation, exceptions and RTTI, and compared; the run monitors over the documented Release build",
                "rule": "complete runs of randomly configured GAs in several builds, every fitness call and generation recorded; non-trivial: more than the initial generation; distinct by digest of the recorded run",
                "require": {"runs": 3000, "cases_compared_between_builds": 1000}}
