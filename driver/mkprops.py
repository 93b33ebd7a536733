"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("P01", "Every candidate of a run is a valid chromosome of its encoding",
  "At the end of every generation of every run, each candidate of the population and of the returned solutions has the required chromosome length (unless every operator used allows variable lengths), binary genes are 0 or 1, real and integer genes lie within their (possibly per-gene) bounds, and permutation chromosomes contain each of 0..n-1 exactly once. The same holds for every chromosome handed to the fitness function, for any built-in crossover, mutation, algorithm, population size, chromosome length, bounds, rates and thread count.",
  ["inputs", "configurations", "histories"], "all four encodings x all built-in operators x algorithms x population sizes (including 1 and odd) x chromosome lengths (including 1) x bounds (including degenerate ones) x thread counts x seeds",
  "The tests run a handful of fixed benchmark problems with default-ish sizes and never look at the genes of every candidate of every generation.",
  ["src/core/ga_base.impl.hpp", "src/encoding/", "src/crossover/", "src/mutation/"],
  [("candidate generation", "src/encoding/*.cpp"), ("crossover wrapper and operators", "src/crossover/"), ("mutation wrapper and operators", "src/mutation/"), ("clamping to bounds", "src/crossover/real.cpp, src/mutation/real.cpp, src/mutation/integer.cpp")],
  [("population", "current candidates", "GA::population()")], ["fitness function calls", "generation end callback", "GA::solve() result"])

p("P02", "An evaluated candidate always carries the fitness of its own chromosome",
  "Whenever the user can see a candidate that is marked as evaluated (in the population at a generation's end, in the fitness matrix row of that candidate, or in the returned solutions), its fitness vector is what the fitness function returned for that candidate's chromosome (for real encodings: for a chromosome equal to it within the configured floating-point tolerances). This holds with or without the fitness cache, with repair functions, lambda operators, preset initial populations, and parallel evaluation; with a dynamic fitness function every new child gets the value of a fresh call and nothing is ever served from a cache.",
  ["inputs", "configurations", "histories", "schedules"], "all combinations of cache size, static/dynamic fitness, repair function, operators that return unchanged or changed children, thread counts and repeated runs on one object",
  "A stale fitness (evaluated flag kept after a change, cache hit on the wrong key) still converges on the benchmark problems, so the tests do not see it.",
  ["src/core/ga_base.impl.hpp", "src/core/candidate.hpp", "src/crossover/crossover_base.impl.hpp", "src/mutation/mutation_base.impl.hpp", "src/utility/cache.hpp"],
  [("evaluate()", "src/core/ga_base.impl.hpp"), ("is_evaluated bookkeeping", "src/crossover/crossover_base.impl.hpp, src/mutation/mutation_base.impl.hpp, GA::repair"), ("fitness cache", "src/utility/cache.hpp")],
  [("is_evaluated", "fitness does not need to be computed", "src/core/candidate.hpp")], ["generation end callback", "fitness function call log", "GA::solutions()"])

p("P03", "Returned solutions are exactly the distinct Pareto-optimal candidates",
  "The candidates returned by a run are mutually non-dominated, contain no chromosome twice, and by default are exactly the distinct Pareto-optimal chromosomes of the last generation's population (for single-objective runs, all the distinct best ones). When all optimal solutions are kept, they are exactly the distinct chromosomes that were in some generation's population and are not dominated by any candidate of any generation's population of that run, and solutions() equals the returned set. Fitness values that differ by less than the tolerances in use count as equal.",
  ["histories", "configurations", "inputs"], "every run history of single-, multi- and many-objective problems, including runs of one generation, problems with many ties and duplicates, and reused GA objects",
  "The tests check hypervolumes and counts for a few benchmark runs, never the set itself against the recorded history of populations.",
  ["src/core/ga_base.impl.hpp", "src/core/population.hpp", "src/core/population.cpp", "src/algorithm/algorithm_base.impl.hpp"],
  [("updateOptimalSolutions()", "src/core/ga_base.impl.hpp"), ("mergeParetoSets()", "src/core/population.hpp"), ("findParetoFront*()", "src/core/population.cpp"), ("optimalSolutions of the algorithms", "src/algorithm/")],
  [("solutions_", "optimal solutions", "src/core/ga_base.decl.hpp")], ["generation end callback", "GA::solve() result"])

p("P04", "A run follows the documented generation lifecycle and the GA stays reusable",
  "Every run starts from the given initial population (truncated to, or filled up to, the population size), keeps the population size constant, reports generations 0, 1, 2, ... to the end-of-generation callback exactly once each and in order, and never exceeds the maximum number of generations, which a per-run limit overrides for that run only. An exception thrown by a user-supplied function reaches the caller of solve(), and a GA object that was used before (with any problem, any chromosome length, and also after such an exception) behaves in its next run like a new one, including default algorithm and default mutation rate selection and the reset of counters, metrics and solutions.",
  ["histories", "configurations", "fault_sequences"], "all sequences of configuration changes, runs and failed runs on one GA object, with every user callback as a place where an exception can be thrown",
  "The tests mostly construct a fresh GA per run and never throw from callbacks in the middle of parallel phases.",
  ["src/core/ga_base.impl.hpp", "src/core/ga_info.hpp", "src/core/ga_info.cpp", "src/utility/scope_exit.hpp"],
  [("initializeAlgorithm(), advance(), solve()", "src/core/ga_base.impl.hpp"), ("restore_on_exit", "src/utility/scope_exit.hpp")],
  [("generation_cntr_", "current generation", "src/core/ga_info.hpp"), ("max_gen_", "maximum generations", "src/core/ga_info.hpp"), ("use_default_mutation_rate_", "mutation rate is deduced", "src/core/ga_base.decl.hpp")],
  ["generation end callback", "GA::solve() result", "getters of GaInfo"])

p("P05", "Fitness evaluations are counted exactly and static fitness is not recomputed",
  "The reported number of fitness evaluations equals, at every generation end, the number of fitness function calls made in this run (not counting the one probing call that determines the number of objectives). With a static fitness function, no candidate whose chromosome was passed on unchanged with a known fitness is evaluated again, preset evaluated candidates are not evaluated, and with a cache of k generations a chromosome that entered the population in some generation is not evaluated again for the second to (k+1)th generation after it; with a dynamic fitness function every child is evaluated exactly once per generation.",
  ["histories", "configurations", "schedules"], "all cache sizes, static and dynamic fitness functions, operator behaviours (changed/unchanged children), preset populations and parallel schedules",
  "The tests check the counter in one trivial configuration; redundancy and the effect of the cache depend on the whole history of populations.",
  ["src/core/ga_base.impl.hpp", "src/core/ga_info.cpp", "src/utility/cache.hpp", "src/crossover/crossover_base.impl.hpp"],
  [("evaluate()", "src/core/ga_base.impl.hpp"), ("fifo_cache", "src/utility/cache.hpp")],
  [("num_fitness_evals_", "number of evaluations", "src/core/ga_info.hpp"), ("fitness_cache_", "cached fitness values", "src/core/ga_base.decl.hpp")],
  ["instrumented fitness function", "generation end callback"])

p("P06", "With a fixed seed and number of threads a run is a function of its configuration",
  "After seeding the global generator with the same value and with one execution thread, two runs of identically configured GAs produce identical sequences of populations, evaluations and solutions, no matter which other runs were executed earlier in the process, whether the GA object is new or was used before for any other run, and how many threads were used earlier. With several execution threads the same holds for runs between which the number of threads is not changed. Runs seeded with different values differ.",
  ["histories", "configurations"], "all encodings and algorithms, preceded by arbitrary other runs, re-seedings and thread count changes",
  "No test compares two complete runs; hidden state surviving between runs (caches, counters, algorithm state) is invisible to single-run tests.",
  ["src/core/ga_base.impl.hpp", "src/utility/rng.hpp", "src/utility/thread_pool.hpp", "src/algorithm/"],
  [("seeding", "src/utility/rng.hpp"), ("state reset in initializeAlgorithm()", "src/core/ga_base.impl.hpp"), ("algorithm initialize()", "src/algorithm/")],
  [("prng", "global generator", "src/utility/rng.hpp")], ["population digests per generation"])

p("P07", "Runs are free of data races for every thread count",
  "With thread-safe user functions, no execution of a run performs a data race, whatever the number of execution threads, encoding, operators, algorithm, cache size, tracked metrics or stop condition, and also when independent GAs run concurrently on different user threads. Monitors that the API declares usable during a run (evaluation counter, generation callback) observe consistent values.",
  ["schedules", "configurations"], "all interleavings of the worker threads over all built-in components, sampled under the race detector with forced concurrency",
  "The unit tests run without a race detector, and a race rarely changes an asserted result.",
  ["src/utility/thread_pool.hpp", "src/core/ga_base.impl.hpp", "src/core/population.hpp", "src/utility/rng.hpp", "src/utility/rcu.hpp", "src/algorithm/nd_sort.cpp", "src/metrics/pop_stats.cpp"],
  [("parallel_for", "src/utility/thread_pool.hpp"), ("atomic evaluation counter", "src/core/ga_base.impl.hpp"), ("thread local generators", "src/utility/rng.hpp"), ("atomic_ref in mergeParetoSets and nd_sort", "src/core/population.hpp, src/algorithm/nd_sort.cpp")],
  [], ["ThreadSanitizer reports over complete runs"])

p("P08", "Valid use of the library never causes memory errors or undefined behaviour",
  "For every valid configuration and input, including extreme but allowed ones (population size 1, chromosome length 1, degenerate bounds and huge bounds whose width is still representable, equal, infinite or huge fitness values, 1 to many objectives, rates 0 and 1, very large tolerances), no operation reads or writes outside live objects, reads uninitialised memory, leaks, overflows, trips an internal assertion, hangs or terminates the process. This includes runs that end with an exception thrown by a user function.",
  ["inputs", "configurations", "fault_sequences"], "hostile configurations and inputs over the whole public API, executed under address, undefined-behaviour and leak sanitizers and memcheck",
  "The unit tests are built without sanitizers and use well-behaved sizes and values only.",
  ["src/"],
  [("assertions and bounds handling", "src/**"), ("containers", "src/utility/")],
  [], ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, memcheck"])

p("P09", "Every crossover operator produces children that inherit as documented",
  "For any two parents, each built-in crossover produces two valid children of the documented form: for binary and integer operators every gene of a child comes from the same position of a parent and the two children are complementary, with exactly one crossover point for single-point, two for two-point and at most n for n-point; real operators keep children inside the gene bounds and inside the operator's documented region relative to the parents, distributed there as the operator's parameter says (uniform for arithmetic, BLX-alpha and Wright; the bounded spread distribution of eta on either side of the middle for simulated binary); permutation operators return permutations that keep the positional, order, cycle or adjacency information they document. Crossover happens with the set crossover rate, without crossover the children equal the parents and keep their fitness, and parents are never modified.",
  ["inputs", "configurations"], "all pairs of parents (equal, complementary, length 1 or 2, long), operator parameters at their limits and all crossover rates",
  "The tests check a few fixed small parents per operator; inheritance is a relation over all parents and all random choices.",
  ["src/crossover/"],
  [("operator implementations", "src/crossover/*.cpp, src/crossover/crossover_impl.hpp"), ("rate handling and fitness reuse", "src/crossover/crossover_base.impl.hpp"), ("neighbour lists", "src/crossover/neighbour_list.hpp")],
  [], ["operator calls on generated parents"])

p("P10", "Every mutation operator changes chromosomes as documented and at its rate",
  "For any candidate, each built-in mutation leaves a valid chromosome: gene-wise operators change only genes selected at the mutation rate and stay in bounds (integer mutation always to a different value when there is one), and permutation operators apply exactly one inversion, 2-swap, 3-swap, shuffle or shift of at most the documented length to a contiguous part. The fraction of mutated genes or chromosomes agrees with the mutation rate over its whole range including 0 and 1, and a candidate keeps its fitness only if its chromosome is unchanged.",
  ["inputs", "configurations"], "all chromosome lengths including 1 and 2, degenerate bounds, operator parameters at their limits, rates 0 to 1",
  "The tests use one fixed chromosome per operator and cannot see rates or the form of the change over all random choices.",
  ["src/mutation/"],
  [("operator implementations", "src/mutation/*.cpp"), ("evaluated flag handling", "src/mutation/mutation_base.impl.hpp")],
  [], ["operator calls on generated candidates"])

p("P11", "Selection operators select valid candidates with their documented probabilities",
  "For any finite fitness values (including equal, negative, huge and population size 1) every single-objective selection method returns members of the current population, and its selection frequencies agree with its definition: proportional to shifted fitness for roulette, best of the drawn candidates for tournaments, linear in the rank within the configured weights for rank selection, scaled by mean and standard deviation for sigma scaling, and proportional to exp(f/T) with the current temperature for Boltzmann. A better candidate is never less likely to be selected than a worse one, and parameters set by the user are the ones used.",
  ["inputs", "configurations"], "all fitness distributions (ties, outliers, constant, huge ranges), parameters and population sizes",
  "The tests check that selection works on a few fitness vectors; distributions need statistical observation over many vectors and parameters.",
  ["src/algorithm/soga_selection.cpp", "src/algorithm/soga_selection.hpp", "src/algorithm/selection_base.hpp", "src/algorithm/single_objective.cpp"],
  [("selection weights and their cumulative distribution", "src/algorithm/soga_selection.cpp"), ("sampling from a cdf", "src/utility/rng.hpp")],
  [], ["histograms of selected candidates"])

p("P12", "Replacement policies keep exactly the documented survivors",
  "The next population has the population size, consists only of current candidates and children with none used more often than it occurs, and is exactly the children for generational replacement, the n best of the current population plus the first children for elitism with n elites, and the best of parents and children together for best-keeping replacement. With elitism (n at least 1) or best-keeping replacement, the best fitness of the population never gets worse from one generation to the next.",
  ["inputs", "histories", "configurations"], "all fitness distributions with ties and duplicates, all elite counts from 0 to the population size, run histories",
  "The tests use a few small vectors; monotonicity over runs with all operators is not observed.",
  ["src/algorithm/soga_replacement.cpp", "src/algorithm/soga_replacement.hpp", "src/algorithm/single_objective.cpp", "src/algorithm/algorithm_base.impl.hpp"],
  [("nextPopulationImpl()", "src/algorithm/soga_replacement.cpp"), ("index based population assembly", "src/algorithm/algorithm_base.impl.hpp")],
  [], ["replacement calls on generated fitness matrices", "recorded runs"])

p("P13", "NSGA-II selects survivors by front and crowding distance and mates by them",
  "From parents and children, NSGA-II keeps whole non-dominated fronts in order and fills the rest from the next front with the candidates of largest crowding distance, computed over that front with infinite distance for the extremes of each objective. Its tournament prefers the better front and then the larger crowding distance, where front and distance are those of the candidates actually in the current population.",
  ["inputs", "histories", "configurations"], "all fitness matrices (ties, duplicates, collinear, single front, all dominated), 1 to many objectives, population sizes, successive generations",
  "The tests check a small number of points and hypervolumes of benchmark runs, which are insensitive to wrong distances or stale ranks.",
  ["src/algorithm/nsga2.cpp", "src/algorithm/nsga2.hpp", "src/algorithm/nd_sort.cpp"],
  [("crowding distances", "src/algorithm/nsga2.cpp"), ("survivor selection", "src/algorithm/nsga2.cpp"), ("crowded tournament", "src/algorithm/nsga2.cpp")],
  [("ranks_, dists_", "per candidate front and crowding distance", "src/algorithm/nsga2.hpp")], ["survivor indices and selection histograms"])

p("P14", "NSGA-III keeps whole fronts and fills the rest by reference point niching",
  "From parents and children, NSGA-III keeps whole non-dominated fronts in order and fills the rest only with distinct candidates of the next front, so no candidate of a better front is dropped for a worse one. Candidates of the split front are taken by reference line niching: an emptiest niche among the niches that still have unselected candidates of the split front is served next (equally empty ones have equal chances), and a niche receives its candidates closest to the reference line first. In its tournament a candidate of the same niche loses to a better front and then to a smaller distance to the line; candidates of different niches have equal chances.",
  ["inputs", "histories", "configurations"], "all fitness matrices including degenerate hyperplanes, equal points, one objective value constant, population sizes and numbers of objectives",
  "The tests only check benchmark hypervolumes with wide limits.",
  ["src/algorithm/nsga3.cpp", "src/algorithm/nsga3.hpp", "src/algorithm/nd_sort.cpp"],
  [("survivor selection and niching", "src/algorithm/nsga3.cpp"), ("ideal/extreme/nadir point updates", "src/algorithm/nsga3.cpp")],
  [], ["survivor indices against the recorded fitness matrices"])

p("P15", "Non-dominated sorting and Pareto front algorithms agree with the definition",
  "For any fitness matrix, every non-dominated sorting algorithm assigns each point the front number given by repeatedly removing the non-dominated points, returns every index exactly once ordered by front (up to the requested number of points and always whole fronts), and every Pareto front algorithm and the merging of two Pareto sets returns exactly the non-dominated points including all duplicates; values that differ by less than the tolerances count as equal in all of them. The results do not depend on the algorithm chosen, the order of the points beyond permutation, or the number of threads.",
  ["inputs", "schedules", "configurations"], "all matrices: ties, duplicates, chains, antichains, 1 to many objectives, infinities, every requested count and thread count",
  "The tests compare on a few small matrices; the algorithms differ exactly on ties, duplicates and large parallel inputs.",
  ["src/algorithm/nd_sort.cpp", "src/algorithm/nd_sort.hpp", "src/core/population.cpp", "src/core/population.hpp", "src/utility/math.cpp"],
  [("fast, dominance-degree, efficient and merge based sorting", "src/algorithm/nd_sort.cpp"), ("findParetoFront variants", "src/core/population.cpp"), ("mergeParetoSets", "src/core/population.hpp")],
  [], ["results on generated matrices"])

p("P16", "Reference line generators return distinct points of the unit simplex",
  "For every number of objectives and requested count, each reference line generator returns exactly the requested number of points, every point has one nonnegative coordinate per objective and the coordinates sum to one, and the points spread over the whole simplex without collapsing to fewer distinct points than requested (except with a single objective). Picked subsets contain only points of the candidate set, each at most once, and are spread at least as well as choosing the farthest remaining candidate each time.",
  ["inputs", "configurations"], "all dimensions (1 to about 12) and counts, random states",
  "The tests check a few (dimension, count) combinations.",
  ["src/algorithm/reference_lines.cpp", "src/algorithm/reference_lines.hpp", "src/utility/qrng.hpp"],
  [("simplex mappings, lattices and sparse subset picking", "src/algorithm/reference_lines.cpp"), ("quasi-random points", "src/utility/qrng.hpp")],
  [], ["generated point sets"])

p("P17", "A parallel loop runs every iteration exactly once and reports errors",
  "A parallel loop calls its body exactly once for every element of the range and returns only after all calls have finished with their effects visible to the caller, for any range length, block size, number of threads, nesting depth, concurrent callers and thread count changes between loops. The loop uses as many threads as `execution_threads` was given (1 if 0) when it has at least that many elements. If calls throw, exactly one of the thrown exceptions reaches the caller after no further body of that loop is running, and the pool remains fully usable.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "range lengths and block sizes around multiples of each other, 1 to 16 threads, nested and concurrent loops, throwing bodies on any thread, resizing between loops",
  "The tests use small loops without delays; lost or repeated iterations, early returns and dangling frames depend on the schedule.",
  ["src/utility/thread_pool.hpp", "src/utility/latch.hpp", "src/utility/concurrent_queue.hpp"],
  [("execute_loop()", "src/utility/thread_pool.hpp"), ("latch", "src/utility/latch.hpp"), ("work queues", "src/utility/concurrent_queue.hpp")],
  [("worker queues", "scheduled tasks", "src/utility/thread_pool.hpp")], ["per element call counters", "running body counter", "thread and address sanitizer"])

p("P18", "The concurrent queue is a linearizable FIFO with a clean close",
  "Every element successfully pushed to the concurrent queue is popped exactly once and in first-in first-out order, across any number of concurrent producers and consumers. A pop blocks only while the queue is empty and open; after closing, pushes are refused, the remaining elements can still be popped, and every blocked consumer wakes up and gets nothing.",
  ["schedules", "histories"], "all interleavings of pushes, pops, closes and clears by several threads, sampled with injected delays and checked for linearizability",
  "The unit tests use the queue from at most a few threads in fixed patterns.",
  ["src/utility/concurrent_queue.hpp"],
  [("mutex and condition variable protocol", "src/utility/concurrent_queue.hpp")],
  [], ["invocation/response histories"])

p("P19", "Locks and latches provide exclusion, visibility and wake-up",
  "The spinlock admits at most one holder, the shared spinlock admits either one exclusive holder or any number of shared holders, try-lock operations succeed only when that stays true and fail only when the lock is held in a conflicting way or another acquisition is in progress, and writes made under the lock are visible to the next holder. A wait on the latch returns only after the count has reached zero and always returns then, with the effects of the counting threads visible.",
  ["schedules", "histories"], "all interleavings of lock, try-lock and unlock in both modes and of arrivals and waits",
  "The tests contend on the locks in one fixed pattern without a race detector or holder monitor.",
  ["src/utility/spinlock.hpp", "src/utility/shared_spinlock.hpp", "src/utility/latch.hpp"],
  [("atomic flag and counter protocols", "src/utility/spinlock.hpp, src/utility/shared_spinlock.hpp"), ("latch", "src/utility/latch.hpp")],
  [], ["holder counters", "ThreadSanitizer happens-before on data guarded by the locks"])

p("P20", "RCU readers never see reclaimed data and writers never wait for later readers",
  "Data reached through a read-side critical section stays valid until that section ends: memory retired by a writer is not reclaimed while any reader that could have seen it is still in its critical section, for any number of concurrent readers and writers, nested read locks and short-lived threads. Once published, a new value is what later readers see, every retired object is reclaimed at most once, and a synchronisation waits only for readers that started before it.",
  ["schedules", "histories"], "all interleavings of readers, writers, thread start and exit, with poisoned retired memory",
  "The unit test runs a short fixed pattern; use after reclamation needs a particular interleaving and is silent without instrumentation.",
  ["src/utility/rcu.hpp", "src/utility/rng.hpp"],
  [("epoch counters, read_lock and synchronize", "src/utility/rcu.hpp"), ("thread registration", "src/utility/rcu.hpp, src/utility/rng.hpp")],
  [], ["poisoned objects", "AddressSanitizer/ThreadSanitizer", "grace period monitor"])

p("P21", "Random number functions stay in range, unique and unbiased",
  "For all arguments, random integers lie in their closed interval, random reals in their half-open interval, random indices and elements are valid positions, sampled subsets contain distinct values of the range in the requested number, and samples from a cumulative distribution have nonzero probability. Each function follows its named distribution (uniform, normal, binomial, Poisson, discrete), for every supported arithmetic type and for ranges as wide as the type.",
  ["inputs"], "all argument combinations including equal bounds, full type ranges, sampling everything or nothing, and small and large ranges",
  "The tests draw some values with fixed arguments; biases, range ends and duplicates at special sizes need many arguments and statistics.",
  ["src/utility/rng.hpp", "src/utility/distribution.hpp", "src/utility/bounded_value.hpp"],
  [("random* and sample* functions", "src/utility/rng.hpp"), ("distributions", "src/utility/distribution.hpp")],
  [], ["values, histograms"])

p("P22", "Random generators give reproducible, independent and thread-safe streams",
  "A generator seeded with a value always produces the same sequence, equal to its published reference algorithm, copies continue identically and jumps skip as documented. The global generator gives every thread its own stream that does not overlap with the streams of other threads, can be re-seeded while threads start and exit (though not while they draw) without races, and after seeding each thread's stream is determined by the seed; the quasi-random generator stays in the unit cube with low discrepancy.",
  ["inputs", "schedules", "histories"], "all seeds, thread start and exit orders, concurrent seeding",
  "The tests check a few values and a single thread.",
  ["src/utility/rng.hpp", "src/utility/rcu.hpp", "src/utility/qrng.hpp"],
  [("splitmix/xoshiro style engines and jump", "src/utility/rng.hpp"), ("per-thread generators of the global engine", "src/utility/rng.hpp"), ("additive recurrence", "src/utility/qrng.hpp")],
  [("tls generators", "one per thread", "src/utility/rng.hpp")], ["sequences per thread"])

p("P23", "Stop conditions stop a run exactly when their documented criterion is met",
  "A run ends at the first generation whose observed history meets the stop condition's documented criterion (evaluation budget reached, some candidate at or above the fitness threshold in every objective, mean or best fitness not improved by at least delta in any objective for more generations than the patience), and otherwise at the maximum generation. And, or and not combinations of conditions of any depth are equivalent to evaluating each condition on the whole history in every generation, and conditions start fresh in every run.",
  ["histories", "configurations"], "all fitness histories, parameters and compositions of conditions, including reused condition objects",
  "The tests check single conditions on a few generations; patience counters inside compositions depend on the history.",
  ["src/stop_condition/"],
  [("conditions", "src/stop_condition/stop_condition.cpp"), ("composition", "src/stop_condition/composite.hpp"), ("max generation check", "src/stop_condition/stop_condition_base.hpp")],
  [("cntr_, best fitness", "stall counters", "src/stop_condition/stop_condition.hpp")], ["recorded runs against a reference evaluation of the recorded history"])

p("P24", "Tracked metrics equal their definition on every generation of the run",
  "Each tracked metric has exactly one entry per completed generation including the initial one, and every entry equals the metric's definition recomputed from that generation's recorded population: per-objective minimum, maximum, mean and sample variance and standard deviation of the fitness, ideal and nadir points, evaluation counts, hypervolume relative to the given reference point, and hypervolume relative to one common reference point for all generations. Metrics start empty in every run and are the same for any number of threads and set of other tracked metrics.",
  ["histories", "inputs", "configurations"], "all run histories, objective counts, metric sets, reused GA objects",
  "The tests compare single calls on a fixed matrix or only the size of the data.",
  ["src/metrics/"],
  [("metric updates", "src/metrics/*.cpp"), ("metric set", "src/metrics/metric_set.hpp"), ("population statistics", "src/metrics/pop_stats.cpp")],
  [("data of the metrics", "one entry per generation", "src/metrics/monitor.hpp")], ["recorded populations and metric data"])

p("P25", "The hypervolume of a point set is exact",
  "For any set of points and reference point below them, the computed hypervolume equals the volume of the union of the boxes between the reference point and the points, up to rounding. It does not depend on point order, duplicates, dominated points or the number of threads, is monotone when points are added, and points on the reference point's boundary contribute nothing.",
  ["inputs", "schedules"], "all point sets with 1 to 6 objectives including ties, duplicates, collinear and boundary points, thread counts",
  "The tests compare a few sets with known values.",
  ["src/metrics/pop_stats.cpp", "src/metrics/distribution_metrics.cpp"],
  [("recursive exclusive hypervolumes", "src/metrics/pop_stats.cpp")],
  [], ["results against inclusion-exclusion and grid oracles"])

p("P26", "The small vector behaves like a standard vector, with exact lifetimes",
  "After any sequence of operations the small vector holds the same elements as a standard vector after the same operations, also when arguments are elements of the vector itself or come from ranges of another value type, and whether the elements are stored inline or on the heap. Every element constructed is destroyed exactly once and never used afterwards, also when copying, moving, allocating or constructing throws, in which case the vector is left valid and appends and reserves leave it unchanged.",
  ["histories", "fault_sequences", "inputs"], "all operation sequences around the inline capacity, element types (trivial, heap-owning, over-aligned, throwing) and injected exceptions at every construction",
  "The unit tests run fixed short sequences, and memory and lifetime errors are silent without instrumentation.",
  ["src/utility/small_vector.hpp", "src/utility/scope_exit.hpp"],
  [("storage management", "src/utility/small_vector.hpp"), ("scope guards", "src/utility/scope_exit.hpp")],
  [("first_, last_, last_alloc_", "storage", "src/utility/small_vector.hpp")], ["reference model", "lifetime ledger", "AddressSanitizer"])

p("P27", "The fitness cache is an exact FIFO map and the ring buffer an exact deque",
  "The cache never holds more than its capacity, finds exactly the most recently inserted distinct keys that were not evicted in first-in first-out order with their latest value, and stays consistent over copies, moves, clears and capacity resets. The circular buffer holds the same sequence as a bounded double-ended queue after any sequence of operations, overwriting the opposite end when full, with random access iterators that obey the usual laws and exact element lifetimes, also under exceptions.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences around wrap-around and full/empty states, colliding keys, throwing elements",
  "The unit tests run short fixed sequences.",
  ["src/utility/cache.hpp", "src/utility/circular_buffer.hpp", "src/utility/iterators.hpp"],
  [("eviction order", "src/utility/cache.hpp"), ("wrap-around indexing", "src/utility/circular_buffer.hpp")],
  [], ["reference models", "lifetime ledger"])

p("P28", "Matrix, bitset and iterator types match their reference models",
  "The matrix behaves like a vector of equally long rows under any sequence of element, row, append, resize, copy and swap operations, with row views that read and write the matrix. The dynamic bitset behaves like a vector of bools for every size, including growing, filling, complement, counting, searching and comparing with sizes that are not multiples of the word size, and all iterator types obey the random access iterator laws.",
  ["histories", "inputs"], "all operation sequences and sizes (0, 1, around word multiples)",
  "The unit tests cover fixed small sizes.",
  ["src/utility/matrix.hpp", "src/utility/dynamic_bitset.hpp", "src/utility/iterators.hpp", "src/utility/bit.hpp"],
  [("row proxies and storage layout", "src/utility/matrix.hpp"), ("block arithmetic", "src/utility/dynamic_bitset.hpp"), ("iterator interfaces", "src/utility/iterators.hpp")],
  [], ["reference models"])

p("P29", "Numeric helpers obey their laws and the cone tree finds the true best match",
  "Float comparisons under the configured tolerances are consistent with each other (less, greater and equal are mutually exclusive and exhaustive, equal is symmetric and contains exact equality, and zero tolerances mean exact comparison), Pareto comparison agrees with its element-wise definition and is antisymmetric, and distances, norms, means and deviations agree with their definitions. The cone tree returns, for any point set and query, a stored point whose inner product with the query is the maximum, and scoped tolerance changes are always restored.",
  ["inputs", "configurations"], "all finite and infinite values, signed zeros, tolerances from 0 upwards, point sets with duplicates",
  "The tests check some sample pairs with default tolerances and random point sets without degenerate cases.",
  ["src/utility/math.hpp", "src/utility/math.cpp", "src/utility/cone_tree.hpp", "src/utility/cone_tree.cpp"],
  [("tolerance comparisons", "src/utility/math.hpp"), ("branch and bound search", "src/utility/cone_tree.cpp")],
  [("tolerances", "absolute and relative tolerance", "src/utility/math.hpp")], ["results on generated values"])

p("P30", "Benchmark problems match their definitions and declared optima",
  "For every built-in benchmark problem and dimension, the function value equals the published formula, declared bounds, variable and objective counts are consistent with each other and with the values returned, and the declared optimum has the declared optimal value. No point within the bounds is better than (for multi-objective problems: dominates) the declared optimum, and evaluations are pure functions safe to call from many threads.",
  ["inputs", "configurations"], "all problems, dimensions, objective counts and points of their domains including the corners",
  "The tests only evaluate the functions at their declared optimum.",
  ["src/problems/"],
  [("problem definitions", "src/problems/*.cpp")],
  [], ["function values against independent formulas"])

p("P31", "Sequence and functional helpers agree with their definitions",
  "For all inputs, the library's sorting, partial sorting, arg-min/max, searching, shuffling, selection, element-wise and set-like helpers return what their name documents: index permutations that order the range, prefixes that equal the full sort's prefix, positions of true minima and maxima, stable erasures, and unchanged inputs otherwise. Function reference, function composition and scope guard helpers call what they wrap exactly once with the same arguments, also when exceptions leave the scope.",
  ["inputs", "fault_sequences"], "all ranges including empty, single element, duplicates and already sorted; all splits of a range",
  "The unit tests use one or two fixed vectors per helper.",
  ["src/utility/algorithm.hpp", "src/utility/functional.hpp", "src/utility/utility.hpp", "src/utility/scope_exit.hpp"],
  [("index based algorithms", "src/utility/algorithm.hpp"), ("function wrappers", "src/utility/functional.hpp")],
  [], ["results against naive definitions"])

p("P32", "User-defined encodings get the same guarantees as the built-in ones",
  "A GA over a user-defined gene type (with or without bounds, of fixed or variable chromosome length, combined with built-in or user-defined operators that allow it) runs with every algorithm and gives the same guarantees as the built-in encodings: the user's generateCandidate makes every candidate that is not preset, bounded genes stay within their bounds, fixed lengths are kept, evaluated candidates carry the fitness of their own chromosome with and without a fitness cache, returned solutions are exactly the distinct optimal ones, and the GA can be run again after any run or failed run.",
  ["inputs", "configurations", "histories"], "gene types with and without bounds, variable chromosome lengths, cache sizes, algorithms, initial populations, repeated and failed runs",
  "The tests instantiate one user-defined encoding for one run at most and do not look at the candidates.",
  ["src/core/ga_base.decl.hpp", "src/core/ga_base.impl.hpp", "src/core/candidate.hpp", "src/crossover/crossover_base.impl.hpp", "src/mutation/mutation_base.impl.hpp", "src/encoding/gene_types.hpp"],
  [("GA<T>::generateCandidate and the generic run loop", "src/core/ga_base.impl.hpp"), ("chromosome hashing and comparison", "src/core/candidate.hpp")],
  [], ["generateCandidate calls", "fitness calls", "generation end callback", "GA::solve() result"])

p("P33", "Equivalent ways to construct and configure a GA are equivalent",
  "The documented ways of saying the same configuration - constructor arguments or setters, objects by value, unique pointers or callables, per-gene or common bounds, passing the limits and initial population to solve() or not, omitted parts that have documented defaults - give GAs whose runs with the same seed are identical, whose getters report what was set, and for which omitted parts behave as the documented defaults (the algorithm and rates deduced from the problem). A GA that is moved behaves as the original would have.",
  ["configurations", "inputs"], "all pairs of equivalent ways to say one configuration, for all encodings, algorithms, stop conditions, bounds, rates and initial populations",
  "The tests use a few of the many constructors and setters and never compare the runs that result from two of them.",
  ["src/core/ga_base.decl.hpp", "src/core/ga_base.impl.hpp", "src/core/ga_info.hpp", "src/core/ga_info.cpp", "src/encoding/", "src/algorithm/single_objective.hpp", "src/algorithm/single_objective.cpp", "src/core/fitness_function.hpp"],
  [("constructors and setters", "src/core/ga_base.impl.hpp, src/core/ga_info.cpp"), ("default deduction", "GA::useDefaultAlgorithm, GA::initializeAlgorithm"), ("solve overloads", "src/core/ga_base.impl.hpp")],
  [("use_default_algorithm_", "algorithm is deduced", "src/core/ga_info.hpp"), ("use_default_mutation_rate_", "mutation rate is deduced", "src/core/ga_base.decl.hpp")],
  ["recorded populations of runs with the same seed", "getters"])

p("P34", "User-defined components are called exactly as the documentation describes",
  "During a run, each user-supplied part is called with the arguments and at the points documented: the algorithm, selection, replacement, metrics and stop condition are initialised once per run before their first use, selections are prepared once per generation with the current population's fitness before any selection of that generation, exactly the selections, crossovers, mutations and repairs needed for a population of children are made on candidates that came from the step before, repair follows mutation, replacement sees the parents followed by the evaluated children and its choice is exactly the next population, and metrics, stop condition and callback see each finished generation once.",
  ["histories", "configurations", "fault_sequences"], "all combinations of user-defined algorithms, selections, replacements, operators, repairs, metrics, stop conditions and callbacks, objects or callables, thread counts, repeated and failed runs",
  "The tests replace one component at a time with a trivial lambda and do not record when and with what it is called.",
  ["src/core/ga_base.impl.hpp", "src/algorithm/algorithm_base.impl.hpp", "src/algorithm/single_objective.cpp", "src/algorithm/selection_base.hpp", "src/algorithm/replacement_base.hpp", "src/stop_condition/stop_condition_base.hpp", "src/metrics/metric_set.hpp"],
  [("initializeAlgorithm(), advance(), updatePopulation()", "src/core/ga_base.impl.hpp"), ("SingleObjective forwarding", "src/algorithm/single_objective.cpp")],
  [], ["every call of every user-supplied part"])

p("P35", "Parameters of built-in components have their documented defaults and effect",
  "For every parameter of every built-in operator, selection, replacement, algorithm, stop condition and of the GA itself: a part constructed without the parameter has the documented default and behaves as one constructed with that value given; the constructor's argument and the setter mean the same and the getter returns it; copies, assignments and moves keep it; two parts with the same parameters run identically from the same seed; and the value has an effect, in the direction that is documented (mutation distances, spread of the children).",
  ["inputs", "configurations"], "all parameter values of all components, all ways to give them, all copies",
  "The tests construct most components with default arguments only, and never compare the behaviour of two ways to set a parameter.",
  ["src/crossover/", "src/mutation/", "src/algorithm/soga_selection.hpp", "src/algorithm/soga_selection.cpp", "src/algorithm/soga_replacement.hpp", "src/algorithm/soga_replacement.cpp", "src/stop_condition/stop_condition.hpp", "src/core/ga_info.hpp"],
  [("constructors, setters and getters", "src/crossover/*.hpp, src/mutation/*.hpp, src/algorithm/soga_*.hpp, src/stop_condition/stop_condition.hpp")],
  [], ["operator results for the same seed", "getters"])

p("P36", "Every documented build of the library behaves the same",
  "The guarantees do not depend on how the library was built: a seeded run gives the same fitness evaluations, populations and solutions in an optimised Release build without assertions (NDEBUG), without RTTI and with exceptions disabled in the library as in a debug build with assertions, and the documented Release build (its floating-point flags, as a shared library) upholds the same guarantees for runs, operators, selection, sorting, hypervolumes, metrics, containers, random numbers and synchronisation.",
  ["configurations", "inputs"], "all runs in all documented build configurations",
  "The tests are built once, with assertions enabled: the Release configuration that the install guide recommends is never executed by them.",
  ["CMakeLists.txt", "src/utility/utility.hpp", "src/core/", "src/algorithm/", "src/crossover/", "src/mutation/", "src/metrics/", "src/utility/"],
  [("GAPP_ASSERT, GAPP_TRY, GAPP_THROW, GAPP_API", "src/utility/utility.hpp"), ("build options", "CMakeLists.txt")],
  [], ["recorded runs of the same seeds in several builds"])

p("P37", "Initial populations and matings are unbiased, independent random choices",
  "The candidates that a run generates for its initial population (those the user doesn't supply) are independent uniform samples of the allowed chromosomes: every gene takes all of its allowed values with equal chances, independently of the other genes, candidates and runs, and every permutation is equally likely. The two parents of every crossover are independent selections of the algorithm, also when a generation is created on many threads.",
  ["inputs", "configurations", "schedules"], "all encodings, bounds, population sizes, numbers of preset candidates and threads",
  "A biased or duplicated sample still consists of valid candidates and runs still improve, so only the distribution over many runs shows it.",
  ["src/encoding/binary.cpp", "src/encoding/integer.cpp", "src/encoding/real.cpp", "src/encoding/permutation.cpp", "src/core/ga_base.impl.hpp", "src/utility/rng.hpp"],
  [("generateCandidate", "src/encoding/*.cpp"), ("generatePopulation, advance", "src/core/ga_base.impl.hpp")],
  [], ["population of the first generation", "parents passed to the crossover"])

p("P38", "Memory in use does not grow with time",
  "The memory that the library holds stays constant once its structures have reached the size that the configuration needs: with the number of generations of a run (without tracked metrics and without keeping all optimal solutions; at most up to the size of the fitness cache), with the number of runs of a GA object or of GA objects created and destroyed, also when runs fail with an exception, with changes of the number of execution threads, with user threads that use the random number functions or publish values and end, and with the number of elements that passed through a full cache or a queue.",
  ["histories", "configurations", "fault_sequences"], "long runs, many runs, failed runs and many short-lived threads over all encodings, algorithms, operators, cache sizes and thread counts",
  "A structure that is reachable but never shrinks is no leak for a leak checker, breaks no assertion, and only shows in histories far longer than a unit test's.",
  ["src/core/ga_base.impl.hpp", "src/utility/cache.hpp", "src/utility/rcu.hpp", "src/utility/rng.hpp", "src/utility/thread_pool.hpp", "src/utility/concurrent_queue.hpp", "src/algorithm/nsga2.cpp", "src/algorithm/nsga3.cpp"],
  [("GA<T>::advance, updatePopulation", "src/core/ga_base.impl.hpp"), ("fifo_cache", "src/utility/cache.hpp"), ("thread registration", "src/utility/rng.hpp, src/utility/rcu.hpp")],
  [], ["live heap bytes of the allocator at generation ends and between runs"])

with open(OUT, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
