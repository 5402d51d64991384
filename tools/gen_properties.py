#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
GA='optlib/src/genetic/mod.rs'; PSO='optlib/src/particleswarm/mod.rs'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Genetic best solution is a really evaluated point, best of the survivors",
 "Whenever the genetic optimizer reports a best solution (as the result of a run, to loggers and stop checkers, or through the population), its value is exactly a value the goal function returned for that very point in this run. After every completed generation with survivors it is the smallest goal value among the individuals that survived this generation (NaN counts as larger than any number), and the reported worst individual has the largest non-NaN one. A run returns exactly the solution it last reported to its loggers.",
 ["inputs","histories","configurations"],"every goal function (also noisy, NaN- or infinity-valued, tied), operator set, random stream, number of generations and pauses",
 "The integration tests look only at the final distance to the optimum of four smooth functions; none compares what is reported with what the goal really returned, or with the other survivors, generation by generation.",
 [GA],[("best/worst update after selection",GA+": update_best_worst_individuals, individuals_min_cmp, individuals_max_cmp"),("result of a run",GA+": next_iterations")],
 ["Goal::get calls","last Selection::kill call of a generation","Logger and StopChecker callbacks","Pairing::get_pairs population view","find_min/next_iterations result"])
p("C02","Shipped selections never lose the best genetic solution found so far",
 "With the shipped selections (kill non-finite fitness, kill outside the intervals, limit population to at least one) the best goal value reported by the genetic optimizer never gets worse from one generation to the next. The result of a run with at least one generation equals the smallest goal value among all points evaluated during the run, the initial population included, that the configured validity selections accept (NaN and positive infinity count as equally bad, worse than every other value).",
 ["inputs","histories","configurations"],"every goal function, population size and limit, operator set, random stream and run length",
 "Only convergence to a tolerance after thousands of generations is tested, which still succeeds when good individuals are sometimes discarded; losing the best needs particular fitness orders.",
 [GA,"optlib/src/genetic/selection/mod.rs"],[("worst-first removal","optlib/src/genetic/selection/mod.rs: kill_worst"),("best tracking",GA+": update_best_worst_individuals")],
 ["Goal::get calls","Logger::next_iteration","find_min result"])
p("C03","Every genetic candidate passes each stage of its generation exactly once",
 "In each generation every family chosen by the pairing is crossed exactly once with exactly the chosen individuals in the chosen order; every child of a crossing is mutated exactly once; every mutated child is handed to the pre-birth stages in their configured order, and every child they keep (and nothing else) is evaluated by the goal function exactly once and joins the population with that value. Initial candidates are evaluated exactly once and skip the other stages.",
 ["inputs","histories","configurations"],"every number and size of families (also empty, repeated members), children per crossing, pre-birth stages that drop, add or alter candidates, any number of generations",
 "No test observes the data flow between operators; all run one fixed pipeline and look at the end result only.",
 [GA],[("generation loop",GA+": next_iterations, run_pairing"),("birth",GA+": Population::push/append")],
 ["Creator","Pairing","Cross","Mutation","PreBirth","Selection","Goal callbacks with uniquely tagged candidates"])
p("C04","No genetic individual is lost, duplicated, revived or re-scored",
 "The individuals offered to selection are exactly the survivors of the previous generation plus this generation's newborns, all alive; the selections act in configured order and see each other's kills; the next generation starts with exactly the individuals left alive. An individual's point and goal value never change during its life, killed individuals never come back, and the population's own counts, indexing and iteration agree with its content.",
 ["inputs","histories","configurations"],"every sequence of generations and every pattern of kills, including killing all or none",
 "No test inspects a population between generations.",
 [GA],[("removal of the dead",GA+": remove_dead"),("append",GA+": append"),("views",GA+": iter, Index, len, len_alive, get_agents")],
 ["Population as seen by Pairing, PreBirth and Selection"])
p("C05","Limiting the population removes exactly the surplus, worst first",
 "Applying a population limit leaves exactly min(limit, live individuals) alive, and removing a number of worst individuals kills exactly that many live ones (all, if there are fewer; none for zero). Nobody killed has a better goal value than somebody left alive, with NaN and positive infinity counting as worst, whoever was already dead before.",
 ["inputs","histories"],"every vector of goal values (ties, NaN, infinities), pattern of already dead individuals, limit and count, also after changing the limit",
 "No unit test covers the selection module at all; the integration tests pass with a wrong choice of victims.",
 ["optlib/src/genetic/selection/mod.rs"],[("victim choice","optlib/src/genetic/selection/mod.rs: kill_worst, LimitPopulation::kill, set_limit")],
 ["alive flags before and after Selection::kill / kill_worst"])
p("C06","Validity selections kill exactly the invalid individuals",
 "The non-finite-fitness selection kills every live individual whose goal value is NaN or infinite and no other; the interval selection kills every individual with a gene that is NaN, infinite or outside its closed interval and no other. Nobody is ever revived by a selection.",
 ["inputs"],"every chromosome and goal value including the interval ends, neighbours of the ends, signed zeros, NaN and infinities, f32 and f64",
 "No unit test covers the selections.",
 ["optlib/src/genetic/selection/mod.rs","optlib/src/genetic/selection/vec_float.rs"],[("fitness filter","optlib/src/genetic/selection/mod.rs: KillFitnessNaN"),("gene filter","optlib/src/genetic/selection/vec_float.rs: CheckChromoInterval")],
 ["alive flags before and after Selection::kill"])
p("C07","Genetic children outside the allowed box are never born or evaluated",
 "The pre-birth interval check keeps exactly the candidates whose genes are all finite and inside their closed intervals, unchanged and in order. A genetic optimizer with the random creator and this check over the same intervals never evaluates the goal function outside the box and never returns a solution outside it.",
 ["inputs","histories","configurations"],"every crossing/mutation (they produce infinities, NaN and huge genes), interval vector, gene type, random stream and run length",
 "No unit test covers the pre-birth check; the integration tests never look at the evaluated points.",
 ["optlib/src/genetic/pre_birth/vec_float.rs",GA,"optlib/src/genetic/creation/vec_float.rs"],[("box filter","optlib/src/genetic/pre_birth/vec_float.rs: CheckChromoInterval"),("ordering of stages",GA+": next_iterations")],
 ["PreBirth::pre_birth input/output","Goal::get arguments"])
p("C08","Pairing selects valid parents, reaches everybody, and tournaments prefer better",
 "Random pairing of n individuals yields n/2 (rounded down) pairs, and a tournament yields exactly the configured number of families with exactly the configured number of partners; every member is the index of an individual of the given population and an empty population yields no families. Every individual can be chosen and random pairing is uniform; a tournament member is the best of (rounds + 1) uniformly drawn individuals, so more rounds favour better individuals and NaN never beats a number.",
 ["inputs","configurations"],"every population size (0, 1, 2, ... hundreds), goal values with ties and NaN, configured counts including zero, random stream with extreme values",
 "No unit test covers the pairing module.",
 ["optlib/src/genetic/pairing/mod.rs"],[("uniform choice","optlib/src/genetic/pairing/mod.rs: RandomPairing::get_pairs"),("tournament","optlib/src/genetic/pairing/mod.rs: Tournament::get_pairs")],
 ["Pairing::get_pairs results over many draws"])
p("C09","Single-point bit crossing takes low bits of parent 2, high bits of parent 1",
 "For every width (8, 16, 32, 64 bits, signed, unsigned and float) and every position p with 0 < p < width, single-point crossing returns the value whose p lowest bits are those of the second parent and whose other bits are those of the first. The bitwise float crossing returns one such child with p drawn from all positions 1..width-1, and the exponent/mantissa crossing returns one child built from a single-point crossing of the decoded mantissas, one of the decoded exponents and the sign of one of the parents, every position and either sign being possible.",
 ["inputs"],"every pair of parent bit patterns (also NaN payloads, infinities, subnormals, zeros of both signs), every position, every random stream",
 "Doc-tests check a handful of positions on all-zero / all-one parents, where swapped masks and neighbouring positions of mixed patterns cannot show; the randomised crossings have no test.",
 ["optlib/src/genetic/cross/mod.rs"],[("masks","optlib/src/genetic/cross/mod.rs: cross_u8..cross_f64"),("random position","optlib/src/genetic/cross/mod.rs: CrossBitwise, FloatCrossExp")],
 ["return values"])
p("C10","Mean, geometric and per-gene vector crossings combine the right genes",
 "The mean and geometric-mean crossings return exactly one child equal (to rounding) to the arithmetic, respectively geometric, mean of all given parents and so lie between the smallest and the largest parent (for positive parents in the geometric case), whenever the sum or product of the parents is representable in the gene type. The per-gene vector crossing of two parents returns one child with as many genes as the first parent, whose n-th gene is the single-gene crossing of the parents' n-th genes in parent order.",
 ["inputs"],"every number of parents >= 2, moderate magnitudes, float and integer gene types, chromosome length 0..hundreds, any single-gene crossing with one child",
 "Doc-tests use two or three small parents (two of the geometric ones compare without an absolute value, so they accept any small result); vector crossing has no test.",
 ["optlib/src/genetic/cross/mod.rs"],[("means","optlib/src/genetic/cross/mod.rs: CrossMean, FloatCrossGeometricMean"),("per-gene loop","optlib/src/genetic/cross/mod.rs: VecCrossAllGenes")],
 ["return values; calls of the inner Cross"])
p("C11","Mutation flips the configured number of random bits with the configured chance",
 "Bitwise mutation with k flips returns a value that differs from the gene in at most k bits, with the parity of k (exactly one bit for k = 1, none for k = 0), and every bit position is equally likely. Vector mutation keeps the chromosome length and order, and each gene independently is either bit-identical or the single-gene mutation of that same gene, the latter with the configured percentage (never at 0, always at 100).",
 ["inputs"],"every gene bit pattern, k, percentage, chromosome length and random stream (extreme draws included)",
 "The mutation module has no unit test.",
 ["optlib/src/genetic/mutation/mod.rs"],[("bit flips","optlib/src/genetic/mutation/mod.rs: BitwiseMutation"),("percentage","optlib/src/genetic/mutation/mod.rs: VecMutation")],
 ["return values; calls of the inner Mutation"])
p("C12","Random start points: right count and dimension, inside and filling the box",
 "The genetic creator, the random vector creator and the swarm's coordinate and velocity initialisers return exactly the requested number of points, one component per interval, each component inside its closed interval; the zero-velocity initialiser returns all-zero vectors. The components are uniform over the interval (integer types: over all its values, both ends included, up to the full range of the type), independent of each other, and fresh on every call; empty or inverted intervals are rejected where documented by the constructor or creation call.",
 ["inputs","configurations"],"every interval vector with finite width (tiny, huge, negative, one-ulp wide), f32/f64 and integer components, counts, random streams including extreme draws",
 "Tests use three comfortable intervals and check only the range, for two of the four creators; nothing checks the swarm initialisers, spread, independence or extreme draws.",
 ["optlib/src/genetic/creation/vec_float.rs","optlib/src/tools/mod.rs","optlib/src/particleswarm/initializing/mod.rs"],[("sampling","optlib/src/genetic/creation/vec_float.rs: RandomCreator::create"),("sampling","optlib/src/tools/mod.rs: RandomVectorCreator::create_vec"),("initialisers","optlib/src/particleswarm/initializing/mod.rs")],
 ["return values"])
p("C13","Swarm best is the best point ever evaluated and never worsens",
 "After initialisation and after every iteration the particle swarm's reported best solution is a point really evaluated in this run with exactly the value the goal returned for it, and its value is the smallest finite goal value of all points evaluated so far in the run (non-finite values never beat finite ones), so it never gets worse. A run returns exactly the solution it last reported to its loggers.",
 ["inputs","histories","configurations"],"every goal function (noisy, NaN, infinite, tied, plateau), velocity rule, swarm size, random stream, run length, pauses",
 "No end-to-end swarm test is stable enough to be run; the unit tests check one best-of-two choice.",
 [PSO],[("best update",PSO+": update_best_particle, find_best_particle, compare_floats, replace_particles")],
 ["Goal::get calls","Logger/StopChecker callbacks","find_min result"])
p("C14","Each particle moves once per iteration by its corrected velocity",
 "In every iteration each particle gets exactly one new velocity computed from its own current state, passed through all velocity corrections in configured order; its new position is its old position plus that corrected velocity, passed through all position corrections in configured order, and the goal is evaluated exactly once, at exactly the position the particle then occupies. Start positions pass the position corrections and are evaluated once; the swarm size never changes and every particle's reported value is the goal's value at its reported position.",
 ["inputs","histories","configurations"],"every swarm size and dimension, chain of corrections, velocity rule, goal function and run length",
 "The only end-to-end swarm test is excluded as flaky and looks at the final answer only.",
 [PSO],[("move loop",PSO+": next_iterations, Particle::move_to, renew_swarm")],
 ["VelocityCalculator","PostVelocityCalc","PostMove","Goal","Swarm::get_agents"])
p("C15","Velocity rules follow their published formulas",
 "The classic, canonical, inertia and negative-reinforcement velocity rules return, per dimension, the documented combination of the particle's current velocity, its own best (worst) position so far, the swarm's best (worst) position so far and of the current swarm, with the documented coefficients and with independent uniform random factors from [0, 1] drawn per term and dimension; best and worst go by goal value, non-finite values counting as the worst. Constant inertia is constant, and linear inertia falls linearly from its maximum at iteration 0 to its minimum at the configured last iteration and stays between the two for every iteration number.",
 ["inputs","histories","configurations"],"every coefficient setting, swarm history, dimension, iteration number and random factor (0, 1 and anything between)",
 "No test calls any velocity rule or inertia.",
 ["optlib/src/particleswarm/velocitycalc/mod.rs",PSO],[("formulas","optlib/src/particleswarm/velocitycalc/mod.rs"),("personal best/worst",PSO+": Particle::move_to"),("global/current best/worst",PSO+": Swarm")],
 ["VelocityCalculator::calc_new_velocity under controlled random streams"])
p("C16","Position corrections keep particles in the box and otherwise leave them alone",
 "The boundary correction leaves components inside their closed interval unchanged, moves finite outside ones to the nearest interval end and any non-finite one into the interval; random teleport either leaves a point bit-identical or replaces all components by uniform random ones inside the intervals, with the configured probability (never at 0, always at 1). A swarm with the boundary correction over a box never evaluates the goal outside the box.",
 ["inputs","histories","configurations"],"every point (NaN, infinities, ends, neighbours of ends), interval vector, probability, random stream with extreme draws, f32 and f64, exploding swarms",
 "Five unit tests use a few finite points; teleport and the end-to-end containment have none.",
 ["optlib/src/particleswarm/postmove/mod.rs",PSO],[("clamp","optlib/src/particleswarm/postmove/mod.rs: MoveToBoundary"),("teleport","optlib/src/particleswarm/postmove/mod.rs: RandomTeleport"),("application to start and moved points",PSO+": renew_swarm, next_iterations")],
 ["PostMove::post_move input/output","Goal::get arguments"])
p("C17","Velocity limits bound the speed, keep direction, leave slow particles alone",
 "For every finite velocity and non-negative limit, the per-dimension limit returns each component unchanged if its magnitude is within its limit and otherwise the limit with the component's sign; the absolute limit returns the velocity unchanged if its length is within the limit and otherwise a velocity of that length (to rounding) pointing in the same direction. The result is always finite.",
 ["inputs"],"every finite velocity (tiny to near overflow), limit, dimension, f32 and f64",
 "Three or four unit tests per limit with small round numbers; one compares the resulting length only.",
 ["optlib/src/particleswarm/postvelocitycalc/mod.rs"],[("limits","optlib/src/particleswarm/postvelocitycalc/mod.rs: MaxVelocityDimensions, MaxVelocityAbs")],
 ["PostVelocityCalc::correct_velocity input/output"])
p("C18","Runs stop exactly when their stop criterion says so",
 "An iteration limit N makes a run perform exactly N iterations; a threshold stops exactly at the first check at which the best goal value is not above it; the no-change criterion stops exactly when the best value has stayed within its delta for more than the configured number of iterations. The any/all composites stop exactly when any/all of their members would stop if each were consulted by itself at every check, whatever the member order or nesting, and the optimizers check the criterion exactly once before each iteration and do nothing after it says stop.",
 ["inputs","histories","configurations"],"every sequence of best values (also none, NaN, infinite, jumping by exactly delta), nesting of criteria, algorithm, several runs with one criterion object",
 "The stop-checker module has no unit test; integration tests stop at whichever criterion fires first.",
 ["optlib/src/tools/stopchecker/mod.rs",GA,PSO],[("criteria","optlib/src/tools/stopchecker/mod.rs"),("loop condition",GA+": next_iterations"),("loop condition",PSO+": next_iterations")],
 ["StopChecker::can_stop over generated state histories","iteration counts of real runs"])
p("C19","Pausing and resuming a run is equivalent to running it without a pause",
 "Stopping a run at any iterations and continuing it with a later stop criterion performs exactly the evaluations, in the same order and with the same random draws, and yields the same reported solutions and final result as the same run without the pauses; the iteration number continues and nothing is re-initialised or re-evaluated.",
 ["histories","configurations"],"every split of a run into segments, algorithm, operator set and random stream",
 "No test resumes a run.",
 [GA,PSO],[("continuation",GA+": next_iterations vs find_min"),("continuation",PSO+": next_iterations vs find_min")],
 ["Goal::get log","Logger::next_iteration log","results"])
p("C20","A new run on a used optimizer behaves like a run on a fresh optimizer",
 "Starting find_min again on an optimizer that already ran (to the end, paused, aborted by a panic of user code, or several times) performs exactly the same evaluations and returns the same result as a newly built optimizer given the same random draws: population, best and worst, iteration count, personal bests and shipped stop criteria carry nothing over.",
 ["histories","configurations"],"every algorithm, operator set, shipped stop criterion (nested too), earlier history and random stream",
 "One test runs an optimizer twice and only compares its statistics with the returned results.",
 [GA,PSO,"optlib/src/tools/stopchecker/mod.rs"],[("reset",GA+": Population::reset"),("reset",PSO+": Swarm::reset, renew_swarm"),("criterion state","optlib/src/tools/stopchecker/mod.rs: GoalNotChange")],
 ["Goal::get log","logger log","results"])
p("C21","Loggers see each run as start, resume, one call per iteration, finish",
 "In every run each configured logger receives start once (only from find_min, with iteration 0 and the initial agents already evaluated), then resume once, then exactly one call per completed iteration with consecutive iteration numbers, then finish once, in this order and in the order the loggers were configured. Each call shows the state after that step: the final call shows the same iteration number and best solution as the returned result and the last iteration call.",
 ["histories","configurations"],"every number of loggers, algorithm, number of iterations including zero, sequence of runs and resumptions",
 "Only the statistics logger's run counters are tested, on uninterrupted runs.",
 [GA,PSO,"optlib/src/tools/logging/mod.rs"],[("callbacks",GA+": find_min, next_iterations"),("callbacks",PSO+": find_min, next_iterations")],
 ["Logger callbacks"])
p("C22","Text loggers print the solutions the optimizer really had",
 "The verbose logger writes exactly one line per iteration that has a solution, with the iteration number, every component of the current best solution in order and its goal value, and the result logger writes at the end every component of the final solution, its goal value and the iteration count, or that no solution was found; all numbers are rounded correctly to the configured precision, whatever pieces the sink takes the text in. The time logger writes one whole number of milliseconds per finished run segment, consistent with the real duration.",
 ["inputs","histories"],"every solution (dimension 0.., huge, tiny, negative, NaN), precision, iteration number and run segmentation",
 "The loggers have no test.",
 ["optlib/src/tools/logging/mod.rs"],[("formatting","optlib/src/tools/logging/mod.rs: VerboseLogger, ResultOnlyLogger, TimeLogger")],
 ["bytes written to the Write sink"])
p("C23","Statistics record every run once, every iteration once, every goal call once",
 "A statistics logger attached to runs records for run number r its final solution and its best solution after each iteration, in order, so that results and convergence always have one entry per run with the same index, also when a run was paused and resumed or the logger was attached only before a resumption. Goal-call statistics pass the goal's values through unchanged and count every goal call exactly once, in the run it was made.",
 ["histories","configurations"],"every sequence of runs, pauses, resumptions and attachments, both algorithms, zero-iteration runs",
 "The tests cover one or two uninterrupted genetic runs and compare the counts of runs and the final results only; goal-call counting through a real run is untested.",
 ["optlib/src/tools/statistics/mod.rs"],[("recording","optlib/src/tools/statistics/mod.rs: StatisticsLogger, add_result, add_convergence"),("call counting","optlib/src/tools/statistics/mod.rs: GoalCalcStatistics, CallCountData")],
 ["Statistics getters vs. an independent event log"])
p("C24","Aggregate statistics equal their textbook definitions",
 "For every collection of run results the average goal and solution are the means over the runs that found a solution, standard deviations are the sample (n-1) ones over those runs and absent for fewer than two, the success rate is the fraction of all runs (failed ones included) whose solution satisfies the predicate, and average convergence is, per iteration up to the shortest run, the mean over the runs having a solution then (absent if none). The goal predicate accepts exactly goals closer than delta, the solution predicate exactly solutions whose every component is within its delta (so never NaN), and the average call count is total calls over runs.",
 ["inputs"],"every collection of results (any mix of missing solutions, sizes, dimensions, magnitudes, NaN in predicates), convergence tables of ragged length",
 "Unit tests use up to three tiny runs with round numbers, mostly one-dimensional.",
 ["optlib/src/tools/statistics/mod.rs"],[("formulas","optlib/src/tools/statistics/mod.rs: StatFunctionsGoal, StatFunctionsSolution, StatFunctionsConvergence, predicates")],
 ["return values vs. an independent higher-precision reference"])
p("C25","Uniting statistics keeps every run exactly once, in order",
 "Uniting two statistics (or two call counts) yields exactly the first one's runs followed by the second one's, with results, convergence and call counts unchanged and still aligned; counting and recording continue correctly afterwards. So gathering the statistics of many workers in any arrival order contains every worker's runs exactly once.",
 ["inputs","histories","schedules"],"every tree of unite operations, empty parts, interleaved recording, worker threads and arrival orders",
 "Unit tests unite at most two statistics of at most one run each.",
 ["optlib/src/tools/statistics/mod.rs"],[("concatenation","optlib/src/tools/statistics/mod.rs: Statistics::unite, CallCountData::unite")],
 ["Statistics getters after arbitrary unite trees, across threads"])
p("C26","Valid configurations never crash or corrupt memory, whatever the goal returns",
 "For every valid configuration of shipped operators and every goal function, including ones that return NaN, infinities, extreme or constant values everywhere or make the whole population die, a run and its resumption finish without panic, arithmetic overflow, out-of-bounds access or other memory error, and return None or a solution.",
 ["inputs","configurations","histories"],"every combination of shipped operators, population size from one, swarm size from zero, dimension, gene type, goal function and random stream (extreme draws included)",
 "Tests use four well-behaved goals and mid-sized populations; no hostile goal or degenerate size is run.",
 [GA,PSO,"optlib/src/genetic/pairing/mod.rs","optlib/src/genetic/selection/mod.rs","optlib/src/tools/stopchecker/mod.rs","optlib/src/particleswarm/velocitycalc/mod.rs"],[("whole pipeline","optlib/src")],
 ["panics, overflow checks, AddressSanitizer and Miri reports"])
p("C27","Optimizers running in parallel or inside each other do not interact",
 "A run's evaluations and result depend only on its own configuration, goal and random draws: executed in parallel with other runs in any interleaving, or with other runs started and finished inside its goal function, it performs exactly the evaluations and returns exactly the result it does when executed alone.",
 ["schedules","configurations"],"every set of concurrent runs (both algorithms), every interleaving of their goal calls, and every run started inside a goal call of another",
 "One test runs optimizers in threads but only checks an overall success rate.",
 [GA,PSO,"optlib/src/tools/mod.rs"],[("no shared mutable state","optlib/src"),("thread-local random source","optlib/src: rand::thread_rng")],
 ["Goal::get log and result per thread vs. solo execution"])
p("C28","Replacing operators takes effect from the next iteration on",
 "After a setter replaces the loggers, stop criterion, pairing, crossing, mutation, selections or pre-birth checks of a genetic optimizer, or the loggers, stop criterion, position or velocity corrections of a swarm optimizer, every later iteration uses exactly the new operator(s) and never the old, and all other parts, the current agents and the iteration number stay as they were.",
 ["histories","configurations"],"every sequence of setter calls between runs and resumptions",
 "Only set_loggers, set_post_moves are ever called in tests, once, before the first run.",
 [GA,PSO],[("setters",GA+": set_*"),("setters",PSO+": set_*")],
 ["calls received by old and new operators"])
p("C29","Test functions equal their formulas and have their documented minima",
 "For every point of dimension one or more and both float types, the paraboloid, Schwefel, Rastrigin and Rosenbrock functions equal their published formulas to rounding, are (to rounding) nowhere below zero on their documented domain, and are zero (to documented accuracy) at their documented minimum point.",
 ["inputs"],"every point (non-negativity: of the documented domain), dimension 1..hundreds, f32 and f64",
 "One doc-test per function at the minimum point, where sign, coefficient and index errors vanish.",
 ["optlib-testfunc/src/lib.rs"],[("formulas","optlib-testfunc/src/lib.rs")],
 ["return values vs. an independent reference"])
p("C30","Standard configurations reliably find the optimum within their budget",
 "With the configurations shown in the documentation and examples, both optimizers reach the neighbourhood of the global minimum of the paraboloid, and get close to that of Schwefel, Rastrigin and Rosenbrock, within a bounded number of evaluations in the great majority of independent runs, and independent runs explore different points.",
 ["inputs","configurations"],"independent random streams per benchmark configuration; success frequency well above the bound stated in DESIGN.md",
 "Each stable convergence test is a single configuration of the genetic optimizer; all swarm ones are excluded as flaky, because single random runs cannot settle a frequency.",
 [GA,PSO],[("search",GA),("search",PSO)],
 ["final goal values over many seeded runs"])
p("C31","Goal adapters evaluate the wrapped function faithfully and in order",
 "Wrapping a function or another goal (plain function adapter, call-counting adapter, any nesting) and passing it to an optimizer changes neither the sequence of evaluated points nor any returned value nor the result of the run; each request reaches the wrapped goal exactly once with the same point.",
 ["inputs","histories","configurations"],"every goal (stateful or noisy too), nesting of adapters, algorithm and random stream",
 "Tests only use the plain adapter with pure functions.",
 ["optlib/src/lib.rs","optlib/src/tools/statistics/mod.rs"],[("adapters","optlib/src/lib.rs: GoalFromFunction"),("adapters","optlib/src/tools/statistics/mod.rs: GoalCalcStatistics")],
 ["calls at both sides of the adapter; whole-run logs with and without it"])

p("C32","Long and repeated runs need no more memory, and dropping releases all of it",
 "The memory an optimizer of shipped operators holds depends on the number of agents and their dimension only: it does not grow with the number of iterations of a run, nor with the number of pauses or runs (recorded statistics, which keep every iteration by purpose, excepted), and dropping the optimizer releases every byte it allocated.",
 ["histories","configurations"],"every shipped configuration with a population limit, goal function, run length, segmentation and number of runs",
 "No test measures memory; their runs are too short for a leak of a few bytes per generation to matter.",
 [GA,PSO],[("removal of the dead",GA+": remove_dead"),("children and population vectors",GA+": next_iterations, append"),("reset",GA+": Population::reset"),("reset",PSO+": Swarm::reset, renew_swarm")],
 ["bytes allocated by the running thread (counting allocator) at every check of the stop criterion, after every run and after the drop"])
p("C33","The search depends on the goal only through the order of its values",
 "If the finite values of a goal function are replaced by any others in the same strict order (equal values staying equal; NaN and infinities staying what they are), a run that stops after a number of iterations evaluates exactly the same points in the same order, draws the same random numbers and returns the same point, with its new value. No difference between goal values is too small, and none too large, to count.",
 ["inputs","configurations"],"every goal function, strictly increasing replacement (neighbouring floats, subnormals, near overflow), shipped operator configuration of both optimizers and random stream",
 "Tests use one scale of goal values each; comparing two runs needs control over the random draws.",
 [GA,PSO,"optlib/src/genetic/selection/mod.rs","optlib/src/genetic/pairing/mod.rs","optlib/src/particleswarm/velocitycalc/mod.rs"],[("comparisons",GA+": individuals_min_cmp, individuals_max_cmp"),("victim choice","optlib/src/genetic/selection/mod.rs: kill_worst"),("tournament","optlib/src/genetic/pairing/mod.rs: Tournament"),("comparisons",PSO+": compare_floats, find_best_particle, replace_particles"),("worst positions","optlib/src/particleswarm/velocitycalc/mod.rs: NegativeReinforcement")],
 ["Goal::get log and result of two runs with the same random stream"])

p("C34","Invalid arguments are rejected, valid ones never are",
 "Every use that breaks a stated precondition panics at the constructor or call concerned, before anything is evaluated, instead of yielding wrong answers later; and no use that keeps them is rejected. The preconditions: intervals have lower < upper (creators, random vectors, swarm initialisers) and are not empty where a genetic creator needs them, a population has at least one individual; the canonical velocity rule needs phi_personal + phi_global > 4 and 0 < alpha < 1; a teleport probability is in [0, 1]; CompositeAny and CompositeAll have at least one member; a success predicate has as many expected values as deltas; mean crossings have at least two parents, bitwise, exponent and vector crossings exactly two; positions, velocities and intervals that are combined have the same dimension (interval checks, boundary and teleport corrections, per-dimension velocity limits, averages of solutions); a swarm starts with as many velocities as positions. NaN satisfies none of the inequalities.",
 ["inputs","configurations"],"every argument of every operation with a stated precondition, on both sides of its limit and exactly at it, for f32 and f64",
 "Tests try a few clearly invalid intervals; the exact limits (equal ends, adjacent floats, phi = 4, alpha = 1, NaN, the last of several points) are where such a check goes wrong.",
 ["optlib/src/tools/mod.rs","optlib/src/genetic/creation/vec_float.rs","optlib/src/genetic/cross/mod.rs","optlib/src/particleswarm/postmove/mod.rs","optlib/src/particleswarm/postvelocitycalc/mod.rs","optlib/src/particleswarm/velocitycalc/mod.rs","optlib/src/tools/stopchecker/mod.rs","optlib/src/tools/statistics/mod.rs",PSO],[("intervals","optlib/src/tools/mod.rs: RandomVectorCreator::create_vec"),("creator","optlib/src/genetic/creation/vec_float.rs: RandomCreator::new"),("canonical rule","optlib/src/particleswarm/velocitycalc/mod.rs: CanonicalVelocityCalculator::new"),("composites","optlib/src/tools/stopchecker/mod.rs: CompositeAny::new, CompositeAll::new"),("swarm renewal",PSO+": renew_swarm")],
 ["panic or return of each constructor and call","Goal::get calls before the panic"])
p("C35","The search has no preferred unit, direction or axis",
 "If all lengths of a swarm's problem (intervals, start positions and velocities, velocity limits) are multiplied by a power of two, or its coordinate axes are mirrored or put in another order, and the random factors are the same, the swarm evaluates exactly the points multiplied, mirrored or reordered in the same way, in the same order, and returns the corresponding solution (as long as no number leaves the range in which these transformations are exact). The same holds for multiplying the lengths of a genetic search with random creator, interval checks and crossing by means.",
 ["inputs","configurations","histories"],"every shipped swarm configuration (velocity rules, inertia rules, corrections), goal, start, run length; scale factors from 2^-10 to 2^10 (in double precision 2^-150 to 2^150), every mirroring and order of axes",
 "Tests use one scale and symmetric boxes, where an absolute tolerance or a mixed-up axis is invisible.",
 [PSO,"optlib/src/particleswarm/velocitycalc/mod.rs","optlib/src/particleswarm/postmove/mod.rs","optlib/src/particleswarm/postvelocitycalc/mod.rs","optlib/src/tools/mod.rs","optlib/src/genetic/cross/mod.rs"],[("movement",PSO+": Particle::move_to, next_iterations"),("velocity rules","optlib/src/particleswarm/velocitycalc/mod.rs: calc_new_velocity"),("corrections","optlib/src/particleswarm/postmove/mod.rs: post_move"),("limits","optlib/src/particleswarm/postvelocitycalc/mod.rs: correct_velocity"),("random values","optlib/src/tools/mod.rs: get_random_value")],
 ["Goal::get log, result and number of random words of two runs"])

p("C36","Observers and neutral operators change nothing",
 "Attaching any number of loggers (text, time, statistics or user loggers that only look) and adding operators that have nothing to do - the same validity selection, population limit, pre-birth check, boundary correction or per-dimension velocity limit a second time, a limit nobody exceeds, user operators that pass everything on, a stop criterion inside a composite that decides nothing - changes neither the points evaluated, their order, nor the random numbers drawn, nor the result of a run, paused or not.",
 ["inputs","configurations","histories"],"every shipped configuration, goal function, random stream, and combination and placing of neutral parts",
 "Tests run one fixed set of operators; that something has no effect can only be seen by comparing two runs with the same random draws.",
 [GA,PSO,"optlib/src/genetic/selection/mod.rs","optlib/src/tools/logging/mod.rs","optlib/src/tools/stopchecker/mod.rs","optlib/src/particleswarm/postmove/mod.rs","optlib/src/particleswarm/postvelocitycalc/mod.rs"],[("genetic loop",GA+": next_iterations"),("swarm loop",PSO+": next_iterations, renew_swarm"),("limit","optlib/src/genetic/selection/mod.rs: LimitPopulation::kill, kill_worst"),("composites","optlib/src/tools/stopchecker/mod.rs: CompositeAny, CompositeAll")],
 ["Goal::get log, result and number of random words of two runs"])

p("C37","The example programs finish and print results that are true",
 "Every shipped example program runs to its end without a failure and stops exactly when its stated stop criteria say so. Every solution it prints lies in its search box and has, to the rounding of its gene type, the printed goal value; the best value never gets worse from one printed iteration to the next, the final report repeats the last iteration, and the reported time fits the real one. The statistics programs, which gather runs of all processor cores, record every run exactly once and print success rate, average, deviation and call counts that agree with the single results and the convergence they save.",
 ["inputs","schedules","histories"],"every run of every example program, with any random draws, any number of cores and any order in which the workers finish",
 "No test runs an example program or judges any printed output of a real run; the searches of the tests are judged by their result only.",
 [GA,PSO,"optlib/src/tools/logging/mod.rs","optlib/src/tools/statistics/mod.rs","optlib/src/tools/stopchecker/mod.rs","optlib-testfunc/src/lib.rs"],[("programs","optlib/examples"),("gathering","optlib/src/tools/statistics/mod.rs: Statistics::unite, CallCountData::unite"),("stop criteria","optlib/src/tools/stopchecker/mod.rs")],
 ["standard output and the statistics files of the programs, exit status, wall time"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
