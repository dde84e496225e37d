#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run after editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("P01","Reported best individuals are the true best of what was evaluated",
 "After every completed generation the reported current best is a point that was evaluated in that generation together with the value the objective returned for it, and no other value of that generation is better; the reported overall best is likewise the best of all completed generations, so it never gets worse. Before the first completed generation both are absent. The result handed back on termination carries exactly these individuals.",
 ["histories","inputs"],"Every history of objective answers (including ties, signed zeros and infinities), both modes, every population size, sequential or parallel evaluation.",
 "The unit tests feed a handful of increasing values to the history; the property quantifies over all answer histories, including ties, infinities and regressions after many generations.",
 ["src/history.rs","src/sampling.rs","src/lib.rs"],[("best tracking","src/history.rs History::update"),("sorting of the generation","src/sampling.rs Sampler::sample_internal")],
 ["CMAES::current_best_individual","CMAES::overall_best_individual","TerminationData"],[("overall_best_individual","best of any generation","src/history.rs")])
p("P02","Evaluation and generation counts are exact",
 "Every generation calls the objective exactly once for each of the population's points, and the reported number of function evaluations always equals the number of calls made so far, including calls made in a generation that was aborted by an invalid value. The reported generation number equals the number of completed generations. Constraint checks, printing, plotting and accessors never call the objective.",
 ["histories","configurations"],"Every population size and dimension, every position at which an invalid value is returned, sequential and parallel evaluation, with and without constraints.",
 "Tests check one count after a fixed number of generations of a well-behaved function.",
 ["src/sampling.rs","src/state.rs","src/lib.rs"],[("evaluation counter","src/sampling.rs Sampler::sample_internal"),("generation counter","src/state.rs State::update")],
 ["CMAES::function_evals","CMAES::generation","objective calls"])
p("P03","An invalid objective value ends the run and leaves the search state intact",
 "If the objective returns NaN for any point of a generation, that step ends with exactly the reason InvalidFunctionValue; mean, step size, covariance, generation number and both best individuals are exactly as before the step, and the result reports them. No other value, infinite ones included, is treated as invalid, and a NaN never becomes a best value. Stepping again afterwards continues from the unchanged distribution.",
 ["histories","fault_sequences"],"Every placement of NaN answers among the points of every generation, sequential and parallel evaluation, both modes.",
 "One test returns NaN for every call; nothing covers a NaN in the middle of a generation or after progress was made.",
 ["src/sampling.rs","src/lib.rs","src/termination.rs"],[("NaN rejection","src/sampling.rs EvaluatedPoint::new"),("early return","src/lib.rs CMAES::next")],
 ["CMAES::next","CMAES::next_parallel","TerminationData"])
p("P04","Mean and step size follow the CMA-ES update of the selected points",
 "In every generation the mean moves by the learning rate times the weighted average of the displacements of the better half of the points ranked by objective value. The step size is multiplied by exp((cs/damp)(|p|/E|N(0,I)| - 1)) where p is the exponentially smoothed, covariance-normalised path of those moves since the start. Nothing but the ranking of the values influences either.",
 ["histories","configurations"],"Every sequence of rankings (with ties), both modes, all weight settings, mean learning rates, dimensions, population sizes, starting means and step sizes.",
 "Tests check convergence on a few functions or one fixed-seed end point; a wrong rank order, weight or path term in an unusual configuration or after a rare ranking sequence still converges.",
 ["src/state.rs","src/parameters/mod.rs","src/parameters/weights.rs"],[("weighted recombination and step-size control","src/state.rs State::update")],
 ["CMAES::mean","CMAES::sigma"],[("path_sigma","evolution path of the step size","src/state.rs")])
p("P05","Covariance follows the rank-one plus rank-mu update and its eigen schedule",
 "In every generation the covariance becomes the decayed old covariance plus the rank-one term of its evolution path (paused while the step-size path is long) plus the weighted rank-mu term over all ranked points, with negatively weighted points rescaled by their length. The decomposition used for sampling and reported as eigenvalues and axis ratio is that of the covariance at the last scheduled refresh, and refreshes occur exactly once the prescribed number of evaluations has passed. It depends on the objective only through the ranking.",
 ["histories","configurations"],"Every sequence of rankings, both modes, all weight settings, dimensions and population sizes, to the explored depth.",
 "No test compares the covariance against the algorithm's definition; convergence tests tolerate large errors in it.",
 ["src/state.rs","src/matrix.rs"],[("covariance update","src/state.rs State::update"),("decomposition refresh","src/matrix.rs CovarianceMatrix::set_cov")],
 ["CMAES::covariance_matrix","CMAES::eigenvalues","CMAES::axis_ratio"],[("path_c","evolution path of the covariance","src/state.rs"),("last_eigen_update_evals","time of last decomposition","src/state.rs")])
p("P06","The search distribution stays well formed or the run says so",
 "Whatever finite or infinite values the objective returns, stepping never panics, and as long as a run with the default limits goes on, its covariance is symmetric and finite, its step size positive and finite, its eigenvalues positive, and its axis ratio the square root of their extreme ratio. A step whose refreshed covariance is not positive definite ends with PosDefCov alone, and no other step reports it.",
 ["histories","configurations"],"Every answer history to the explored depth over adversarial ranking policies, all weight settings, odd and even population sizes and dimensions.",
 "Tests only run smooth functions to convergence; ill-conditioning arises from ranking sequences they never produce.",
 ["src/matrix.rs","src/state.rs"],[("symmetrisation and positive-definiteness check","src/matrix.rs CovarianceMatrix::update_eigendecomposition")],
 ["CMAES::covariance_matrix","CMAES::eigenvalues","CMAES::axis_ratio","CMAES::sigma"])
p("P07","Points are sampled from the current search distribution",
 "The points of a generation are mean + step size times a linear image of independent standard normal vectors drawn from the seeded generator, and that linear image maps the identity to the covariance of the last refresh. Every vector is drawn fresh, in order, and used at most once. Hence the first generation from an identity covariance has exactly the normal deviates of the seed as its displacements' Gram matrix.",
 ["histories","inputs"],"Every seed in the explored set, every ranking history to the explored depth, all dimensions and population sizes, with constraints and resampling.",
 "Tests never look at the sampled points; a sampling defect only slows convergence.",
 ["src/sampling.rs","src/matrix.rs"],[("sampling transform","src/sampling.rs Sampler::sample_internal"),("transform matrix","src/matrix.rs")],
 ["points passed to the objective"])
p("P08","Constraint resampling is complete, bounded and never touches accepted points",
 "While resampling rounds remain, only points rejected by the constraints are redrawn and every accepted point is evaluated exactly once; after the configured number of rounds the remaining places are filled without consulting the constraints, and with no limit every evaluated point satisfies them. The constraints are asked about exactly the points that would be evaluated. Box bounds are inclusive and reject anything outside in any coordinate, NaN included.",
 ["histories","configurations","fault_sequences"],"Every sequence of constraint answers, every resampling limit including none and zero, every population size; every lattice point against every box.",
 "The three tests use one point and one box; the interplay of partial rejections with the round limit is not sampled.",
 ["src/sampling.rs","src/options.rs"],[("resampling loop","src/sampling.rs Sampler::sample_internal"),("Bounds","src/sampling.rs Bounds::meets_constraints")],
 ["Constraints::meets_constraints calls","points passed to the objective"])
p("P09","Evaluation, generation and time budgets stop the run at the first chance",
 "A generation reports MaxFunctionEvals, MaxGenerations or MaxTime if and only if, when it is finished, the respective evaluations, completed generations or time since creation have reached the configured limit. A limit that is not set is never reported. Limits of zero stop after the first generation.",
 ["configurations","histories"],"Every combination of limits and population sizes on the lattice and every history of objective durations under a controlled clock.",
 "Tests use one limit each, far from the boundary, and a real clock.",
 ["src/termination.rs","src/parameters/mod.rs"],[("budget checks","src/termination.rs TerminationCheck::check_termination_criteria")],
 ["TerminationData.reasons","CMAES::elapsed"])
p("P10","The function target is reported exactly when a value reaches it",
 "A generation reports FunTarget if and only if at least one of its values is equal to or better than the target in the optimisation mode. No rounding, ordering or position of the value among the points matters. Without a target it is never reported.",
 ["histories","inputs"],"Every assignment of values just below, at and just above the target (and infinities) to the points of a generation, both modes, every target on the lattice.",
 "Tests use a smooth function crossing the target by a wide margin.",
 ["src/termination.rs","src/mode.rs"],[("target check","src/termination.rs TerminationCheck::check_termination_criteria")],
 ["TerminationData.reasons"])
p("P11","Flat-function criteria fire exactly when the value ranges are below tolerance",
 "Once 10 + ceil(30 N / population) generations are recorded, TolFunHist is reported if and only if the range of the best values over that many latest generations is below its tolerance; TolFun if and only if that range and the range of the latest generation's values are both below its tolerance. TolFunRel likewise with its tolerance multiplied by the distance between the first and the best median value seen. None is reported earlier.",
 ["histories","configurations"],"Every flat history with one or two deviations of each size at each age and position, over dimensions, population sizes and modes.",
 "Tests converge on a function or plant one constant history; off-by-one windows, wrong range ends and median errors need histories with a single deviation at the window's edge.",
 ["src/termination.rs","src/history.rs","src/utils.rs"],[("range checks","src/termination.rs TerminationCheck::check_termination_criteria"),("medians","src/history.rs get_median_value")],
 ["TerminationData.reasons"],[("best_function_values","best value per generation","src/history.rs")])
p("P12","Stagnation is reported exactly when best and median values have worsened",
 "With a window of one fifth of the completed generations (at most 20000), once the window is at least the configured minimum, TolStagnation is reported if and only if the median of the newest 30% of the window is worse than the median of its oldest 30%, for the per-generation best values and for the per-generation median values alike. Before that it is never reported. Histories longer than the cap keep being judged on their latest part.",
 ["histories","configurations"],"Every sequence of level blocks to the explored number of blocks for best and median values, both modes, minimum windows on the lattice, up to runs longer than the history cap.",
 "Tests plant two or four constant histories of one length; window edges, the cap and the interplay of both series are not reached.",
 ["src/termination.rs","src/history.rs"],[("stagnation check","src/termination.rs"),("bounded history","src/history.rs History::update")],
 ["TerminationData.reasons"],[("median_function_values","median value per generation","src/history.rs")])
p("P13","Step-size criteria TolX and TolXUp fire exactly at their thresholds",
 "TolX is reported if and only if the standard deviation in every coordinate and every coordinate of the scaled covariance path are below its tolerance, which defaults to 1e-12 times the initial step size. TolXUp is reported if and only if the largest standard deviation along any principal axis exceeds its factor times the initial step size.",
 ["histories","configurations"],"Every generation of every explored history with the tolerance placed just above and just below the critical quantity of that generation.",
 "Tests plant one tiny step size; using the wrong coordinate, the variance or a stale quantity passes them.",
 ["src/termination.rs","src/parameters/mod.rs"],[("TolX, TolXUp","src/termination.rs TerminationCheck::check_termination_criteria")],
 ["TerminationData.reasons"])
p("P14","Degenerate-distribution criteria fire exactly when precision is lost",
 "TolConditionCov is reported if and only if the squared axis ratio exceeds its limit or is not a normal number. NoEffectAxis is reported if and only if adding a tenth of a standard deviation along the principal axis due this generation leaves the mean unchanged, the axes taking turns. NoEffectCoord is reported if and only if adding a fifth of the standard deviation in some coordinate leaves the mean unchanged in that coordinate.",
 ["histories","inputs","configurations"],"Every lattice of mean magnitudes against step sizes around the rounding threshold in every coordinate, every ranking history to the explored depth with thresholds just above and below.",
 "Tests plant one degenerate matrix each; which axis is examined in which generation and one-sided coordinates are not covered.",
 ["src/termination.rs"],[("NoEffectAxis, NoEffectCoord, TolConditionCov","src/termination.rs TerminationCheck::check_termination_criteria")],
 ["TerminationData.reasons"])
p("P15","A run stops at the first generation meeting a criterion, reported truthfully",
 "Running to termination equals stepping until the first step that reports reasons: it neither stops earlier nor evaluates further. The reasons are non-empty, without duplicates, and contain every criterion met at that generation and no other. The returned bests and final mean are those of the optimiser's state at that moment.",
 ["histories","configurations"],"Every combination of enabled criteria with every explored history, sequential and parallel.",
 "Tests look for one expected reason; missing or extra co-reported reasons and stale result fields are not checked.",
 ["src/lib.rs","src/termination.rs"],[("run loop","src/lib.rs CMAES::run"),("result","src/lib.rs CMAES::get_termination_data")],
 ["CMAES::run","CMAES::run_parallel","TerminationData"])
p("P16","Maximising f is minimising -f",
 "Maximising a function visits exactly the same points and search distributions, and ends in the same generation for the same reasons, as minimising its negation with the target negated. The reported bests are the same points with negated values.",
 ["histories","configurations"],"Every explored answer history including ties and infinities, over configurations and termination options.",
 "Tests run a maximisation of a mirrored function for convergence only; an asymmetry in ties, medians or stagnation is not visible.",
 ["src/mode.rs","src/history.rs","src/termination.rs","src/sampling.rs"],[("mode-dependent comparison","src/mode.rs Mode")],
 ["points passed to the objective","TerminationData"])
p("P17","Only the ranking of values matters; shifts and scalings of the space carry over",
 "Replacing the objective by any strictly increasing transformation of it leaves every sampled point and every distribution exactly unchanged. Shifting the initial mean shifts all points by the same amount (up to rounding), and scaling the initial mean and step size by a power of two scales all points exactly, leaving the covariance unchanged.",
 ["histories","inputs","configurations"],"Every explored ranking history under every transformation in the menu, shifts and scales on the lattice.",
 "Invariance relates pairs of runs; no test compares two runs under a transformation.",
 ["src/state.rs","src/sampling.rs"],[("rank-based update","src/state.rs State::update")],
 ["points passed to the objective","CMAES::covariance_matrix"])
p("P18","A fixed seed makes runs reproducible and observation does not disturb them",
 "Two optimisers built from equal options with the same seed and given the same answers behave identically, bit for bit. Enabling printing or plotting, calling any accessor, printing or plotting by hand, saving or clearing the plot between steps, or wrapping the objective changes nothing. The seed actually used is reported, and building again with that reported seed reproduces a run that chose its seed at random.",
 ["histories","configurations"],"Every sequence of observer operations between steps to the explored length, over configurations and answer histories.",
 "The fixed-seed test compares one end point without any observers.",
 ["src/lib.rs","src/sampling.rs","src/options.rs"],[("seeded generator","src/sampling.rs Sampler::new")],
 ["points passed to the objective","CMAES::parameters"])
p("P19","Parallel evaluation gives the sequential result under every completion order",
 "Evaluating a generation in parallel yields the same points, bests, distribution, counts and reasons, bit for bit, as evaluating it sequentially, whatever order the concurrent evaluations finish in and however many threads there are. With enough threads, evaluations of one generation really overlap.",
 ["schedules","configurations"],"Every completion order of a generation's evaluations for the explored population sizes, every pool size, generations in sequence.",
 "One fixed-seed test runs under whatever schedule the scheduler picks.",
 ["src/sampling.rs","src/lib.rs"],[("parallel evaluation","src/sampling.rs Sampler::sample_parallel")],
 ["CMAES::next_parallel","CMAES::run_parallel"])
p("P20","Parallel state updates compute the same update",
 "With parallel updates enabled, points are produced in the same order and the mean, step size and covariance agree with the sequential update up to rounding, for every number of threads and every order in which constraint checks and partial sums complete. No point is lost, duplicated or reordered by parallel sampling.",
 ["schedules","configurations"],"Every pool size, completion order of constraint checks for the explored sizes, ranking history to the explored depth.",
 "One loose fixed-seed comparison on one configuration.",
 ["src/sampling.rs","src/state.rs"],[("parallel reduction","src/state.rs rank_mu_update_parallel"),("parallel sampling","src/sampling.rs Sampler::sample_internal")],
 ["CMAES::covariance_matrix","points passed to the objective"])
p("P21","Strategy parameters are those of CMA-ES for the configured problem",
 "For every dimension, population size, weight setting and mean learning rate, the reported weights, selection size, learning rates, damping and termination defaults equal the published formulas; the selected weights sum to one and decrease with rank, and negative weights are bounded so the covariance stays positive definite. Every option set by the user is reported back unchanged. Defaults are as documented.",
 ["configurations"],"Every dimension and population size on the grid, all weight settings, every subset of options set.",
 "Tests check a few weight sums and one dimension; wrong values for odd, minimal or large populations pass.",
 ["src/parameters/mod.rs","src/parameters/weights.rs","src/options.rs"],[("parameter formulas","src/parameters/mod.rs Parameters::new"),("weights","src/parameters/weights.rs InitialWeights")],
 ["CMAES::parameters"])
p("P22","Invalid options are rejected and valid ones accepted, in any setting order",
 "Building fails with the respective error if and only if there are no dimensions, the population is smaller than two, the initial step size is not a positive normal number, or the mean's learning rate is not a normal number in (0, 1]. Anything else builds and performs its first generation. The result of setting options does not depend on the order of setting different ones, and the last setting of each wins.",
 ["configurations","inputs"],"Every combination of boundary values of the validated options and every order of setter calls to the explored length.",
 "Tests try one or two invalid values for each option.",
 ["src/lib.rs","src/options.rs"],[("validation","src/lib.rs CMAES::new"),("setters","src/options.rs CMAESOptions")],
 ["CMAESOptions::build"])
p("P23","Restarts stop for the right reason at the right run",
 "The restarter starts another run exactly while its total evaluation and time limits are not used up, the strategy has runs left, and no run has reached the target or returned an invalid value; the reported reason is the one that stopped it. Per-run evaluation and generation limits and the target apply to every run, while the total limits are looked at between runs and cut none short. With zero budgets no run is made.",
 ["configurations","histories"],"Every combination of budgets on the lattice, every strategy, every history of run outcomes produced by a scripted objective under a controlled clock.",
 "Tests check each reason once with wide margins.",
 ["src/restart/mod.rs"],[("restart loop","src/restart/mod.rs Restarter::run_internal")],
 ["RestartResults"])
p("P24","Restart results account for every run",
 "The reported best is the best value over all completed generations of all runs with a point that was evaluated to it, the evaluation total equals the number of objective calls, and the run count equals the number of runs made. A fresh objective is requested exactly once per run, and with reuse the one objective is threaded through all runs. All four ways of running agree.",
 ["histories","configurations"],"Every history of run outcomes including invalid values at any point, both modes, all strategies and the four entry points.",
 "Tests check counts on well-behaved functions; best-of-runs order and aborted runs are not explored.",
 ["src/restart/mod.rs"],[("aggregation","src/restart/mod.rs Restarter::run_internal")],
 ["RestartResults","objective and factory calls"])
p("P25","Restart strategies schedule population, step size and limits as defined",
 "The local strategy keeps the population and uses its small fixed step size for its number of runs; IPOP multiplies the population by its factor after every run, starting from the default, for at most ten runs. BIPOP starts with IPOP, then makes a local run whenever local runs have used fewer evaluations than IPOP runs and an IPOP run otherwise, local runs having a random population between the default and half the latest IPOP one, a random reduced step size, and at most half the latest IPOP run's evaluations. Step sizes derive from the search range.",
 ["histories","configurations"],"Every history of run lengths on the lattice (hence every alternation to the explored number of runs), every factor, range and seed in the explored set.",
 "Tests call each strategy once or twice with fixed budgets.",
 ["src/restart/local.rs","src/restart/ipop.rs","src/restart/bipop.rs","src/restart/strategy.rs"],[("schedules","src/restart/*.rs Strategy::next_run")],
 ["points passed to the objective","printed run parameters"],[("ipop_current_multiplier","population multiplier","src/restart/bipop.rs")])
p("P26","Restarts are reproducible, start inside the range and honour the default options",
 "With a fixed seed the whole sequence of runs is reproduced exactly and differs between runs; the initial mean of every run lies in the search range in every coordinate. Default run options (weights, constraints, tolerances, learning rate, population) apply to every run, while mode, target, seed and limits come from the restarter. Setters work in any order, the last of each wins, and two different runs never share their random stream.",
 ["configurations","histories"],"Every explored seed, range, dimension, strategy, default option and sequence of setters.",
 "One fixed-seed test compares one result.",
 ["src/restart/mod.rs","src/restart/options.rs"],[("option derivation","src/restart/mod.rs Restarter::run_internal"),("initial mean","src/restart/mod.rs Restarter::generate_initial_mean")],
 ["points passed to the objective","Restarter::seed"])
p("P27","Every accepted restart configuration runs without failing",
 "A restarter is refused exactly when it has no dimensions, its search range is empty or not finite, or its default options have an invalid population size or learning rate, and a strategy exactly when its step-size factor is not a positive normal number or its population factor is zero; flipped ranges are accepted as if given in order. Every accepted configuration, however extreme, runs to a reported reason without panicking, as long as the populations it gets to fit into memory.",
 ["configurations","inputs"],"Every combination of boundary values of range ends, factors, run counts and budgets on the lattice.",
 "Tests use ordinary ranges and factors.",
 ["src/restart/mod.rs","src/restart/options.rs","src/restart/local.rs","src/restart/bipop.rs","src/restart/ipop.rs"],[("validation","src/restart/mod.rs Restarter::new")],
 ["RestartOptions::build","Restarter::run"])
p("P28","Plot recording keeps one faithful point per due generation",
 "The plot holds the initial state, the first generation, every later generation at least the configured number of evaluations after the last recorded one, and the final state of a run, each at most once. A recorded point holds that moment's evaluations, best and median value, step size, axis ratio, mean and sorted scales; clearing keeps only the latest point and its storage. Without plotting enabled there is no plot.",
 ["histories","configurations"],"Every sequence of step, record and clear operations to the explored length, every gap and population size on the lattice.",
 "Tests check three fixed operation sequences.",
 ["src/plotting/mod.rs","src/plotting/data.rs","src/lib.rs"],[("recording","src/plotting/mod.rs Plot::add_data_point"),("clearing","src/plotting/data.rs PlotData::clear")],
 ["Plot::len","Plot::capacity","Plot Debug output"])
p("P29","Saving a plot always succeeds for any recorded history",
 "For any recorded history, including infinite or extreme objective values, negative or zero values, extreme means and a single point, saving to a writable path terminates with an image of the fixed size, creating missing directories if asked to, and reports an error instead of panicking if the path cannot be written. Saving does not change the plot.",
 ["histories","inputs"],"Every value and mean magnitude on the lattice, every short history, dimensions beyond the legend limit, modes and notations.",
 "Tests only test the axis helpers on ordinary ranges.",
 ["src/plotting/draw.rs","src/plotting/mod.rs"],[("axis ranges","src/plotting/draw.rs"),("saving","src/plotting/mod.rs Plot::save_to_file")],
 ["Plot::save_to_file"])
p("P30","Automatic printing follows its cadence and shows the true state",
 "With printing enabled, a header naming the variant, dimension, population and seed is printed once, then a line for each of the first three generations and whenever the configured number of evaluations has passed since the last regular line, each with the true generation, evaluations, best value, axis ratio and step sizes. At the end of a run the final state is printed (unless it was the line printed last already), with the reasons, best values and mean. With printing disabled nothing is printed.",
 ["histories","configurations"],"Every gap, population size, run length and termination kind on the lattice.",
 "No test looks at the output.",
 ["src/lib.rs","src/utils.rs"],[("cadence","src/lib.rs CMAES::next_internal"),("formatting","src/utils.rs format_num")],
 ["standard output"])
p("P31","Objective wrappers and adaptors evaluate the wrapped function faithfully",
 "A scaled objective is evaluated at the point multiplied element-wise by the scales, sequentially and in parallel alike, and optimising through it equals optimising the hand-scaled function exactly. Boxes, mutable references, closures and custom types passed as objectives are all called with the same points and yield the same run. The objective given back afterwards is the one used, with its state.",
 ["inputs","configurations","histories"],"Every adaptor, scale vector on the lattice, and answer history explored.",
 "Tests only check that the adaptors compile and one scale vector.",
 ["src/objective_function.rs","src/lib.rs"],[("Scale","src/objective_function.rs Scale"),("trait impls","src/objective_function.rs")],
 ["ObjectiveFunction::evaluate","ParallelObjectiveFunction::evaluate_parallel","CMAES::into_objective_function"])
p("P32","The convenience functions return the best point they evaluated",
 "Minimising or maximising through the convenience functions, sequentially or in parallel, returns the best individual over all evaluations made, in the right direction, and stops. It behaves like a default-option run on the given start and step size: first points are spread around the start by the step size with the default population.",
 ["inputs","histories"],"Every explored objective, start and step size.",
 "Doc examples only check that they compile.",
 ["src/functions.rs"],[("fmin, fmax, fmin_parallel, fmax_parallel","src/functions.rs")],
 ["fmin","fmax","fmin_parallel","fmax_parallel"])
p("P33","Default runs find the optimum of convex functions and say so",
 "On convex functions with a minimum (quadratic ones with condition numbers up to a million, axis-parallel or rotated, sums of powers, norms) a run with default tolerances stops by itself within a budget linear in the dimension (quadratic above ten), with a value within 1e-8 of the minimum, whatever the seed, start, weights, mode, and default or tripled population. On a linear function the step size grows until TolXUp is reported. Restarting with a target finds the global optimum of Rastrigin's function in few dimensions.",
 ["inputs","configurations","histories"],"Every seed, start, weight setting, mode, population and dimension of the lattice on each function.",
 "Tests run a handful of functions from one or few seeds.",
 ["src/lib.rs","src/state.rs","src/sampling.rs","src/termination.rs","src/parameters/mod.rs","src/restart/mod.rs"],[("state update","src/state.rs State::update"),("termination","src/termination.rs"),("restarts","src/restart/mod.rs Restarter::run_internal")],
 ["CMAES::run","TerminationData","RestartResults"])
p("P34","A panic in a callback reaches the caller and leaves the optimiser usable",
 "If the objective, the constraints or a restarter's objective factory panics, the panic reaches the caller of the step, run, restart or convenience function with its own payload, from sequential and parallel evaluation alike; sequentially nothing is evaluated after it. Mean, step size, covariance, generation, both best individuals and the plot are as before that generation and nothing is printed for it. Stepping or running again continues from there as if the generation had not been attempted, and other optimisers are unaffected.",
 ["fault_sequences","histories","configurations"],"Every evaluation or constraint question of the explored histories as the place of the panic, every word of panics to a depth.",
 "No test panics in a callback.",
 ["src/lib.rs","src/sampling.rs","src/restart/mod.rs","src/functions.rs"],[("stepping","src/lib.rs CMAES::next"),("evaluation","src/sampling.rs Sampler::sample_internal"),("runs","src/restart/mod.rs Restarter::run_internal")],
 ["CMAES::next","CMAES::run","Restarter::run","fmin"])
p("P35","Memory stays bounded however long a run or restart sequence gets",
 "Apart from plots, an optimiser holds at most two recorded values per generation for the documented 20000 latest generations beyond its fixed size: after that no completed or aborted generation makes it hold more. Between runs a restarter holds nothing but its options and best individual. A plot that is cleared regularly reuses its storage, and everything is released when optimisers and restarters are dropped.",
 ["histories","configurations"],"Every history of the lattice, including histories several times longer than the recorded window.",
 "No test looks at memory.",
 ["src/history.rs","src/lib.rs","src/plotting/data.rs","src/restart/mod.rs"],[("history cap","src/history.rs History::update"),("clearing","src/plotting/data.rs PlotData::clear")],
 ["heap in use"])
p("P36","Leaving out the plotting feature changes nothing but plotting",
 "Without its default features the crate still builds, and every optimiser, restarter, wrapper and convenience function evaluates the same points, goes through the same states, stops at the same generation for the same reasons and prints the same text as with them.",
 ["configurations","histories"],"Every configuration and landscape of the lattice, driven through both builds.",
 "The tests are only built with the default features.",
 ["Cargo.toml","src/lib.rs","src/history.rs","src/options.rs"],[("conditional compilation","src/lib.rs"),("history accessors","src/history.rs")],
 ["every public observation of both builds"])
p("P37","The saved image shows the recorded history",
 "The saved image has four panels over the recorded evaluations: on a logarithmic scale the absolute best and median values, the distance to the overall best value, step size and axis ratio with the overall best point marked; the mean coordinates; the sorted axis scales; the coordinate standard deviations. Every recorded finite value lies on its curve in its colour and panel, and no curve shows anything else, whatever was recorded or cleared before and in either mode. The legend is there in the three panels that have one.",
 ["inputs","histories","configurations"],"Every word of best values to a depth, every landscape, dimension, gap, notation and mode of the lattice.",
 "The only test of drawing saves one image and looks at no pixel.",
 ["src/plotting/draw.rs","src/plotting/mod.rs","src/plotting/data.rs"],[("curves","src/plotting/draw.rs draw_single_dimensioned"),("panels","src/plotting/mod.rs Plot::build_plot"),("axes","src/plotting/draw.rs get_log_y_axis, get_linear_y_axis")],
 ["Plot::save_to_file"])
p("P38","A restarter prints what it does, truthfully",
 "With printing enabled a restarter prints one line naming strategy, dimension, search range, the strategy's parameters and the seed, then for every run a line with its population, step size and seed before its first evaluation and one with the run's own best value, termination reasons and evaluations after its last. At the end it prints total evaluations, the reason, and the best value and point if there is one. Run options that print do so in between, and with printing disabled the restarter prints nothing.",
 ["histories","configurations"],"Every word of run outcomes to a depth, every strategy, entry point and mode, budgets including zero, runs that print themselves.",
 "No test looks at the restarter's output.",
 ["src/restart/mod.rs","src/restart/strategy.rs"],[("printing","src/restart/mod.rs print_initial_info, print_run_info, print_run_results, RestartResults::print_results")],
 ["stdout"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for q in P:
        assert len(q['title'])<=80,q['title']
        f.write(json.dumps(q)+"\n")
print(len(P))
