import json
P=[]
def p(id,title,stmt,over,text,why,files,state,mech,obs,hook=False):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=state,where=files[0])],mechanism=[dict(name=mech,where=files[0])],observe_at=[obs],hook_needed=None)))
O="src/oqnlp.rs"; S="src/scatter_search.rs"; K="src/checkpoint.rs"; F="src/filters.rs"; T="src/types.rs"
R="src/local_solver/runner.rs"; B="src/local_solver/builders.rs"
OB=["src/observers/mod.rs","src/observers/stage1.rs","src/observers/stage2.rs"]
p("C01","The best local optimum found is never lost",
 "The solution set a run returns always contains a solution whose objective is no worse, beyond the configured absolute/relative tolerance, than that of every eligible local optimum the run reached (every one, or every in-bounds one when out-of-bounds exclusion is on). A strictly better optimum replaces the set whenever it is found, whatever was found before or after it, including non-finite objectives found earlier. The best objective therefore never gets worse from one iteration to the next.",
 ["inputs","histories","configurations"],"Every sequence of local-search outcomes, tolerance setting and batch size.",
 "Unit tests call the set update with two or three hand-made solutions; the order, closeness and tolerance combinations of a whole run are unbounded.",
 [O,T],"solution set, tolerances","set update after each local search","returned SolutionSet, checkpoints, observer best")
p("C02","The solution set is exactly the distinct equivalent best optima",
 "All members of the returned set have objectives within tolerance (the larger of the absolute tolerance and the relative tolerance times the larger magnitude) of the optimum that founded the set, and lie at least the distance factor apart from each other (members found under an older distance factor, before a resume with modified parameters, excepted). Every optimum reached since the set was founded that is equivalent to the set and far enough from all its members is a member; nothing that no local search returned is. Members appear in the order they were found.",
 ["inputs","histories","configurations"],"Every sequence of local-search outcomes, distance factor and tolerance, including exact ties and exact distances.",
 "Tests check single calls on one or two solutions and only sizes at the end of real runs; membership depends on the entire history.",
 [O,T],"solution set, distance factor, tolerances","duplicate and tolerance test when a local optimum is processed","returned SolutionSet, checkpoints")
p("C03","A local search starts exactly when both filters admit the trial point",
 "In Stage 2 a local search is started from a trial point if and only if that point's own objective value is at or below the current merit threshold and the point is farther than the distance factor from every local optimum found so far in the run. Local optima that were not admitted to the solution set count for the distance test too. Trial points are the reference points themselves, unmodified.",
 ["inputs","histories","configurations"],"Every reference set, objective, sequence of earlier outcomes and batch size, including points exactly on the threshold or exactly at the distance factor.",
 "Tests call the filters in isolation; which objective value and which history the run feeds them is never checked.",
 [O,F],"merit threshold, distance-filter history, trial objective","filter decision per trial","points at which the user's objective is evaluated, checkpoints")
p("C04","The merit threshold follows its update rule at every step",
 "The threshold starts at the objective of the first local optimum; starting a local search sets it to the trial's objective and a new best sets it to that best's objective. Every rejected trial counts, and each time the number of rejections since the last relaxation reaches the wait cycle the threshold is relaxed once to t + threshold_factor*(1+|t|) and the count restarts. Nothing else changes the threshold.",
 ["inputs","histories","configurations"],"Every interleaving of accepted and rejected trials, wait cycle, threshold factor and batch size.",
 "Tests check one call of the relaxation formula; the counting and the interplay with accepted trials over a run are not observed.",
 [O,F],"merit threshold, unchanged-cycle counter","threshold updates in Stage 2","checkpoint and observer threshold/unchanged cycles")
p("C05","Stage 2 spends exactly its iteration budget and stops only at the target",
 "Without a time limit, Stage 2 processes each of the first min(iterations, reference-set size) trial points once, in a fixed order, and nothing else. It ends early only when the best eligible solution is at or below the target objective, and then no later batch of trials is processed; if the first local search of Stage 1 already reaches the target, Stage 2 is not entered. A target that is not reached never shortens the run.",
 ["inputs","histories","configurations"],"Every iterations/population/batch combination, target value and position at which it is reached.",
 "Tests assert only that some solution comes back when a target is set; skipped, repeated or extra trials go unnoticed.",
 [O],"iteration counter, target objective","Stage 2 loop and its stopping tests","objective-call log, observer iterations, checkpoints")
p("C06","The time limit stops Stage 2 between batches and never loses results",
 "With a time limit, no new batch of trials starts once the limit has elapsed since Stage 2 began (after the first local search; every session, also a resumed one, counts its own time), and Stage 2 is not cut short before that. The run then returns the solution set accumulated so far, as if the iteration budget had ended at that batch. A limit that is never reached does not change the result.",
 ["schedules","inputs","configurations"],"Every limit, every distribution of evaluation times over the trials and every batch size.",
 "Tests use one slow objective and check the total time only.",
 [O],"time limit, iteration counter","timeout test before each batch","objective-call log with timestamps, returned set")
p("C07","Out-of-bounds optima are excluded exactly when asked",
 "With out-of-bounds exclusion on, no returned solution lies outside the variable bounds, and an out-of-bounds optimum never satisfies the target, never displaces or blocks an in-bounds one and never changes the threshold by itself (the very first local optimum, which initialises it, excepted), yet it still repels later local searches. If every optimum is out of bounds the run returns the no-feasible-solution error. With exclusion off, out-of-bounds optima are treated like any other.",
 ["inputs","histories","configurations"],"Every mixture and order of in-bounds, boundary, out-of-bounds and non-finite optima.",
 "Tests cover one function where the solver happens to leave the box.",
 [O],"exclusion flag, variable bounds, solution set","bounds test before set update","returned set or error, checkpoints, objective-call log")
p("C08","The reference set is in bounds, feasible, complete and correctly evaluated",
 "Every reference point lies within the variable bounds and satisfies every constraint (g(x) >= 0); before intensification the set contains the lower bound, upper bound and midpoint and all user-supplied points that are feasible, and has exactly population_size members when those fit. Remaining members are added farthest-first. Each point is paired with the objective value at that very point, and the best-valued point is the one Stage 1 refines.",
 ["inputs","configurations"],"Every dimension, box, population size, constraint set, set of user points, seed and parallel setting.",
 "Tests check sizes and bounds for one or two functions without constraints or with a few user points.",
 [S,O],"reference set and its objectives","initialisation and diversification","ScatterSearch results, objective-call log")
p("C09","Intensification keeps the best points of the union",
 "Trial points are combinations (fixed weights and bounded perturbations) of pairs of the best floor(sqrt(n)) (at least two) reference points, clamped to the bounds; a trial is evaluated only if it is feasible and its squared distance to each of the first five reference points is more than a tenth of the mean squared distance between consecutive leading reference points. It enters only if its evaluation succeeds and improves on the worst reference objective, where undefined (NaN) objectives rank last. The new reference set is the best population_size points of the old set and the entering trials; with none entering it is unchanged.",
 ["inputs","configurations"],"Every reference set, objective, constraint set and seed, including evaluation failures and ties.",
 "Tests check that the set does not grow and stays in bounds, not which points survive.",
 [S],"reference set, trial points","trial generation and reference-set update","ScatterSearch results, objective-call log")
p("C10","Results depend only on problem, parameters and seed",
 "Two runs with the same problem, parameters, seed, user points and batch size return bitwise identical solution sets and process the same trials in the same order. This holds for any number of worker threads, any completion order of concurrent evaluations, parallel evaluation on or off at batch size one, and across builds with different optional features. Every 64-bit seed is accepted.",
 ["schedules","configurations","inputs"],"Every schedule of the worker threads, thread count, seed and feature set.",
 "Tests compare two runs of one problem in the same process and build; schedules are whatever the machine produced.",
 [O,S],"random generators, reference set, solution set","seeding, shuffling and parallel collection","returned sets, checkpoints, objective-call multiset")
p("C11","A parallel batch has one well-defined outcome",
 "In batched mode the filters are evaluated for the whole batch against the state before the batch; rejected trials are accounted first and the admitted trials' local optima are then applied in trial order, so that the state after a batch is a function of the state before it and of the batch. A batch size of one behaves exactly like sequential processing. When the target is reached inside a batch the remaining optima of that batch may be ignored but the best is never lost.",
 ["schedules","inputs","configurations"],"Every batch size, partition into admitted and rejected trials, thread count and completion order of the concurrent local searches.",
 "Tests run batches and check that a solution is found; the state after each batch and its dependence on the schedule are not observed.",
 [O],"solution set, threshold, distance-filter history","parallel batch processing","checkpoints after each batch, objective-call log")
p("C12","An interrupted run resumes to the result of an uninterrupted one",
 "If a sequential or fixed-batch-size run with checkpointing is stopped at any point, any number of times, and restarted with automatic resume, it ends with the same solution set as a run that was never stopped. A checkpoint is written whenever the number of completed iterations passes a multiple of the save frequency and at the end, and the restarted run continues with the first trial not covered by the latest one: no trial covered by it is processed again and none is skipped. Restarting a finished run changes nothing.",
 ["crash_points","histories","configurations"],"Every crash point (any evaluation, any save), any sequence of crashes, save frequency, batch size and retention mode.",
 "Tests only resume a completed run and check that a result exists.",
 [O,K,T],"iteration counter, reference order, threshold, filters, solution set","checkpoint creation and restoration","final sets, checkpoints, objective-call log")
p("C13","Resuming with modified parameters continues the old run under the new ones",
 "After resuming with modified parameters, run() continues from the checkpointed iteration with the checkpointed solution set, threshold, filter history and reference points, and every later decision uses the new parameters (iterations, wait cycle, threshold factor, distance factor, local solver and its configuration). A larger population extends the reference set with new in-bounds feasible points without altering the existing ones or their order; a smaller one keeps it. Without a checkpoint it reports so and the run starts fresh.",
 ["histories","configurations"],"Every checkpoint, every combination of changed parameters, both automatic-resume settings.",
 "Tests compare parameter fields right after the call and never look at what run() then does.",
 [O,K],"parameters, restored state","resume_with_modified_params / resume_from_checkpoint_with_params then run","checkpoints, objective-call log, final set")
p("C14","The checkpoint store returns, lists and prunes exactly the right files",
 "Loading the latest checkpoint returns the one saved last with the highest iteration (keep-all) or the last one saved (single file), existence is reported exactly when that load finds a file, and saving never touches other checkpoints. Cleanup removes exactly the oldest checkpoints beyond the requested number and never anything when asked to keep zero or in single-file mode. Files of other names, other formats or other runs in the same directory are never returned, removed or changed.",
 ["histories","configurations"],"Every sequence of saves, loads, cleanups and foreign files over iterations including 0, gaps and more than six digits.",
 "Tests perform one save and one load, or one cleanup, in a directory of their own.",
 [K],"checkpoint directory","CheckpointManager save/load/exists/cleanup","files and returned checkpoints")
p("C15","A crash while saving never costs the last complete checkpoint",
 "If the process dies at any point while a checkpoint is being written, including in the middle of a write, the next load of the latest checkpoint succeeds and returns either the previous complete checkpoint or the new complete one. A save that reports success is returned by the next load. A save that fails with an error leaves the previous checkpoint loadable.",
 ["crash_points","fault_sequences","histories"],"Every file-system operation of every save as crash or failure point, with torn writes, in both retention modes.",
 "No test interrupts a save.",
 [K],"checkpoint file","CheckpointManager::save_checkpoint","load_latest_checkpoint after a crash")
p("C16","A loaded checkpoint equals the saved one and damage is reported as an error",
 "Loading a saved checkpoint gives back every field unchanged (bitwise for floating-point values, for every solver configuration and optional field), so that saving it again gives the same content, and the free-standing reader agrees with the manager. A missing, empty, truncated, foreign or structurally damaged file (for instance one announcing absurd lengths) yields an error, never a panic or abort.",
 ["inputs","fault_sequences"],"Every checkpoint content, every truncation length.",
 "Tests round-trip a handful of fields of one ordinary checkpoint.",
 [K,T,B],"checkpoint file content","serialisation and deserialisation","loaded OQNLPCheckpoint or error")
p("C17","Observer metrics tell the truth at every callback",
 "At every callback and at the end, the observer's Stage 2 metrics equal what actually happened: iteration, best objective and point, solution-set size, merit threshold, unchanged cycles, number of local searches, number of those that changed the solution set, and number of objective evaluations spent in Stage 2 (searches of a batch that were ignored because the target was reached may be left out). The Stage 1 metrics equal the reference-set size, the generated trial points, the best value and the number of all objective evaluations made in Stage 1. Counters never decrease.",
 ["inputs","histories","configurations"],"Every run, batch size, mode and callback frequency.",
 "Tests call the setters directly and read the values back.",
 OB+[O,S],"observer state","observer updates in both stages","observer getters in callbacks and after the run")
p("C18","Observer callbacks follow the documented protocol",
 "Stage 1 callbacks come in the order initialization, diversification, intensification, scatter search, local optimization, completion, and all precede Stage 2; the Stage 1 view is available only while Stage 1 runs (not in a resumed run; its final state afterwards separately) and the Stage 2 view only after Stage 2 starts. In Stage 2 the callback runs once for exactly the processed iterations divisible by the callback frequency (the one that reaches the target may be omitted). The observation mode restricts which stage's metrics are updated, timing is reported only when enabled, and a stage's total time stands still once the stage has ended.",
 ["configurations","histories"],"Every mode, tracking selection, frequency, batch size and stopping reason.",
 "Tests count callbacks for one or two settings.",
 OB+[O,S],"observer flags","callback invocation","sequence of callbacks seen by the user function")
p("C19","Observing, logging and checkpointing never change the result",
 "Attaching an observer (any mode, frequency or callback), enabling verbose output, enabling checkpointing (any frequency or retention) or building with optional features leaves the returned solution set and the sequence of processed trials bitwise unchanged. The set of points at which the objective is evaluated is unchanged too.",
 ["configurations","inputs"],"Every combination of observer, verbosity, checkpoint and feature settings for every problem and seed.",
 "Tests never compare an instrumented run with a plain one.",
 [O,S]+OB+[K],"whole run","instrumentation branches","returned set and objective-call log")
p("C20","A local search result is genuine and its cost is counted",
 "The objective returned with a local solution is the user's objective at that point (plus the configured L1 penalty for L-BFGS, up to rounding of the point for COBYLA, infinite if a solver with iteration limit zero evaluated nothing), and for L-BFGS, Nelder-Mead and trust region never worse than at the starting point. With evaluation tracking the reported count is exactly the number of objective calls made, and tracking does not change the result. A derivative-free solver never asks for derivatives, a missing derivative is an error, and a failing call ends the search with an error (an L-BFGS line search may end at its best point so far; COBYLA treats the point as infinitely bad).",
 ["inputs","configurations"],"Every solver, configuration, starting point and problem, including evaluation failures.",
 "Tests check convergence on one or two smooth functions.",
 [R],"local solution, evaluation counter","LocalSolver::solve and solve_with_tracking","returned solution and count, call log")
p("C21","Every local-solver setting takes effect",
 "A local search behaves exactly as the selected algorithm run with precisely the configured settings (iteration limit, tolerances, line search and its parameters, trust-region method and radii, simplex and COBYLA parameters). Builders change only the setting they name, keep the others, and start from the documented defaults; settings an algorithm rejects, or a configuration of another solver, are reported as that solver's configuration error.",
 ["configurations","inputs"],"Every solver type, every configuration and every order of builder calls.",
 "Tests read back builder fields one at a time and never check that a setting reaches the algorithm.",
 [R,B],"solver configuration","builders and dispatch","local solution compared with the algorithm called directly")
p("C22","Invalid input is rejected with the matching error, valid input is accepted",
 "Construction fails exactly for a population below four, more iterations than population, a non-positive or NaN threshold factor, or a negative or NaN distance factor, with the corresponding error; user points are accepted exactly when they have the right dimension and every coordinate is within the bounds. Bounds that are reversed, equal, NaN or too wide to sample are rejected when the run starts, a checkpoint directory that cannot be created is reported when checkpointing is enabled, and zero frequencies or batch sizes do not break a run. No such input causes a panic.",
 ["inputs","configurations"],"Every combination of boundary, ordinary, extreme and NaN/infinite values of each input.",
 "Tests try one invalid value per parameter, alone.",
 [O,F,S],"parameters","validation in constructors and setters","returned errors")
p("C23","A failing user function yields an error or is skipped, never a panic",
 "An objective failure while evaluating the initial reference set, in a Stage 2 evaluation, or inside a derivative-based or Nelder-Mead local search makes the run return the corresponding error (an L-BFGS line search may end that search at its best point so far instead); in a candidate trial it only discards that candidate, and inside COBYLA it counts as infinitely bad. Missing or failing derivatives make a derivative-based run return the local-solver error. The library never panics and never reports a finite objective value that the user's function did not return.",
 ["fault_sequences","inputs","configurations"],"A failure of any kind at every single evaluation of a run, for every solver and processing mode.",
 "Tests use functions that always fail.",
 [O,S,R],"error propagation","every call of a user function","returned result, call log")
p("C24","The Python bindings behave like the Rust library",
 "optimize() called from Python with a problem, parameters, solver configuration, user points, target, exclusion flag and seed returns exactly the solution set the Rust library returns for the same values, with or without parallel=True, alone, in several threads or started by a user function of another one, and constraints are those of the problem being solved. Exceptions raised by problem functions and invalid arguments surface as Python exceptions (ValueError for the objective, gradient and Hessian; exceptions of observer callbacks are ignored), and later optimisations in the same process are unaffected. Builder objects hold the values they are given or the bindings' documented defaults, the observer exposes the same metrics and its console callbacks write the same log as their Rust counterparts, and the text of a solution set states its size, best objective and solutions in order.",
 ["configurations","inputs","histories"],"Every argument combination, builder setting and sequence of optimisations in one process.",
 "The Python tests check that optima of simple functions are found, never equality with the Rust core or behaviour after a failure.",
 ["python/src/lib.rs","python/src/builders.rs","python/src/observers.rs"],"problem registry, parameter conversion","optimize() and conversions","values returned to Python")
p('C25','The built-in progress log reports every change once',
"The default console callback writes (to stderr) one line for each Stage 1 milestone passed (initialization, diversification, intensification, scatter search, local optimization), in that order, and one line for each Stage 2 callback with a positive iteration number; each line states the metrics the observer shows at that callback (the position in a Stage 2 line is that of the solution added last). The Stage 1 and Stage 2 console callbacks write only their stage's lines, and setting a callback frequency without a callback selects the default one. With unique_updates a Stage 2 line is written, by the default and the Stage 2 console callback alike, exactly when best objective, number of solutions, threshold, local solver calls or function evaluations differ from those at the previous Stage 2 callback, so no change goes unreported and no state is reported twice in a row.",
['configurations', 'histories'],'Every console callback, observation mode, tracking selection, frequency, batch size, fresh or resumed run.',
'Tests check that building an observer with these callbacks does not fail; none reads what is written.',
['src/observers/mod.rs', 'src/oqnlp.rs'],'previous Stage 2 state, change filter','with_default_callback, with_stage1_callback, with_stage2_callback, unique_updates','lines written to stderr')

p('C26','Printed reports state what the solution set holds',
'The text of a solution set (Display, display_with_problem, display_with_constraints) states the number of solutions, the best objective value, and each solution in order with its number, objective and parameters, to the printed precision. For a problem with constraints, display_with_constraints and display_with_problem also state for each solution the value of every constraint in order, with the description given for it if there is one, as satisfied exactly when the value is at least zero and otherwise violated by the amount it is below zero. A problem without constraints gets no constraint section.',
['inputs'],'Every solution set (empty, ties, undefined or infinite objectives), every number of constraints, values and descriptions.',
'Tests look for a few substrings in the text of one or two sets.',
['src/types.rs'],'SolutionSet','Display, display_with_constraints, display_with_problem','returned strings')

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
