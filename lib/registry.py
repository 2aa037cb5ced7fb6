"""Which function decides which property, and how MANIFEST.json describes it."""
import fam_stage2, fam_observer
MC = "model_checking"
T2 = "TLA+ model of Stage 2 checked by TLC; TLC-generated behaviours replayed into the library; recorded runs validated against the specification by TLC"
N2 = ("Exhaustive for the specification within small bounds; the implementation is bound to it by replayed TLC behaviours and by "
      "TLC validation of recorded runs over scripted and real landscapes (sampled). Trusts the checkpoint contents as the observation of the state.")
REG, DOC = {}, {}


def reg(pids, fn, tech, note, level=MC):
    for p in pids.split():
        REG[p] = (level, fn)
        DOC[p] = (tech, note, level)


reg("C01 C02 C03 C04 C05 C07 C11", fam_stage2.check, T2, N2)

TO = "TLA+ model of the observer protocol checked by TLC; callbacks recorded from fresh and resumed runs validated against it (and against the Stage 2 specification) by TLC"
NO = ("The protocol model is exhaustive within small bounds; recorded callbacks are sampled over modes, tracking, timing, "
      "frequencies, batch sizes, worlds and resumed runs. Evaluation counts are measured by the problem itself.")
reg("C17 C18", fam_observer.check, TO, NO)

import fam_equiv
reg("C10 C19", fam_equiv.check,
    "TLA+ model of concurrent batches, observers and checkpoint writers checked by TLC (confluence); pairs of recorded runs walked in lock step by TLC (self-composition)",
    "Confluence is exhaustive for small batches; pairs of runs are sampled over worlds, parameters, seeds, thread counts, delays, observers, checkpoint settings and six feature builds.")

import fam_store
reg("C14", fam_store.check_store,
    "TLA+ model of the checkpoint directory checked by TLC; all short TLC behaviours and random long histories executed on the real store, results and directory listings validated by TLC",
    "Exhaustive for the model and for all operation sequences up to a small length; longer histories and file-name shapes are sampled.")
reg("C15", fam_store.check_save,
    "TLA+ model of the save protocol at file-system-call level with death, torn writes and failing calls checked by TLC; real saves killed or disturbed at every call (LD_PRELOAD), recorded calls and the next process's loads validated by TLC",
    "Every crash point at call granularity of the observed calls plus sampled torn lengths; process death only, not loss of data the kernel accepted.")
reg("C16", fam_store.check_codec,
    "TLA+ specification of the checkpoint encoding (schema-driven codec) checked by TLC for round trip, prefix rejection and totality; TLC-enumerated checkpoint shapes filled with adversarial values round-tripped through the real code, results and reads of truncated, foreign and mutated files validated by TLC",
    "All shapes of a checkpoint in small bounds, values sampled; every truncation length of the sampled files; mutated and foreign files sampled.")
import fam_resume
reg("C12", fam_resume.check_resume,
    "TLA+ model of a checkpointed run that dies any number of times checked by TLC (safety and liveness); real runs interrupted repeatedly (panics at objective calls, SIGKILL at file-system calls) and restarted, histories validated by TLC against the uninterrupted run",
    "Exhaustive for the model in small bounds; interruption points, worlds, batch sizes, frequencies and retention of the real histories are sampled.")
reg("C13", fam_resume.check_modified,
    "TLA+ model of stopping and continuing with other parameters checked by TLC; real modified resumes judged by TLC (reference set, parameters, budget) and every later decision validated against the Stage 2 specification from the checkpointed state",
    "Exhaustive for the model in small bounds; parameter changes, stopping points and worlds of the real histories are sampled.")

import fam_scatter
reg("C08 C09", fam_scatter.check,
    "TLA+ model of Stage 1 (seeding, farthest-first diversification, combination, update) checked by TLC; TLC-generated behaviours replayed into the real scatter search; recorded executions judged by TLC",
    "Exhaustive for the model on a small line with every objective function; real executions over dimensions, boxes, populations, constraints, user points, undefined objectives, ties and failing evaluations are sampled.")

import fam_local
reg("C20 C21", fam_local.check,
    "TLA+ automaton of a local search and of a solver builder checked by TLC; recorded local searches walked by TLC in lock step with the untracked search and with the algorithm called directly",
    "The automaton is exhaustive within small bounds; solvers, configurations, builder-call sequences, problems, starting points and injected failures of the real searches are sampled. argmin and cobyla are trusted.")

import fam_valid
reg("C22", fam_valid.check,
    "TLA+ specification of the construction phases and their errors checked by TLC over every abstract input; TLC-generated inputs made concrete and given to the real library, outcomes judged by TLC",
    "Every abstract input within the bounds with sampled concrete values (boundary, subnormal, extreme, NaN, infinite); harmless settings combined at random.")

import fam_faults
reg("C23", fam_faults.check,
    "TLA+ model of a run in which any call may fail checked by TLC (safety and termination); real runs with failures injected at every phase boundary and at sampled calls, recorded calls and outcome validated by TLC",
    "Exhaustive for the model in small bounds; problems, solvers, batch sizes, threads and the failing calls of the real runs are sampled (all phase boundaries included).")

import fam_time
reg("C06", fam_time.check,
    "TLA+ model of Stage 2 against a clock checked by TLC; real runs under a virtual clock with limits around every batch end, and resumed ones, judged by TLC against runs whose budget ended at each batch",
    "Exhaustive for the model in small bounds; worlds, durations per call, batch sizes and limits of the real runs are sampled. Time passes only in user functions.")

import fam_py
reg("C24", fam_py.check,
    "TLA+ model of the bindings' process-wide state (interpreter lock, mutex, constraint registry, thread-local problem) checked by TLC; histories of optimisations in one Python process judged by TLC against the Rust library on the same inputs",
    "Exhaustive for two threads and problems with two runs each; the histories (arguments, builders, observers, failures, threads) are sampled.")


import fam_text
reg("C25", fam_text.check_log,
    "TLA+ model of the progress log (which line each callback writes, change filter) checked by TLC; logs written by real runs with every built-in callback validated by TLC against the callbacks recorded in a twin run",
    "Exhaustive for the model within small bounds; worlds, observer settings, batch sizes and resumed runs of the real logs are sampled.")
reg("C26", fam_text.check_report,
    "TLA+ specification of the printed report with a reader that gets the set back, checked by TLC for every small set; real reports of generated sets read statement by statement by TLC",
    "Exhaustive for small abstract sets; values (undefined, infinite, subnormal, ties), dimensions, constraint values and descriptions of the real reports are sampled.")
