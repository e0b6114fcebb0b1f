#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe), hook_needed=None))

PROPS = [
P("P01", "A disturbed run never prints a wrong verdict",
  "Whatever moment a CPU limit, a memory limit, a failing allocation or a termination signal strikes a prover run, any conclusive verdict it prints (proof-type: Theorem, Unsatisfiable, ContradictoryAxioms; model-type: Satisfiable, CounterSatisfiable) is the true one for the problem it was given. A run that cannot establish the verdict prints a non-conclusive status or none, never the opposite verdict, and a conclusive verdict is never followed by a contradicting conclusive one.",
  ["inputs", "crash_points", "fault_sequences", "configurations"],
  "every problem, option set and every point of the run at which an interruption, limit or allocation failure lands",
  "The 33 tests are undisturbed 'eprover --auto' runs on problems that are solved; no test interrupts a run, limits memory or fails an allocation, and the interruption point is a choice among millions of instructions.",
  ["PROVER/eprover.c", "CONTROL/cco_proofproc.c", "INOUT/cio_signals.c", "BASICS/clb_memory.c"],
  [("verdict selection after the main loop", "PROVER/eprover.c main()"),
   ("interruption polling in the saturation loop", "CONTROL/cco_proofproc.c Saturate()"),
   ("SIGXCPU/SIGTERM handling", "INOUT/cio_signals.c ESignalHandler()"),
   ("out-of-memory exit", "BASICS/clb_memory.c SecureMalloc()/SecureRealloc()")],
  ["SZS status lines on stdout", "exit status"]),
P("P02", "Discarded work never turns into a claim of satisfiability",
  "When the prover stops early or throws clauses away because of a limit (CPU soft limit, clause/step limits, storage limit that deletes unprocessed clauses, low memory), it never reports Satisfiable, CounterSatisfiable or a completed saturation; it reports that it gave up or ran out of resources. Throwing work away may cost a proof but a proof it still finds is a real one.",
  ["inputs", "configurations", "crash_points"],
  "every problem, every limit value and every point where the limit bites",
  "No test uses a storage, step or clause limit, and the existing tests only see runs that finish unhindered; the dangerous case needs the limit to bite shortly before the clause set runs empty.",
  ["CONTROL/cco_proofproc.c", "PROVER/eprover.c", "CLAUSES/ccl_proofstate.h"],
  [("memory-pressure clause deletion marks the state incomplete", "CONTROL/cco_proofproc.c cleanup_unprocessed_clauses()"),
   ("completeness flags consulted before a model verdict", "PROVER/eprover.c main()")],
  ["SZS status lines", "exit status"]),
P("P03", "Every run ends, with one status that matches its exit code",
  "Every prover run on readable input ends by itself, without crashing, and its exit code agrees with what it printed: a proof status with the proof-found code, a model status with the satisfiable code, ResourceOut or GaveUp with a no-answer code, and an error code only with an error message. A success exit code is never returned without the corresponding conclusive status having been delivered.",
  ["inputs", "configurations", "crash_points", "fault_sequences"],
  "every problem and every combination of limits, signals, allocation failures and I/O errors",
  "Tests only look at the status word of undisturbed successful runs, never at the exit code or at runs that fail.",
  ["PROVER/eprover.c", "BASICS/clb_error.h", "BASICS/clb_error.c", "INOUT/cio_signals.c", "CONTROL/cco_scheduling.c"],
  [("exit code returned by main", "PROVER/eprover.c"), ("Error()/SysError() exit codes", "BASICS/clb_error.c")],
  ["stdout", "stderr", "exit status"]),
P("P04", "Running out of memory is always a clean, reported stop",
  "If memory allocation fails at any point of a run and keeps failing, the program stops promptly with the out-of-memory exit code and says so, without crashing, hanging, corrupting its output or claiming a verdict it had not established. If the failure is transient and memory can be reclaimed, the run continues and gives exactly the result it would have given.",
  ["fault_sequences", "crash_points", "inputs"],
  "every allocation of every run, transient or persistent failure, and every memory limit",
  "No test makes an allocation fail.",
  ["BASICS/clb_memory.c", "BASICS/clb_memory.h", "BASICS/clb_error.c"],
  [("retry after flushing free lists, else exit", "BASICS/clb_memory.c SecureMalloc(), SecureRealloc()")],
  ["stdout", "exit status"]),
P("P05", "CPU limits are obeyed and reported",
  "A run given a CPU time limit never consumes more CPU time than the limit plus a small fixed grace, whatever it is doing when the limit strikes, and when it is the limit that ended the run it reports running out of resources with a non-success exit code (unless told to be silent). A soft limit lets the prover wind down in an orderly way and a hard limit ends it even if it does not.",
  ["inputs", "crash_points", "configurations"],
  "every problem, limit pair and clock position, including limits that fire during parsing, preprocessing, saturation and proof output",
  "Tests never run into a limit; the outcome depends on where in the run the signal arrives.",
  ["INOUT/cio_signals.c", "PROVER/eprover.c", "CONTROL/cco_proofproc.c"],
  [("soft limit sets a flag, second expiry ends the process", "INOUT/cio_signals.c ESignalHandler()"),
   ("limit computation", "PROVER/eprover.c process_options()")],
  ["CPU time at exit", "SZS status", "exit status"]),
P("P06", "Input faults never change the problem being proved",
  "How input is delivered (in any chunks, from a file, an included file or standard input) has no influence on the result. If any part of the input cannot be opened or read, the program ends with an error exit and message and prints no verdict; it never goes on with a silently truncated problem.",
  ["fault_sequences", "inputs"],
  "every fragmentation of every input stream and every read or open error at every byte position, including nested include files",
  "Tests read intact local files only; an error needs to hit a chosen read call.",
  ["INOUT/cio_streams.c", "INOUT/cio_fileops.c", "INOUT/cio_scanner.c", "CLAUSES/ccl_formulasets.c"],
  [("character reading and lookahead", "INOUT/cio_streams.c"), ("file opening", "INOUT/cio_fileops.c InputOpen()"),
   ("include handling", "CLAUSES/ccl_formulafunc.c")],
  ["SZS status", "exit status", "stderr"]),
P("P07", "Success is never reported for output that was not delivered",
  "If a run ends with a success exit code then everything it printed was accepted by the output channel, complete and in order. If output cannot be written (full disk, I/O error, closed pipe), the process ends with an error exit code or a signal, never with a success code and a missing or truncated verdict or proof.",
  ["fault_sequences", "inputs", "configurations"],
  "every write of every run, in single-process, scheduled and file-output configurations",
  "Tests write to a healthy pipe; no write ever fails.",
  ["INOUT/cio_output.c", "PROVER/eprover.c", "CONTROL/cco_scheduling.c", "CONTROL/cco_gproc_ctrl.c"],
  [("OutClose() checks the stream", "INOUT/cio_output.c"), ("flush after every status line", "INOUT/cio_output.h TSTPOUT")],
  ["bytes accepted by stdout / output file", "exit status"]),
P("P08", "Results do not depend on timing, memory layout or chunking",
  "Two runs of the same program on the same input with the same options and no limit striking produce the same output, verdict and proof, whatever the speed of the machine, the time of day, the process id, where in the address space its memory lies, the contents of fresh memory and the way input is chunked; the verdict does not depend on the relative order of addresses either.",
  ["inputs", "configurations", "schedules"],
  "every problem and every pair of environments differing only in clock, memory layout, fresh-memory contents, process id and input fragmentation",
  "Each test is run once in one environment and only the status word is compared.",
  ["CONTROL/cco_proofproc.c", "TERMS/cte_termbanks.c", "BASICS/clb_memory.c", "BASICS/clb_ptrees.c", "HEURISTICS"],
  [("identity-based rather than address-based ordering", "CLAUSES, TERMS"), ("fixed random seeds", "BASICS/clb_random.c")],
  ["complete stdout"]),
P("P09", "Multi-strategy runs relay one strategy's result intact",
  "When several strategies run in parallel processes, the verdict, proof and exit code the user sees are exactly those of one strategy process that really finished with a conclusive result: complete, in order, not mixed with another process's output, whatever order and pieces the results arrive in. A strategy that crashed, was killed or was cut off is never presented as having succeeded.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving of the strategy processes, every split of their output into pieces and every crash of any of them",
  "No test uses the parallel scheduler with a controlled order of completion or a dying child; the tests run single strategies.",
  ["CONTROL/cco_scheduling.c", "CONTROL/cco_gproc_ctrl.c"],
  [("per-child pipe and output buffer", "CONTROL/cco_gproc_ctrl.c EGPCtrlGetResult()"), ("winner selection", "CONTROL/cco_scheduling.c ExecuteScheduleMultiCore()")],
  ["stdout of the top process", "exit status"]),
P("P10", "Multi-strategy runs always finish and never lose a found result",
  "A multi-strategy run always terminates: if some strategy process finishes with a conclusive result that result is reported, and if all of them end without one the run reports giving up or running out of resources with a no-answer exit code. Child crashes, slow children, output of any size and scheduling delays cannot make it hang or drop a result.",
  ["schedules", "fault_sequences", "configurations"],
  "every interleaving, core count, schedule, output volume and set of children that die",
  "The tests never exercise several children with adverse timing; a hang or lost result needs a specific interleaving.",
  ["CONTROL/cco_scheduling.c", "CONTROL/cco_gproc_ctrl.c"],
  [("select loop over children pipes", "CONTROL/cco_gproc_ctrl.c EGPCtrlSetGetResult()"), ("schedule loop", "CONTROL/cco_scheduling.c")],
  ["termination in simulated time", "stdout", "exit status"]),
P("P11", "No strategy process outlives its run or exceeds the core limit",
  "A multi-strategy run never has more strategy processes working at the same time than the cores it was allowed, and when it ends (result found, schedule exhausted, or asked to terminate) every process it started has been stopped and collected. Asking it to terminate always ends it promptly.",
  ["schedules", "crash_points", "configurations"],
  "every interleaving and every moment at which the run is terminated",
  "No test inspects the process tree or sends signals.",
  ["CONTROL/cco_scheduling.c", "CONTROL/cco_gproc_ctrl.c", "INOUT/cio_signals.c"],
  [("termination handler kills children", "INOUT/cio_signals.c ESigTermSchedHandler(), CONTROL/cco_scheduling.c"), ("kill and wait", "CONTROL/cco_gproc_ctrl.c EGPCtrlCleanup()")],
  ["simulated process table"]),
P("P12", "Network messages arrive exactly as sent",
  "A message sent over the text-message network protocol is received as exactly the same sequence of bytes, whole and in order relative to other messages, however the network splits or merges the byte stream. A client reaches the server through whichever of the host's addresses accepts the connection. A connection that breaks in the middle of a message yields an error or end of session, never a partial, merged or altered message that is acted on.",
  ["schedules", "fault_sequences", "histories"],
  "every message sequence, every fragmentation of the byte stream in both directions and every disconnect point",
  "There are no tests of the network layer at all.",
  ["INOUT/cio_network.c", "INOUT/cio_multiplexer.c", "INOUT/cio_simplestuff.c", "PROVER/e_client.c"],
  [("length-prefixed framing", "INOUT/cio_network.c TCPMsgRead()/TCPMsgWrite()")],
  ["client- and server-side message logs"]),
P("P13", "A deduction-server session behaves like its axiom-set model",
  "In a deduction-server session every command acts on the named axiom sets as documented: an added, loaded, staged, unstaged or removed set appears so in every later listing and download with unchanged content, and no command loses or alters a set it does not name. A command that is refused with an error code changes nothing, and no history of commands makes the session or one of its jobs crash.",
  ["histories", "inputs", "schedules"],
  "every sequence of commands, names and axiom texts, and every way the session's input is chunked and delayed",
  "There are no tests of the server.",
  ["CONTROL/cco_einteractive_mode.c", "CONTROL/cco_simple_stuff.c", "README.server"],
  [("command dispatch and set stack", "CONTROL/cco_einteractive_mode.c")],
  ["responses to LIST, DOWNLOAD and status codes"]),
P("P14", "A deduction-server job is answered from exactly its session's axioms",
  "A proof job is answered with a proof verdict only if its conjecture really follows from the axioms that session has staged plus the job's own, and a provable small job is answered as proved; axioms of other sessions, of removed or unstaged sets or of earlier jobs never take part. The prover processes a job starts being killed, slow or failing can cost an answer but never produces a wrong one or ends the session.",
  ["histories", "schedules", "fault_sequences"],
  "every history of staging and jobs, every interleaving of concurrent sessions and every failure of the prover processes",
  "There are no tests of the server; cross-talk needs several sessions or jobs in sequence.",
  ["CONTROL/cco_einteractive_mode.c", "CONTROL/cco_batch_spec.c", "CONTROL/cco_proc_ctrl.c", "PROVER/e_deduction_server.c"],
  [("backtracking of the structured specification after each job", "CONTROL/cco_sine.c, CONTROL/cco_batch_spec.c"), ("fork per connection", "PROVER/e_deduction_server.c")],
  ["job responses"]),
P("P15", "The server survives its clients",
  "The deduction server keeps accepting and correctly serving connections whatever other clients do: disconnect at any moment, send malformed or oversized input, stall, or have their session process die. Each session ends when its client leaves, leaving nothing running once a job under way has come to its end, and ended sessions are collected when the next client is served.",
  ["schedules", "fault_sequences", "histories"],
  "every behaviour of every other client and every interleaving of their sessions",
  "There are no tests of the server.",
  ["PROVER/e_deduction_server.c", "CONTROL/cco_einteractive_mode.c", "INOUT/cio_network.c"],
  [("accept loop, one process per connection", "PROVER/e_deduction_server.c main()")],
  ["responses to a well-behaved probe client", "simulated process table"]),
P("P16", "Batch verdicts come only from prover processes that established them",
  "In batch mode a problem is reported as proved only if one of the prover processes run for that problem reported a proof of it, the stored solution is that process's complete output, and each problem of the batch is processed and reported exactly once. Prover processes that crash, are killed, time out or print partial results never count as success, and a proof found within the limits is never lost.",
  ["schedules", "fault_sequences", "inputs"],
  "every interleaving and outcome of the prover processes, split of their output and failure of the temporary files handed to them",
  "There are no tests of the batch runner.",
  ["CONTROL/cco_batch_spec.c", "CONTROL/cco_proc_ctrl.c", "PROVER/e_ltb_runner.c"],
  [("result recognition", "CONTROL/cco_proc_ctrl.c EPCtrlGetResult(), EPCtrlSetGetResult()"), ("job loop", "CONTROL/cco_batch_spec.c BatchProcessProblem()")],
  ["batch log", "solution files"]),
P("P17", "Batch runs keep to their limits and clean up their processes",
  "Batch mode always finishes: each problem within its wall-clock limit and the whole batch within its overall limit, plus a bounded grace, however slow, silent, talkative or short-lived the prover processes are as long as they react to a request to terminate. When a problem is done or the limit is reached every prover process started for it has been ended and collected.",
  ["schedules", "fault_sequences", "configurations"],
  "every behaviour of the prover processes, including ones that never answer or ignore their own limit, and every clock position",
  "There are no tests of the batch runner and none that control a clock.",
  ["CONTROL/cco_batch_spec.c", "CONTROL/cco_proc_ctrl.c"],
  [("wall-clock check in the job loop", "CONTROL/cco_batch_spec.c BatchProcessProblem()"), ("kill on cleanup", "CONTROL/cco_proc_ctrl.c EPCtrlCleanup()")],
  ["simulated clock at each report", "simulated process table"]),
P("P18", "Temporary files never outlive the program that made them",
  "Every temporary file a program creates is gone when the program has ended, whether it ended normally, with an error, because its client left, or because it was asked (once) to terminate or interrupted; being asked to does end it.",
  ["crash_points", "fault_sequences", "configurations"],
  "every program that creates temporary files and every moment and manner of its ending short of an uncatchable kill",
  "No test looks at the temporary directory or interrupts a program.",
  ["INOUT/cio_tempfile.c", "INOUT/cio_signals.c", "INOUT/cio_initio.c", "CONTROL/cco_batch_spec.c", "CONTROL/cco_einteractive_mode.c"],
  [("registry of temporary files", "INOUT/cio_tempfile.c"), ("cleanup on exit and signals", "INOUT/cio_initio.c, INOUT/cio_signals.c")],
  ["contents of the temporary directory after exit"]),
P("P19", "The strategy-parallel front end reports only a real winner",
  "The strategy-parallel front end answers with the output of a prover process that reported a definite result, and if none does it says so; it always ends once its prover processes have ended, and crashing, slow or silent prover processes never produce a success report or a hang. A prover process that cannot be started is an error. When it ends no prover process it started keeps running.",
  ["schedules", "fault_sequences"],
  "every interleaving, result and failure of the prover processes it starts",
  "There are no tests of this program.",
  ["PROVER/e_stratpar.c", "CONTROL/cco_proc_ctrl.c"],
  [("collect loop", "PROVER/e_stratpar.c main()"), ("result recognition", "CONTROL/cco_proc_ctrl.c")],
  ["stdout", "exit status", "simulated process table"]),
P("P20", "The proof checker accepts a step only if a prover verified it",
  "The proof checker reports a proof as verified only if for every clausal step that needs checking a prover process, given exactly that step, positively confirmed it by announcing a proof (other steps are taken on trust, and the checker says so). Prover processes that crash, are killed, time out, cannot be started or give partial output make steps unverified, never verified.",
  ["fault_sequences", "schedules", "inputs"],
  "every failure of the prover processes it starts and of the files it hands to them",
  "There are no tests of the proof checker.",
  ["PCL2/pcl_proofcheck.c", "PROVER/checkproof.c"],
  [("verification by an external prover", "PCL2/pcl_proofcheck.c")],
  ["checker summary", "exit status"]),
P("P21", "Printed proofs are complete derivations whatever the run went through",
  "Whenever the prover prints a proof, the printed derivation is closed: every step's parents are printed, it is acyclic, its leaves are exactly input formulas with their original names and sources, and it ends in a contradiction; this holds however often clauses were deleted or memory reclaimed during the search and whichever limit was about to strike. A run whose proof output was cut off does not exit with success.",
  ["inputs", "configurations", "crash_points", "fault_sequences"],
  "every proof printed under every memory, clause-deletion and interruption regime",
  "The tests only look at the status word, not at the proof.",
  ["CLAUSES/ccl_derivation.c", "CONTROL/cco_proofproc.c", "PROVER/eprover.c"],
  [("derivation recording and extraction", "CLAUSES/ccl_derivation.c"), ("archiving instead of freeing used clauses", "CONTROL/cco_proofproc.c")],
  ["proof text on stdout"]),
P("P22", "Grounding says so when its output is incomplete",
  "The grounder announces its result as full and complete only if every required ground instance was produced; when a time or memory limit stops it the result is marked incomplete and what was written is still made of true instances of the input. The announcement is the same decision a complete run would allow: an interrupted result is never announced complete.",
  ["crash_points", "inputs", "configurations"],
  "every problem and every point at which the time or memory limit strikes",
  "There are no tests of the grounder.",
  ["CLAUSES/ccl_grounding.c", "PROVER/eground.c", "CLAUSES/ccl_groundconstr.c"],
  [("completeness marker", "CLAUSES/ccl_grounding.c")],
  ["marker line and ground clauses on stdout", "exit status"]),
P("P23", "Knowledge-base updates lose nothing, whatever interrupts them",
  "After any sequence of create, insert and delete operations, some of which were killed or hit I/O errors at arbitrary points, every example that was in the knowledge base before and was not the target of the interrupted operation is still there with its data, and the knowledge base can still be read and updated. An operation that reports success has taken full effect.",
  ["histories", "crash_points", "fault_sequences"],
  "every history of operations and every crash point and I/O error within them",
  "There are no tests of the knowledge-base tools.",
  ["PROVER/ekb_create.c", "PROVER/ekb_insert.c", "PROVER/ekb_ginsert.c", "PROVER/ekb_delete.c", "LEARN/cle_kbdesc.c", "LEARN/cle_kbinsert.c"],
  [("order of file updates", "PROVER/ekb_insert.c, PROVER/ekb_delete.c")],
  ["knowledge-base directory read back by the tools"]),
# ---- properties outside this technique
P("N01", "The calculus is sound",
  "Every clause the prover derives follows from its input, so every printed refutation is a real one.",
  ["inputs", "configurations"], "every problem and strategy",
  "Tests sample 33 problems.", ["CLAUSES", "CONTROL/cco_proofproc.c"],
  [("inference functions", "CLAUSES/ccl_paramod.c, ccl_rewrite.c, ccl_eqnresolution.c")]),
P("N02", "The saturation strategy is refutationally complete",
  "For a fair complete strategy an unsatisfiable problem is eventually refuted, and a saturated set without contradiction is satisfiable.",
  ["inputs", "configurations"], "every problem and complete strategy",
  "Tests sample 33 problems.", ["CONTROL/cco_proofproc.c", "ORDERINGS"],
  [("given-clause loop", "CONTROL/cco_proofproc.c")]),
P("N03", "Clausification preserves satisfiability",
  "The clause set produced from a set of formulas is satisfiable exactly if the formulas (with negated conjecture) are.",
  ["inputs"], "every formula", "Tests sample 33 problems.", ["CLAUSES/ccl_tcnf.c", "CLAUSES/ccl_formulafunc.c"],
  [("clause normal form translation", "CLAUSES/ccl_tcnf.c")]),
P("N04", "Printing and parsing are inverse",
  "Every formula or clause printed in a supported syntax parses back to the same logical object.",
  ["inputs"], "every formula and output format", "Not covered by the tests.", ["INOUT/cio_scanner.c", "CLAUSES/ccl_tformulae.c"],
  [("scanner and printers", "INOUT, CLAUSES")]),
P("N05", "Term orderings are reduction orderings",
  "The term orderings are total on ground terms, well-founded, monotonic and stable under substitution.",
  ["inputs", "configurations"], "every pair of terms and ordering parameters", "Not covered by the tests.", ["ORDERINGS"],
  [("KBO and LPO comparison", "ORDERINGS/cto_kbolin.c, cto_lpo.c")]),
P("N06", "Indexed retrieval agrees with exhaustive search",
  "Every index (discrimination trees, fingerprints, feature vectors) returns exactly the candidates an exhaustive scan would confirm.",
  ["inputs", "histories"], "every index content and query", "Only indirectly covered by the tests.", ["CLAUSES/ccl_pdtrees.c", "TERMS/cte_fp_index.c", "CLAUSES/ccl_fcvindexing.c"],
  [("index structures", "CLAUSES/ccl_pdtrees.c")]),
P("N07", "Axiom selection only ever drops axioms",
  "Relevance filtering outputs a subset of the input axioms plus the conjecture, unaltered.",
  ["inputs", "configurations"], "every problem and filter", "Not covered by the tests.", ["CONTROL/cco_sine.c", "PROVER/e_axfilter.c"],
  [("SInE selection", "CONTROL/cco_sine.c")]),
]

NA = {
 "N01": "Pure function of problem and options: no clock, schedule, I/O or fault takes part in an inference step, so simulation adds nothing over input generation. Its disturbance-dependent part (verdicts and proofs under limits, deletion and interruption) is claimed as P01, P02, P21.",
 "N02": "Pure mathematical property of calculus and ordering; no nondeterminism or fault for a simulator to control. Its disturbance-dependent part is claimed as P02.",
 "N03": "Pure function of the input formula; nothing to schedule or fail.",
 "N04": "Pure function of the formula; nothing to schedule or fail (delivery of the bytes is P06/P07).",
 "N05": "Pure function of two terms and the ordering parameters.",
 "N06": "Deterministic single-threaded data structures; a history of operations but no schedule, clock or fault.",
 "N07": "Pure function of input and filter parameters.",
 "P23": "The knowledge-base tools do not work in this tree, with or without faults: ekb_create/ekb_insert write clause patterns in a syntax (\"f1_1 @ Y1\", printed by the FOOL/HO term printer) that the same tools cannot read back, so every knowledge base with one example is unreadable and there is no working behaviour for a simulated crash to damage. The repair (printer and pattern parser) is not small; see DESIGN.md.",
}

LEVEL_NOTE = {}   # property -> what the level means here; default below
def main():
    import sys, importlib, pkgutil
    sys.path.insert(0, HERE); sys.dont_write_bytecode = True
    from dst import core
    import dst.checks
    have = {}
    for m in pkgutil.iter_modules(dst.checks.__path__):
        mod = importlib.import_module("dst.checks." + m.name)
        for o in vars(mod).values():
            if isinstance(o, type) and issubclass(o, core.Check) and o.id: have[o.id] = o
    with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
        for p in PROPS:
            p = json.loads(json.dumps(p)); p["anchors"].pop("hook_needed", None)
            h.write(json.dumps(p) + "\n")
    checks = []; na = []
    for p in PROPS:
        if p["id"] in have:
            c = have[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                technique="deterministic simulation with fault injection (seeded search over schedules and fault sequences)",
                level="exploration",
                level_note=(getattr(c, "level_note", "") or "Seeded exploration of simulated executions of the unmodified programs; every verdict is exact for the runs made, nothing is claimed about runs not made. Oracle: %s" % c.rule)))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "No check built yet.")))
    man = dict(version=1, setup_cmd="bash sim/build.sh /verif/build/fo fo",
        checks=checks, not_applicable=na,
        notes="No hooks in /repo: the simulator is linked under the unmodified programs by interposing libc and compiler coverage callbacks (see DESIGN.md). Commits in /repo are fixes only.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as h: json.dump(man, h, indent=1); h.write("\n")
    print(len(checks), "claimed;", len(na), "not applicable")
if __name__ == "__main__": main()
