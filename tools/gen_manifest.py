"""Writes /verif/MANIFEST.json (run by hand when the list changes)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("seeded simulation of save/load histories over a fault-injecting storage layer; loaded city compared with the saved one",
         "the real save and load code on a simulated disk: chunking, encodings, line separators, short and failing reads drawn from the seed; exact comparison of every node, street and width"),
 "C02": ("seeded simulation of crashes, full disks and lost blocks during city saves; every surviving file offered to the loader",
         "crash or ENOSPC at any byte or call of the real save, and lost whole lines; the loader must refuse or return every zone and node. One known finding (cut inside the last number)"),
 "C03": ("seeded storage-fault injection on the four kinds of save, with retries",
         "open, write, close faults at any call or byte, while an earlier error is still held; content compared with a fault-free save"),
 "C04": ("seeded edit/save/reload histories against a small reference matrix, with storage faults",
         "reference model: a dict of the last accepted value per cell; total compared after every step"),
 "C05": ("seeded edit histories of routes and modes against a small reference model",
         "reference model: ordered lists of accepted routes and modes with the documented acceptance rules; state compared after every step, route files included"),
 "C06": ("seeded fault injection into the numerical solver; published result judged against the recorded rounds",
         "solver rounds scripted by the seed (converged, failed, infeasible, negative, NaN, crash) and partly real scipy runs cut short"),
 "C07": ("seeded solver histories; route choice of each round compared with one composed independently from the previous round's frequencies",
         "counts rounds against tolerance and limit; feedback observed through probes of cost and constraints"),
 "C08": ("seeded histories of evaluations, aborted evaluations and reports against a fresh process per evaluation",
         "oracle: the same evaluation made first in a process forked before the history began"),
 "C09": ("conservation invariants checked at every round and probe of seeded optimisation histories",
         "flow balance at every city node and along every route, from the real assignment, at scripted solver visits"),
 "C10": ("seeded interruptions (KeyboardInterrupt, MemoryError, OSError) at simulator-chosen lines, then inputs and reruns compared",
         "sys.monitoring line steps select the interruption point; reruns compared with an uninterrupted process"),
 "C11": ("seeded thread schedules with line-level preemption over shared inputs; results compared with running alone",
         "real threads, exactly one runnable at a time, switched only where the plan says; oracle: each caller alone in a forked process"),
 "C12": ("seeded publishable solver outcomes; every report compared with an independently composed evaluation",
         "published results forced by the simulated solver, reports asked in any order, with failing saves in between"),
 "C13": ("seeded scenarios replayed in processes with simulator-chosen hash seed, heap, GC, clock, randomness and history; transcripts compared",
         "8 (quick) or 16 (thorough) process variants run every scenario; results must agree"),
 "C14": ("seeded interleavings of independent sessions by operation or by preempted threads, against each session alone",
         "oracle: the session's transcript in its own forked process"),
 "C15": ("seeded crash points over planning sessions, restart from the surviving files, results compared",
         "crash between steps, inside an evaluation, at any byte or call of the city save; cold restarts in another process"),
 "C16": ("seeded edit histories; results on the edited objects compared with results on fresh objects in a pristine process",
         "accepted and rejected edits between constructions, evaluations, optimisations and reports"),
 "C24": ("seeded histories and thread schedules over mode catalogues against a small reference model",
         "reference model: ordered list of accepted modes per catalogue; state, names, look-ups and the optimisation check compared after every step; look-ups by preempted threads"),
 "C25": ("seeded solver behaviours; every round's objective, limits and bounds taken apart by the simulated solver and compared with an independent statement of the problem",
         "the simulator plays the solver: evaluation points, order, array reuse, answers and failures are scripted; limits compared as columns of values, whatever form they are passed in"),
 "C26": ("seeded histories, interruptions and thread schedules of route-choice questions to shared objects; each answer compared with the same question asked first in a pristine process",
         "oracle: every question asked of fresh objects in a process forked before the history began; answers, graph and inputs compared exactly"),
 "C17": ("seeded histories of pictures and failed saves; picture bytes compared with the same picture drawn first in a fresh process",
         "real matplotlib on a simulated disk"),
}
NA = {
 "C18": "a pure function of its parameters: no concurrency, time, I/O, history or fault for a simulator to control",
 "C19": "a pure function of its parameters: no concurrency, time, I/O, history or fault for a simulator to control",
 "C20": "a pure function of the city and its arguments: nothing for a simulator to schedule or fail (that the result does not depend on history or on a reload is part of C05, C15 and C16)",
 "C21": "optimality of the computed strategy is a pure function of network and frequencies; simulation adds nothing to testing inputs (its feedback and conservation are C07 and C09)",
 "C22": "agreement with the published formulas is a pure function of network and frequencies (history independence and internal agreement are C08 and C12)",
 "C23": "a pure function of the constructor's arguments (rejected edits within histories are part of C16)",
}
doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py setup",
       "checks": [{"property": k, "quick_cmd": "/opt/venv/bin/python run.py check %s --quick" % k, "thorough_cmd": "/opt/venv/bin/python run.py check %s --thorough" % k,
                   "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in sorted(T.items())],
       "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())],
       "notes": "No hooks in /repo: file I/O, solver, line steps, threads and locks are taken over from outside (DESIGN.md). Replay: run.py replay FILE."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
