"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
G = "sidermit/city/graph.py"
D = "sidermit/city/demand.py"
N = "sidermit/publictransportsystem/network.py"
M = "sidermit/publictransportsystem/mode.py"
P = "sidermit/publictransportsystem/passenger.py"
O = "sidermit/optimization/optimizer.py"
A = "sidermit/optimization/preoptimization/assignment.py"
H = "sidermit/optimization/preoptimization/hyper_path.py"
X = "sidermit/optimization/preoptimization/extended_graph.py"
U = "sidermit/optimization/users_cost.py"
OC = "sidermit/optimization/operators_cost.py"
I = "sidermit/optimization/infrastructure_cost.py"
K = "sidermit/optimization/constrains.py"


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    return d


L = []
L.append(p("C01", "A saved city loads back as the same city, through any save/load history",
  "Loading a city file that the system itself saved - after any sequence of builds, saves, overwrites and loads, under any legal chunking of the reads and writes and whatever the platform's default text encoding or newline - gives a city with the same zones, the same node ids, names, kinds, zone membership, coordinates and widths, the same streets with the same lengths, and the same width parameter. A load that meets a read error raises instead of returning a partial city. Saving never changes the city being saved.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of build / save / overwrite / load steps over symmetric, asymmetric and CBD-eccentric cities (mean subcenter radius > 0, or no zones) and over hand-written city files with non-ASCII names, under every split of the I/O into short reads and writes, every buffer size, default encoding and line separator, and read errors at any point",
  "The tests save or load one hand-made file at a time on the test machine's encoding, and never load back what was saved.",
  [G], [("graph_to_pajek_file / export_graph", G), ("build_from_file / build_from_content", G)],
  observe=["Graph.get_nodes", "Graph.get_edges", "Graph.get_edges_distance", "Graph.get_zones", "Graph.get_parameters"]))
L.append(p("C02", "A damaged city file is never loaded as a smaller city",
  "If a crash, a full disk or a lost block leaves a city file cut short at any byte, or with some of its node lines missing, loading it either raises an error or still yields every zone and every node the intact file declares, with the original name, position and width. It is never accepted as a city with fewer zones or nodes.",
  ["crash_points", "fault_sequences", "inputs"],
  "every city, every prefix of its file (any crash point of the save, any full-disk byte, also while overwriting an older city's file) and every set of lost whole node lines",
  "The tests load a few hand-damaged files; they never cut a file at an arbitrary byte nor crash a save.",
  [G], [("declared vertex count checked against node rows in the pajek reader", G), ("2n+1 line check, one SC and P per zone, CBD required", G)]))
L.append(p("C03", "A save either completes or raises, and can be retried",
  "Saving a city, an OD matrix, the routes or the network results either returns normally with the complete content in the file, or raises an error to the caller: no storage error on open, write or close is swallowed. A failed save leaves the in-memory objects unchanged, and once the fault clears a later save to the same path writes exactly the complete content, even while the earlier error is still being held.",
  ["fault_sequences", "histories"],
  "every sequence of saves and edits over the four kinds of file, with open failures, ENOSPC/EIO at any byte or any write call, short writes, interrupted calls and close failures at any point, followed by retries",
  "The tests only write to a healthy disk, and never check the content written.",
  [G, D, N, O], [("graph_to_pajek_file", G), ("matrix_to_file", D), ("routes_to_file", N), ("write_file_network_results", O)]))
L.append(p("C04", "OD matrix and trip total stay exact over any edit history",
  "After any history of OD cell edits, matrix builds, saves and reloads, every cell equals the last accepted value for it (zero if none), every origin-destination pair of the city's nodes is present and no other, and the reported total trips equal the sum of the matrix. A rejected edit or a rejected matrix (negative trips, unknown node) raises and changes nothing. Reloading the saved matrix for the same city gives the same matrix and total, under any chunking of the I/O; a load that meets a read error raises.",
  ["histories", "fault_sequences"],
  "every sequence of accepted and rejected cell edits, builds from content, parameters or file, saves and reloads, over any city, with legal short reads and writes and read errors",
  "The tests make one or two edits on one city and never compare the running total with the matrix after rejected or repeated edits.",
  [D], [("change_vij keeps a running total", D), ("matrix_to_file / build_from_file / build_from_content", D)],
  [("total_trips", "running total kept beside the matrix", D)], ["Demand.get_matrix", "Demand.get_total_trips"]))
L.append(p("C05", "A network holds only valid routes and modes after any edit history",
  "After any sequence of adding and removing routes and modes, the network holds exactly the accepted routes in order, each with a unique id and with both its directions running only on streets of the city, and at most two modes, with distinct names and at least one with a single line if there are two; every route's mode is among them. A rejected operation raises and leaves routes and modes as they were, and removing a mode removes all of its routes and no other. A route is found by its id exactly while it is in the network, and the saved route file lists exactly the routes held.",
  ["histories", "inputs"],
  "every sequence of route and mode additions and removals, valid and invalid, over custom and predefined routes, modes and cities, with route files saved in between",
  "The tests perform single additions or removals on small networks; interactions of several operations and state after a rejected one are not examined.",
  [N, M], [("add_route validates both directions, id and mode", N), ("remove_transport_mode", N), ("add_transport_mode / is_valid_to_assignment_step", N + ", " + M)],
  [("routes, routes_id, modes", "three lists that must agree", N)], ["TransportNetwork.get_routes", "get_route", "get_modes", "routes_to_file"]))
L.append(p("C06", "Only a converged, feasible, cheapest round is ever published",
  "Whatever the numerical solver returns or raises in each round, an optimisation either raises, or publishes frequencies that one of its solver rounds returned (entries below one vehicle per day published as zero, all others unchanged), together with that round's own status, violation and cost. The published round did not fail to converge or hit its limit (status other than 0, 3), violates constraints by less than 0.001, has no negative frequency, and no other acceptable round was cheaper; a not-a-number cost is never published. When no round is acceptable, and no round's frequencies left demand unserved, the optimisation raises the no-solution error; when some round is acceptable, no solver call crashed and no round's frequencies left demand unserved, it publishes. A solver crash is never turned into a result.",
  ["fault_sequences", "histories"],
  "every sequence of solver outcomes over the rounds: converged, not converged, infeasible, slightly negative, not-a-number cost, ties, exceptions, in any order and number, on any network",
  "No test runs the optimiser at all; a real solver cannot be made to return a given sequence of bad rounds.",
  [O], [("get_better_result", O), ("status_optimization", O), ("external_optimization", O)],
  observe=["Optimizer.network_optimization", "Optimizer.external_optimization", "get_optimization_value"]))
L.append(p("C07", "The outer search feeds each round the last one's frequencies and stops on time",
  "In every optimisation each solver round after the first evaluates passengers' route choice at exactly the frequencies the previous round returned, and the first at the initial frequencies. The search stops after the first round whose frequencies differ in total by less than the tolerance from those before it, and otherwise runs exactly the allowed number of further rounds after the first when a limit is given; so it always ends if a limit is given or the rounds settle. Nothing runs after the stop, and the result does not depend on rounds of earlier optimisations.",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of frequencies returned by the solver (converging, oscillating, jumping, settling late), every tolerance and round limit, also when several optimisations follow one another",
  "No test runs the outer loop; its length and feedback depend on the whole sequence of solver answers.",
  [O], [("external_optimization loop", O), ("external_optimization_tolerance / f_distance", O), ("fopt_to_f / f0", O)]))
L.append(p("C08", "Evaluating frequencies has no memory",
  "The cost and the constraints an optimizer reports for given frequencies are the same whenever it is asked: repeated, in any order, between other evaluations or reports, after an evaluation that failed, on another optimizer built from the same inputs, and when the caller reuses one array for all calls. An evaluation never changes the frequencies passed in, nor the city, demand, passengers or network.",
  ["histories", "schedules", "fault_sequences"],
  "every history of cost, constraint and report evaluations, over one or several optimizers on the same inputs, with in-place reuse of the argument array and evaluations aborted part-way",
  "The tests evaluate each cost once on a fresh object; a numerical solver evaluates it thousands of times and relies on repeatability.",
  [O, A, U, OC, I, K], [("VRC, get_constrains rebuild boarding, alighting and load on every call", O + ", " + A)],
  observe=["Optimizer.VRC", "Optimizer.get_constrains"]))
L.append(p("C09", "No passenger is lost or invented anywhere along the search",
  "At every point an optimisation visits (route choice fixed by one round's frequencies, flows evaluated at any positive frequencies), for every origin-destination pair with trips the stop shares add up to 100%, and flows balance: at every city node people per hour alighting minus boarding equal the trips ending minus the trips starting there, and along every route and direction the load changes between consecutive stops by exactly the boardings minus the alightings, is never negative, and (except on circular routes) is zero past the last stop. The capacity constraint of a route equals its greatest such load minus the vehicle size.",
  ["histories", "inputs"],
  "every sequence of frequency vectors fed back through the rounds and probed by the solver, over one- and two-mode networks (including ties, several single-line modes, express, circular and custom routes), cities and demands",
  "The tests compare boarding tables of a few fixed networks at one frequency vector.",
  [A, H, X, O, K], [("get_assignment", A), ("get_alighting_and_boarding", A), ("get_all_hyperpaths", H), ("most_loaded_section_constrains", K)]))
L.append(p("C10", "An interrupted optimisation leaves the inputs usable",
  "If an optimisation, an evaluation or a report is interrupted at any point (Ctrl-C, out of memory, an error thrown out of the solver), the city, demand, passengers, modes and network are exactly as before, no result is published on the caller's side, and doing the operation again gives the same outcome as if the interruption had never happened. An optimizer that already holds a result still reports that same result afterwards.",
  ["crash_points", "fault_sequences"],
  "an interruption at every executed line of the package during construction, evaluation, optimisation or reporting, singly or repeatedly, followed by a rerun on the same objects",
  "No test interrupts anything.",
  [O, A, H, X, U, OC, I, K], [("inputs are only read; every derived structure is rebuilt per optimizer", O)]))
L.append(p("C11", "Concurrent callers sharing inputs get the same results as alone",
  "Threads that at the same time build optimizers, evaluate costs and constraints, optimise, report or export text over the same city, demand, passengers, network or optimizer, none of them editing these, each get exactly the result they would get running alone, under every interleaving.",
  ["schedules"],
  "every interleaving of two to four reader threads over shared objects, preempted at any line of the package",
  "All tests are single-threaded.",
  [O, A, H, X, U, OC, I, K, G, D, N], [("no shared mutable state besides the inputs, which readers never write", O)]))
L.append(p("C12", "Every published optimum can be reported, and its reports agree with each other",
  "For every result an optimisation can publish under which each demand pair is still served, both reports can be produced any number of times, in any order and to file, always the same. The overall report's total equals operators plus infrastructure plus users cost and the cost of evaluating the published frequencies per passenger, and the users and operators costs equal their reported components; the network report has one row per route in network order with the published frequency, its per-line frequency, a vehicle size equal to the route's greatest load, a fleet equal to frequency times cycle time, section loads between 0 and 1 equal to load over vehicle size, their minimum as minimum load, an operators cost per boarding passenger (zero if nobody boards), and all zeros for an unused route; the text and file variants say the same numbers, and the printed summary lists the published frequencies in network order with that round's status, violation and cost. Fleet, lines and mean vehicle size per mode equal those of its active rows.",
  ["histories", "fault_sequences"],
  "every publishable solver outcome (including unused routes, active routes nobody boards, sections nobody rides, circular and express routes) and every order and repetition of the reports",
  "No test produces a report.",
  [O, A, U, OC, I], [("get_overall_results, get_network_results, string and file variants, last_iteration", O)]))
L.append(p("C13", "Same inputs give the same results in every process",
  "Building the same city, demand, network and passengers and running the same operations gives the same results - node, route and report order, evaluations, published optimum, exported text - in every process, whatever its hash seed, memory layout, garbage collection timing and earlier work.",
  ["configurations", "histories"],
  "every pair of processes differing in hash seed, heap layout, garbage-collection points and prior history, over all worlds and operations",
  "The tests run in one process with one fixed hash seed.",
  [O, A, H, X, N, G, D], [("only insertion-ordered containers are iterated; no clock, randomness or address is consulted", H + ", " + X)]))
L.append(p("C14", "Independent planning sessions in one process do not affect each other",
  "When several planning sessions with their own cities, demands, passengers, modes and networks run in one process, interleaved operation by operation or as threads preempted anywhere, each obtains exactly the results, errors and exported text it would obtain alone in a fresh process (drawing pictures excepted). Editing, failing or interrupting one session changes nothing in another, including default modes and passengers obtained separately.",
  ["schedules", "histories"],
  "every interleaving of the operations of two or three independent sessions, at operation or line granularity, with rejected operations and aborted ones in any of them",
  "Tests use one set of objects at a time.",
  [O, G, D, N, M, P, A, H, X], [("state lives in instances; module-level defaultdicts are only type aliases", O), ("get_default_modes / get_default_passenger build new objects", M + ", " + P)]))
L.append(p("C15", "A planning session restarts from its files",
  "If a planner crashes at any point after city and OD files were saved and restarts from those files, the rebuilt city, demand and network give the same cost and constraints for every frequency vector, the same route choice and the same outcome of an optimisation as the original objects. A crash during the save of the city file is never followed by a restart on a city with other zones, nodes, positions or streets: it raises, or loads the complete city (or the one saved before).",
  ["crash_points", "histories"],
  "every crash point of a session of builds, edits, saves and evaluations (inside an evaluation, between steps, at any byte or call of the city save), with only the files surviving, followed by a restart that re-creates modes, routes and passengers and loads city and OD matrix; crashes inside the save of the OD matrix itself excepted",
  "No test crosses a save/load boundary with an evaluation.",
  [G, D, N, O], [("pajek and csv files keep full float precision and node ids", G + ", " + D), ("predefined routes are a function of the city", N)]))
L.append(p("C16", "Results depend on the current inputs, not on how they were edited",
  "After any history of editing the demand, the routes, the modes' and the passenger's parameters - accepted and rejected edits, with optimizers built, evaluated and reported in between - an optimizer built on the edited objects gives the same costs, constraints, optimisation outcome and reports as one built on objects freshly created in the final state. A rejected edit leaves everything as it was (of a batch of predefined routes, those added before the refused one stay). An optimizer built before an OD edit keeps evaluating the demand it was built with.",
  ["histories"],
  "every history of OD, route, mode and passenger edits interleaved with construction, evaluation, optimisation and reports",
  "The tests build objects once and evaluate once; stale derived data needs an edit after an evaluation.",
  [O, D, N, M, P, G, OC, X], [("no cached derived data: distances, loads and travel times are recomputed", O + ", " + G), ("validated property setters", M + ", " + P)]))
L.append(p("C17", "A picture shows only the object being plotted",
  "The picture file written for a city or a network depends only on that object and the arguments, not on pictures drawn or saves that failed before in the same process, and plotting changes neither the city nor the network. A picture save that meets a storage error raises.",
  ["histories", "fault_sequences"],
  "every sequence of city and network pictures (any routes and directions selected), with storage faults in some of the saves",
  "The plotting tests are commented out.",
  [G, N], [("Graph.plot", G), ("TransportNetwork.plot", N)], [("current matplotlib figure", "process-wide drawing surface", G)]))

L.append(p("C24", "A mode catalogue holds exactly the modes it accepted",
  "After any sequence of adding and removing modes in one or several mode catalogues, in any interleaving, each catalogue holds exactly its accepted modes in order and lists their names, no two alike, and finds each by its name exactly while it holds it, also when several threads look modes up at once. A rejected operation (name taken, unknown name, not a mode) raises and changes nothing, and no operation changes a mode. A catalogue passes the check for optimisation exactly when it holds one mode, or two of which one has a single line. A catalogue started with defaults holds a bus and a metro of its own with the documented values, whatever was done to those of other catalogues.",
  ["histories", "schedules"],
  "every sequence of additions, removals, edits of mode parameters and look-ups over several catalogues sharing modes, interleaved by operation or by preempted threads",
  "Tests add and remove one or two modes in one catalogue.",
  [M], [("TransportModeManager", M), ("TransportMode.get_default_modes", M)], [("TransportModeManager modes and names", "two parallel lists of a catalogue", M)]))

L.append(p("C25", "Every solver round is posed the problem the planner stated",
  "In every round of every optimisation the numerical solver is asked, for one frequency per route in network order, to minimise exactly the cost of the network with that round's route choice, wherever and in whatever order it evaluates it, reusing one array or not, with other optimizers of the same inputs evaluated in between. What it must keep is exactly: every frequency at least zero; on every route the greatest load of a vehicle at most the mode's vehicle size; and on every street and direction, for each mode, the sum over its routes (per line, once for each time a route runs along it, outward and return) at most the stop capacity fmax per line. No such limit is missing and no other is imposed, whatever earlier rounds returned, earlier optimisations did or how they failed, and after edits of the modes. A round starts from the modes' initial frequencies or from those of the round before.",
  ["histories", "fault_sequences"],
  "every sequence of solver answers, evaluation points, failures and mode edits over rounds and optimisations",
  "Tests look at the constraints of one optimizer at one vector; none looks at what the solver is given.",
  [O, K], [("internal_optimization", O), ("VRC / get_constrains", O), ("fmax_constrains / most_loaded_section_constrains", K)]))

L.append(p("C26", "Route-choice questions have no memory",
  "Extended graphs and the hyperpath objects of one or several passengers on them answer every question - the labels, successors and paths of one pair, of a whole matrix, whether a network serves a matrix, the split over stops and the flows that follow, and their texts - as if it were the first ever asked of objects of their own: in any order, repeated, with other passengers, frequencies, pairs or matrices asked in between, after a question that failed or was interrupted, by several threads at once, and whatever the caller does to answers already received. Asking changes neither the extended graph nor passengers, matrices or network, and an answer given never changes later. An interruption is never turned into an answer.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence and thread interleaving of questions to shared extended graphs and hyperpath objects, with interruptions at any line",
  "Tests ask a new object one question.",
  [H, X, A], [("Hyperpath", H), ("ExtendedGraph", X), ("Assignment", A)], [("extended graph", "nodes and edges shared by every question", X)]))

# --- semantic properties this family does not decide
L.append(p("C18", "City geometry follows the parameters",
  "A city built from parameters has one CBD and, per zone, one periphery and one subcenter at the documented radii and angles, with exactly the documented streets.",
  ["inputs"], "all parameter tuples", "Tests sample a few tuples.", [G], [("build_from_parameters", G)]))
L.append(p("C19", "Parametric demand distributes exactly the requested trips",
  "The demand built from (y, a, alpha, beta) generates y trips in total, with the documented shares between peripheries, subcenters and the CBD.",
  ["inputs"], "all parameter tuples", "Tests sample a few tuples.", [D], [("build_from_parameters", D)]))
L.append(p("C20", "Predefined routes have the documented shape",
  "Feeder, radial, diametral, tangential and circular routes visit the documented nodes and stops for every city size, jump and variant.",
  ["inputs"], "all city sizes, jumps and variants", "Tests sample a few sizes.", [N], [("get_*_routes", N)]))
L.append(p("C21", "Route choice is an optimal strategy",
  "For every demand pair the computed strategy has the least expected generalised time among all strategies of the network, and labels equal that time.",
  ["inputs"], "all networks and frequencies", "Tests compare labels of a few networks.", [H], [("build_hyperpath_graph", H)]))
L.append(p("C22", "Costs follow the published formulas",
  "Operators, infrastructure and users cost equal the model's formulas; infrastructure on a street is paid once per mode however many routes use it.",
  ["inputs"], "all networks and frequencies", "Tests compare a few networks.", [U, OC, I], [("get_users_cost, get_operators_cost, get_infrastruture_cost", U + ", " + OC + ", " + I)]))
L.append(p("C23", "Out-of-range parameters are refused at construction",
  "Modes, passengers, cities and demands with a parameter outside its documented range cannot be created.",
  ["inputs"], "all parameter values", "Tests sample a few values.", [M, P, G, D], [("property setters and parameters_validator", M + ", " + P + ", " + G + ", " + D)]))

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in L:
        f.write(json.dumps(d, ensure_ascii=True) + "\n")
