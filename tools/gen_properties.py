"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json, os

H, M, S, P, U, A, X = ("hyperpack/heuristics.py", "hyperpack/mixins.py", "hyperpack/structures.py",
                    "hyperpack/processes.py", "hyperpack/utils.py", "hyperpack/abstract.py", "hyperpack/exceptions.py")
ps = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    ps.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": observe, "hook_needed": hook,
        }})


prop("C01", "Placed items never overlap and never leave their container",
     "After any solving operation, in bin packing and in strip packing, every placement reported in the solution has non-negative integer coordinates and lies completely inside its container (in strip packing: inside the strip's width and the strip height in force when solving), and no two placements of the same container share any area. "
     "This holds for every valid set of items and containers, every potential points strategy (including partial ones), every item sequence, and rotation on or off.",
     ["inputs", "configurations"], "all items/containers/strip widths and heights, all strategies and sequences, rotation on/off, solve/local search/hypersearch",
     "Tests place a few hand-picked items with hand-picked strategies and compare coordinates; none checks overlap or containment on arbitrary instances.",
     [M], [("PointGenerationMixin._check_fitting", M), ("PointGenerationMixin._construct_solution", M)], ["problem.solution"],
     [("container_coords", "occupancy grid of the container being filled", M)])

prop("C02", "Every item is packed at most once, with its own dimensions",
     "In every reported solution each container of the problem has exactly one entry, every packed id is an item of the problem (of the given sequence, when one is given) and is packed in at most one container. "
     "The packed width and length are the item's own, interchanged only when rotation is enabled; with rotation disabled no item is ever turned.",
     ["inputs", "configurations"], "all items/containers, sequences (permutations and subsets), strategies, rotation on/off, all solving operations",
     "Tests compare a handful of complete solutions; they never check conservation of items over arbitrary multi-container instances.",
     [M], [("PointGenerationMixin._construct_solution", M), ("PointGenerationMixin._solve", M), ("DeepcopyMixin._deepcopy_solution", M)], ["problem.solution", "problem.items"])

prop("C03", "Reported utilisation equals the area really packed",
     "After solving, the objective value of each container equals the total area of the items placed in it divided by the container's area (in strip packing: divided by strip width times the height reached by the placements; 0 when nothing is placed), so it always lies in [0, 1]. "
     "The overall objective value is that number for one container, and otherwise the sum over all containers with the last container weighted by 0.7.",
     ["inputs", "configurations"], "all items/containers, 1..n containers, strip and bin packing, all solving operations",
     "Tests check the objective on four small bin-packing instances and never the strip-packing value.",
     [M], [("default_objective_value_calculator", M), ("PointGenerationMixin._construct_solution", M), ("LocalSearchMixin.calculate_obj_value", M)],
     ["problem.obj_val_per_container", "problem.calculate_obj_value()"])

prop("C04", "Solving is a pure function of the problem, whatever happened before",
     "Solving gives the same solution and objective values for the same containers, item sequence, strategy, rotation setting and strip heights: repeated on one instance after any other solving, logging or settings operations, or done on a fresh instance. "
     "Solve and local search leave the items, their order, the containers, the settings and the potential points strategy exactly as they were; hypersearch changes the items only by its documented sorting and orientation.",
     ["inputs", "histories"], "all problems and all histories of public operations before the solve",
     "Tests solve fresh instances once; no test interleaves operations and compares with a fresh instance.",
     [M, H], [("PointGenerationMixin._solve", M), ("PointGenerationMixin._get_initial_potential_points", M), ("HyperPack._single_process_hypersearch", H)],
     ["problem.solution", "problem.obj_val_per_container", "problem.items", "problem.containers", "problem.potential_points_strategy"])

prop("C05", "Results do not depend on the interpreter process",
     "Running the same solve, local search or hypersearch (that is not cut short by the time limit) in different interpreter processes, with different string hash seeds, gives identical solutions, objective values and best strategy. "
     "The speed of the workers of a multi-process hypersearch has no influence either, except for which perfect packing it reports when there are several.",
     ["inputs", "configurations", "schedules"], "all problems, all hash seeds, all relative speeds of workers",
     "The suite runs in one process with one hash seed.",
     [H, M], [("HyperPack.get_strategies", H)], ["problem.solution", "problem.obj_val_per_container", "problem.best_strategy"])

prop("C06", "Construction follows the potential-points procedure exactly",
     "In each container, items are placed one at a time, first at the origin and then at points drawn first-in first-out from the first non-empty pool in strategy order (classes absent from the strategy are never used); at each point the first item of the sequence that fits there, tried as given and then turned if rotation is enabled, is placed, and a point where nothing fits is dropped. "
     "Each placement generates new points of the ten classes A, B, C, D, A', B', A'', B'', E, F by fixed geometric rules that depend only on the placement and on the items already in the container (the near/far split between A' and E, and B' and F, is at 0.2 of the container's width, respectively length). "
     "The container is finished when points or items run out or the container is full.",
     ["inputs", "configurations"], "all items/containers, all strategies, rotation on/off",
     "Tests check each point class on a few drawings, each with few items; interactions of classes in dense packings are not reached.",
     [M], [("PointGenerationMixin._generate_points", M), ("PointGenerationMixin._get_current_point", M), ("PointGenerationMixin._construct_solution", M)],
     ["problem.solution"], [("potential_points", "FIFO pool of points per class", M)])

prop("C07", "Containers are filled in order, each from what the earlier ones left",
     "Solving several containers equals solving them one by one in their order, each alone with exactly the items (in sequence order) that the earlier ones left unpacked; adding a container at the end never changes what the earlier ones hold. "
     "A container is left empty only if none of the items left for it fits into it alone, and the first item in sequence that does is placed at the origin; items that fit in no container, and renaming the ids, have no effect on the placements.",
     ["inputs"], "all items and all ordered lists of containers",
     "Tests use at most three containers with expected utilisations; no compositional check.",
     [M], [("PointGenerationMixin._solve", M)], ["problem.solution", "problem.obj_val_per_container"])

prop("C08", "Local search never loses value and ends in a 2-exchange local optimum",
     "Local search finishes with an objective value at least that of solving the initial sequence. "
     "Its final solution and objective values are together what solving some permutation of the items gives, and, when neither the throttle nor the time limit cut it short, in bin packing no exchange of two items of such a permutation gives a higher objective value; if nothing better was found the initial solution is kept.",
     ["inputs", "configurations"], "all items/containers, strategies, rotation on/off",
     "Tests check the final utilisation of one dataset; they never compare with the start or explore the neighbourhood.",
     [A, M], [("AbstractLocalSearch.local_search", A), ("LocalSearchMixin", M)], ["problem.solution", "problem.calculate_obj_value()"])

prop("C09", "Hypersearch keeps the best of all strategies it tried",
     "In bin packing, a hypersearch that is not cut short by the time limit ends with the greatest objective value among the plain solution and the local searches of every strategy tried; the solution, the objective values and the best strategy it reports belong together (searching with that strategy from the same items reproduces them). "
     "The exhaustive strategies are distinct permutations of all ten point classes that cover every ordering of the non-fixed classes, and the strategy configured on the problem is the same before and after.",
     ["inputs", "configurations", "histories"], "all problems, all lists of strategies, repeated searches",
     "Tests run hypersearch on one dataset with a pool of two identical strategies.",
     [H], [("HyperPack._single_process_hypersearch", H), ("HyperPack.get_strategies", H)], ["problem.solution", "problem.best_strategy", "problem.potential_points_strategy"])

prop("C10", "Multi-process hypersearch finds what single-process hypersearch finds",
     "In bin packing, with any number of workers, a hypersearch not cut short by the time limit terminates and ends with the same objective value as the single-process one for the same strategies; the winning worker's solution, objective values and strategy are handed over complete and belong together. "
     "This holds whatever the number of strategies, the number of items and the length of their ids, and whether the workers are forked or spawned.",
     ["inputs", "configurations", "schedules"], "all problems, worker counts, strategy lists, result sizes",
     "Tests use two workers with two identical strategies and small results.",
     [H, P], [("HyperPack._multi_process_hypersearch", H), ("HyperSearchProcess.run", P)], ["problem.solution", "problem.obj_val_per_container", "problem.best_strategy"],
     [("shared_array", "best objective value of each worker", P)])

prop("C11", "Failed workers never corrupt, lose or block a multi-process hypersearch",
     "If any subset of the workers fails at any point before it has delivered its result (an exception, or the worker process dying, also while it shares its progress or hands the result over), hypersearch still terminates and ends with a solution at least as good as the best one of the workers that did not fail, and never with the result of a failed worker; that some failed is logged as an error (and not otherwise). "
     "Only when all the workers fail is a MultiProcessError raised, and then the problem's items, containers and settings are unaffected.",
     ["fault_sequences", "inputs"], "all subsets of failing workers, failure at start, in the middle of the search, while sharing progress or handing over the result, exceptions and process death",
     "Tests force an exception at start in one worker or in all, on a problem with no solution.",
     [H, P], [("HyperPack._multi_process_hypersearch", H), ("HyperSearchProcess.run", P)], ["problem.solution", "exceptions raised"])

prop("C12", "The time limit and the throttle bound the search effort",
     "Once the configured maximum time has passed, a local search evaluates no more than the candidate in progress (and the first candidate, if already the start solution exceeded it), and a hypersearch, in every process, no more than one further start solution and one further candidate; the best solution found so far is still delivered, and nothing is cut short before the limit. "
     "With throttling on, a local search evaluates at most 2500 exchanges per node, and with throttling off, or when there are no more than 2500, it evaluates every exchange of two items before giving up on a node.",
     ["inputs", "schedules"], "all problems, all speeds of the clock",
     "Tests measure wall-clock time on one dataset and two sizes for the throttle.",
     [A, H, M], [("AbstractLocalSearch.local_search", A), ("AbstractLocalSearch.get_max_neighbors_num", A), ("HyperPack._single_process_hypersearch", H)],
     ["number of candidate solves", "problem.solution"])

prop("C13", "A search stops once every container is completely full",
     "When the maximum objective value is reached in bin packing (every container is 100% utilised), local search and hypersearch stop: no further node, and no further strategy, is explored after it, also when the very first solution already is perfect. "
     "Without a perfect packing the search never stops for this reason.",
     ["inputs"], "all problems with a reachable perfect packing, 1..n containers",
     "Tests only see that the perfect utilisation is reported, not that the search stops there.",
     [A, H, P, M], [("AbstractLocalSearch.get_optimum_objective_val", A), ("AbstractLocalSearch.global_check", A), ("HyperPack._single_process_hypersearch", H)],
     ["number of candidate solves"])

prop("C14", "Strip packing keeps all items and only ever lowers the strip",
     "Without a minimum height, local search and hypersearch in strip packing never trade a solution holding all the items for one that leaves some out, never end higher than the plain solution when that holds all the items, and every improvement accepted holds all the items. A hypersearch ends with the best among the plain solution and the local searches of its strategies (one after another in one process, each in the strip its predecessors left; from the given strip in every worker), but for solutions that would drop items. "
     "Each accepted improvement sets the strip height to the height of that solution (or the minimum height, if that is greater), so the strip height never grows during a search and never drops below the minimum height; a multi-process hypersearch leaves it as it was, and solutions never exceed the strip height set by the user.",
     ["inputs", "configurations", "histories"], "all items, strip widths, strip heights and minimum heights, strategies, single- and multi-process",
     "Tests use one dataset with fixed strategies.",
     [M, H, S, P], [("LocalSearchMixin.compare_node", M), ("Containers._set_height", S), ("HyperPack._check_solution", H)],
     ["problem.solution", "problem.container_height", "problem.container_min_height"])

prop("C15", "Strip height settings are validated and reset as documented",
     "Over any history of assignments, the strip height and minimum height hold the last accepted values: positive integers with minimum height not greater than strip height; any other assignment and any deletion raises a DimensionsError or ContainersError and changes nothing. "
     "Reset restores a strip height of ten times the strip width and no minimum height, and the containers of a strip-packing problem can never be replaced, changed or deleted.",
     ["histories", "inputs"], "all sequences of assignments, deletions, solves and resets on strip-packing problems",
     "Tests check single assignments.",
     [H, S], [("BasePackingProblem.container_height", H), ("BasePackingProblem.container_min_height", H), ("BasePackingProblem.reset_container_height", H)],
     ["problem.container_height", "problem.container_min_height", "problem.containers"])

prop("C16", "Items and containers are always well-formed",
     "Whatever is assigned, updated or deleted, through any mapping operation of the items, the containers or their dimensions, the structures always keep at least one entry, string ids and exactly the two dimensions, each a positive integer. "
     "This holds for structures made on their own, of no problem, too. An invalid operation raises ItemsError or ContainersError (structure, ids) or DimensionsError (dimensions) and leaves the entry or structure it was aimed at unchanged; a valid one takes effect exactly, keeping insertion order (updating with several entries applies them one at a time, clearing stops at the last entry).",
     ["histories", "inputs"], "all sequences of valid and invalid mutations",
     "Tests check single invalid assignments and do not look at the state afterwards or at the other mapping operations.",
     [S, H], [("AbstractStructureSet", S), ("Dimensions", S)], ["problem.items", "problem.containers"])

prop("C17", "A reported solution is never stale",
     "After any history of operations the solution is either empty or valid for the present items and containers; every successful assignment, change or deletion in the items or containers empties the solution and the objective values. "
     "Reassigning settings, changing the strategy and reading, logging or copying never empty or change them.",
     ["histories"], "all sequences of mutations, solves and reads",
     "Tests check the reset after single mutations.",
     [S, H], [("AbstractStructureSet.reset_instance_attrs", S), ("Dimensions.reset_instance_attrs", S)], ["problem.solution", "problem.obj_val_per_container"])

prop("C18", "Solver settings are accepted exactly when valid, and then take effect",
     "Settings are accepted exactly when they are a dictionary whose rotation (if not None) is a boolean, whose max_time_in_seconds (if given) is a positive integer and whose workers_num (if not None) is a positive integer; everything else raises a SettingsError, at instantiation, on assignment and on explicit validation. "
     "Accepted values take effect together and omitted ones take the defaults (rotation enabled, 60 seconds, one worker), also when they replace earlier settings; a rejected assignment leaves the previous settings in force, and changing a key has no effect before validation is called. "
     "More workers than cpu threads are accepted with a warning.",
     ["inputs", "histories"], "all settings values, all sequences of settings assignments and in-place changes",
     "Tests check a list of single invalid values.",
     [H], [("PointGenerationSolver._validate_settings", H), ("HyperPack._validate_settings", H)], ["problem.settings", "effective settings"])

prop("C19", "Figure settings are accepted exactly when valid",
     "Figure settings are accepted exactly as documented: a dictionary; show a boolean; export a dictionary with type html or image, an existing directory as path, for images a format among pdf, png, jpeg, webp, svg, a file name of 1 to 45 letters, digits, underscores or hyphens (PlotlyGraph if omitted), and width and height positive integers if given; anything else raises a SettingsError. "
     "Any figure setting needs plotly at version 5.14.0 or newer, and image export also kaleido at 0.2.1 or newer, compared as version numbers; otherwise a SettingsError is raised.",
     ["inputs", "configurations"], "all figure settings, all installed versions of plotly and kaleido",
     "Tests check a list of single invalid values and one old version of each library.",
     [M], [("SolutionFigureMixin._validate_figure_settings", M), ("SolutionFigureMixin._check_plotly_kaleido_versions", M)], ["exceptions raised", "problem.settings"])

prop("C20", "Exported figures show exactly the solution",
     "Creating figures with export writes exactly one file per container (html, or an image of the asked format and size), named after the file name and the container id, into the export directory, and shows them exactly when the settings (or, if they do not say, the parameter) ask for it; each figure shows the container's outline and, for every item placed in it and nothing else, one labelled rectangle with the item's position and size, for any number of items, all of it within the part of the axes that is shown. "
     "Without a solution, or without anything to show or export, only a warning is logged and nothing is written; a failing export raises FigureExportError; the problem is not changed.",
     ["inputs", "configurations", "fault_sequences"], "all solved problems, bin and strip, all valid figure settings",
     "The figure tests of the suite are commented out.",
     [M], [("SolutionFigureMixin.create_figure", M)], ["files in the export directory"])

prop("C21", "The solution log tells the truth",
     "The log of a solution states the percentage of all items that are packed, for each container in order its size (in strip packing the width and the solution height or the minimum height if that is greater) and the percentage of that area that is packed, in strip packing also the height reached, and exactly the unpacked ids in items order. "
     "Logging works for every solution, also an empty one, and changes nothing; without a solution it logs a warning and returns nothing.",
     ["inputs", "configurations"], "all solved problems, bin and strip packing",
     "Tests compare a few complete log texts.",
     [M, S], [("SolutionLoggingMixin.log_solution", M), ("Containers._get_height", S)], ["return value of log_solution", "hyperpack logger"])

prop("C22", "Sorting and orienting items only reorder and turn them",
     "Sorting permutes the items so that the chosen criterion (area, perimeter, longest side ratio) is monotone in the chosen direction, leaving ids and dimensions untouched; an unknown criterion raises NotImplementedError and None skips it, both without any change. "
     "Orienting makes every item wide (or long) by interchanging its sides where needed, keeping ids and order; with None nothing changes, and with rotation disabled or an unknown orientation nothing changes but that a warning is logged.",
     ["inputs", "histories"], "all items, criteria, directions, orientations, rotation on/off",
     "Tests sort and orient one list of seven items.",
     [M], [("ItemsManipulationMixin.sort_items", M), ("ItemsManipulationMixin.orient_items", M)], ["problem.items"])

prop("C23", "A potential points strategy is accepted exactly when valid",
     "The potential points strategy accepts exactly the tuples of distinct point class names and then reads back the same; every other value and every deletion raises PotentialPointsError and the previous strategy stays in force.",
     ["inputs", "histories"], "all values and all sequences of assignments",
     "Tests check a list of single invalid values and not the state afterwards.",
     [H], [("PointGenerationSolver.potential_points_strategy", H)], ["problem.potential_points_strategy"])

prop("C24", "Generated problem data is always a valid problem of the asked size",
     "For any positive numbers of containers and items and any positive mean dimensions, the generated data has the asked number of containers and the asked number of items per container, and is accepted as a problem. "
     "Container dimensions lie within 10% (rounded) of their own mean, and item widths and lengths around their own mean: never further from it than the greater of 1 and 60% (rounded) of the larger of the two item means, and never below 1.",
     ["inputs"], "all combinations of the documented keyword parameters, all random states",
     "There is no test of the generator.",
     [U], [("generate_problem_data", U)], ["return value"])

prop("C25", "Every library error is logged and is the documented type",
     "Whenever an operation is rejected, exactly the documented exception class of the library is raised, its text is one of that class's messages, and that message has been logged at ERROR level on the hyperpack logger; successful operations log no error.",
     ["inputs", "histories"], "all rejected operations on problems, structures, settings, strategies, heights and figures",
     "Tests check the log of single rejected operations; not which operations stay silent.",
     [X, H, S], [("ErrorLoggingException", X)], ["hyperpack logger", "exceptions raised"])

prop("C26", "Problems are isolated from their inputs and from each other",
     "Changing the dictionaries given for items and containers after instantiation or assignment, the plain copies obtained from the structures, or an earlier solution, never affects the problem, and solving never changes the dictionaries and sequences given. "
     "Any interleaving of operations on several problems, also when one solves in the middle of another's operation (as with threads), gives each the same results as running its operations alone.",
     ["histories", "inputs"], "all interleavings of operations on several instances, all mutations of the inputs and copies",
     "Tests use one instance at a time.",
     [S, M, H], [("AbstractStructureSet.deepcopy", S), ("Dimensions", S)], ["problem.items", "problem.containers", "problem.solution"])

prop("C27", "The local search engine climbs (or descends) correctly for any problem",
     "Any problem that provides the four operations of the abstract local search, maximised or minimised, gets from it a first-improvement search: from each node the exchanges of two positions are evaluated in order, the first strictly better one (greater, or lower when minimising) becomes the next node, and the solution returned is the best one found. "
     "The search ends exactly when a node has no better exchange, the throttle's number of exchanges is used up at a node, the time limit has passed, or the known optimum is reached (nothing is evaluated if the start already has it); the initial sequence is left as it was and the optional hooks run once at the start and once per accepted node.",
     ["inputs", "configurations"], "all objective functions over sequences, MAX and MIN, throttle constants, time limits, known optima, hooks",
     "Tests run the engine only as part of packing, always maximising, on a few items.",
     [A], [("AbstractLocalSearch.local_search", A), ("AbstractLocalSearch.compare_node", A), ("AbstractLocalSearch.global_check", A), ("AbstractLocalSearch.get_max_neighbors_num", A)], ["return value of local_search", "calls of evaluate_node and the hooks"])

prop("C28", "Class constants of a subclass govern its instances, and only them",
     "A subclass that overrides the documented class constants gets exactly their effect: the default rotation, maximum time and workers apply wherever the settings do not give the key, MAX_W_L_RATIO sets a strip's initial and reset height, MAX_NEIGHBORS_THROTTLE the exchanges tried per node when throttling, the near/far ratios the split between A' and E (B' and F), and the default strategy and suffix the initial strategy and those the exhaustive hypersearch tries. "
     "Instances of the library's own classes are not affected.",
     ["inputs", "configurations"], "all values of the constants, with all settings, in both classes and in subclasses of subclasses",
     "Tests use the library's constants only.",
     [H, M], [("HyperPack._validate_settings", H), ("HyperPack.get_strategies", H), ("BasePackingProblem.reset_container_height", H), ("PointGenerationMixin._generate_points", M)], ["settings in force", "problem.container_height", "problem.solution", "HyperPack.get_strategies"])

prop("C29", "The text of items and containers shows exactly what they hold",
     "The text (str) of the items and of the containers is their name followed by one entry per item or container present, in order, each with its id, width and length (no length in strip packing), after any history of operations, and also for structures made on their own, of no problem. "
     "Printing changes nothing.",
     ["inputs", "histories"], "all items and containers, all histories of structure operations",
     "Tests print one structure.",
     [S], [("Items.__str__", S), ("Containers.__str__", S)], ["str(problem.items)", "str(problem.containers)"])

prop("C30", "Results do not depend on the unit of measurement",
     "Multiplying all dimensions of a problem (items, containers or strip width, strip height and minimum height) by the same positive integer multiplies every placement and the resulting strip height by it, and leaves everything else as it was: which items are packed where, in which order, turned or not, the objective values and the best strategy. "
     "This holds for solving, local search and hypersearch, in bin and in strip packing.",
     ["inputs", "configurations"], "all problems, factors and solving operations",
     "Tests compare single solutions and never two scales of the same problem.",
     [M], [("PointGenerationMixin._construct_solution", M), ("PointGenerationMixin._generate_points", M)], ["problem.solution", "problem.obj_val_per_container"])

prop("C31", "A problem survives deep copying and pickling",
     "A deep copy of a problem, or the problem restored from a pickle, shows the same items, containers, settings, strategy, strip heights, solution and objective values as the original at any point of its history, and every further operation on it gives what it would have given on the original. "
     "Operations on either of them never affect the other.",
     ["histories", "inputs"], "all histories before and after copying, both classes, all pickle protocols",
     "Tests never copy a problem; spawned workers rely on it.",
     [H, S], [("Dimensions", S), ("AbstractStructureSet", S), ("HyperSearchProcess", P)], ["all observable attributes of the copy and the original"])

prop("C32", "The benchmark data are valid perfect-packing problems and stay as they are",
     "Each of the 21 benchmark item sets, with the container of its data set, is accepted as a problem as it is; every item fits into the container and the items together have exactly the container's area. "
     "Whatever is done with problems that were given the data directly (solving, sorting, orienting, editing, writing into copies obtained from them), every data set stays exactly as it was imported.",
     ["inputs", "histories"], "all benchmark sets, bin and strip problems made from them, all histories of operations",
     "Tests use a few of the sets and never look at the data afterwards.",
     ["hyperpack/benchmarks/datasets/hopper_and_turton_2000", S], [("AbstractStructureSet.__init__", S), ("Dimensions.__init__", S)], ["hyperpack.benchmarks.datasets"])

prop("C33", "An interrupted operation leaves the problem intact and usable",
     "When a solve, a local search or a single-process hypersearch is interrupted while it constructs a solution (Ctrl-C, memory exhausted, any exception raised there), that exception reaches the caller and the items (but for hypersearch's documented sorting and orientation), containers, settings, potential points strategy and minimum strip height are as before, and the strip height is at most lowered by accepted solutions. "
     "The solution is then empty or a complete valid one with its own objective values, and every later operation gives what it gives on a fresh instance in the same state. An interruption (Ctrl-C, exit) while a figure is made reaches the caller as it is and changes nothing in the problem.",
     ["crash_points", "histories", "inputs"], "all problems, all points of interruption within the construction of any evaluation, several kinds of exceptions, all later operations",
     "Tests never interrupt an operation.",
     [H, M], [("HyperPack.hypersearch", H), ("PointGenPack.solve", H), ("LocalSearchMixin.local_search", M)], ["problem attributes after the exception", "results of later operations"])

prop("C34", "A multi-process hypersearch leaves no process, thread or file handle behind",
     "When a multi-process hypersearch returns its result or raises the MultiProcessError, all the worker processes it started have ended and been waited for, whether they succeeded, failed, died or were slow, and it leaves no thread running. "
     "Repeated hypersearches do not accumulate open files.",
     ["fault_sequences", "histories", "schedules"], "all problems, numbers of workers, worker faults and delays, repeated hypersearches",
     "Tests run a handful of multi-process searches and never look at what remains.",
     [H, P], [("HyperPack._multi_process_hypersearch", H), ("HyperSearchProcess.run", P)], ["child processes, threads and open files of the calling process"])

prop("C35", "Nothing outside the problem is touched",
     "Whatever is done with problems (making, editing, configuring, sorting, solving, searching in one or several processes, logging, copying, showing and exporting figures, also when it fails or is interrupted), nothing is written to standard output or standard error, no file is created, changed or removed but the exported figures, and messages go to the library's own loggers only. "
     "Random state, environment, working directory, signal handlers, warnings filters, logging configuration, locale, garbage collection, resource limits, plotly's defaults and all other global settings of the interpreter are afterwards as they were; only generating problem data draws random numbers and prints.",
     ["inputs", "histories"], "all problems and all histories of operations, valid, faulty and interrupted, with any number of workers",
     "Tests look at results only, never at what else a call has done.",
     [H, M, P], [("HyperPack._multi_process_hypersearch", H), ("HyperSearchProcess.run", P), ("create_figure", M), ("hyperLogger", "hyperpack/loggers.py")], ["standard output and error", "files written", "global state of the interpreter"])

prop("C36", "Repeating operations accumulates nothing",
     "Any sequence of operations, valid, faulty or interrupted, repeated any number of times from the same state leaves no more objects each time, neither in the problem nor in the library's modules and classes nor in the interpreter (exit handlers, threads, caches that only grow). "
     "A problem that nothing refers to any more is freed, whatever was done with it.",
     ["histories", "inputs"], "all problems, all rounds of operations repeated on one problem or on ever new ones, searches with several workers included",
     "Tests run each operation once or twice in short-lived processes.",
     [H, M, S, X], [("LocalSearchMixin.local_search", M), ("HyperPack._multi_process_hypersearch", H), ("ErrorLoggingException", X)], ["objects reachable from the problem and the library", "objects of the interpreter", "weak references to discarded problems"])

prop("C37", "Parameters left out mean the documented defaults",
     "Leaving a parameter out of an operation does exactly what giving its documented default does: no settings, all items in their order for solve, area and descending for sorting, wide for orienting, throttling for the searches, sorting and orienting and the exhaustive strategies for hypersearch, not showing for figures. "
     "It makes no difference whether arguments are given by keyword, in any order, or (where allowed) by position.",
     ["inputs", "configurations"], "all public operations and instantiation, all subsets of parameters left out, all problems and histories of operations",
     "Tests call each operation in one or two forms and never compare the forms.",
     [H, M], [("HyperPack.hypersearch", H), ("PointGenPack.solve", H), ("LocalSearchMixin.local_search", M), ("sort_items", M), ("orient_items", M)], ["results, items and candidates tried by calls in both forms"])

prop("C38", "Problems in different threads do not affect each other",
     "Any number of problems may be worked on at the same time in different threads of a process, the main thread or others: whatever the interleaving, every operation on a problem (instantiation, editing, configuring, solving, searching, logging, creating figures) gives what it gives when no other thread runs, as long as each problem is used by one thread at a time. "
     "A problem may be made in one thread, used in another one and read in a third.",
     ["schedules", "histories", "inputs"], "all interleavings of operations on two or more problems, built from the same dictionaries or not",
     "The tests use one thread; interference needs a handover in the middle of an operation.",
     [H, M, S], [("PointGenerationMixin._solve", M), ("HyperPack.hypersearch", H), ("LocalSearchMixin.local_search", M), ("AbstractStructureSet", S)], ["everything observable of a problem operated on in its own thread, compared with the same alone"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in ps:
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(ps))
