#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable and diffable)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

add("C01", "The disparity map of a stereo pair is consistent and optimal",
 "For every valid pair of images, number of disparity levels and pair of weights (with no reparametrization applied), the whole computation succeeds and yields exactly one existing disparity per pixel such that no pixel of a row has a disparity larger than its right neighbour's plus one. The largest deviation of any chosen node or edge penalty from the lowest penalty of its pixel or neighbourhood equals the smallest value any such map can reach, and is the threshold the computation reports.",
 ["inputs", "configurations"], "all valid image pairs, disparity level counts and non-negative weights",
 "The tests run the pipeline on three image pairs and never look at the resulting map, nor compare it with the best possible one.",
 ["lib/labeling_finder.cpp", "lib/constraint_graph.cpp", "lib/lowest_penalties.cpp", "lib/disparity_graph.cpp", "lib/main.cpp"],
 [("threshold search, CSP solution, greedy labeling, map assembly", "lib/main.cpp, lib/labeling_finder.cpp")],
 ["the built disparity map", "the calculated threshold"])

add("C02", "Solving keeps exactly the largest consistent set of nodes",
 "Whatever nodes are available when constraint solving starts, afterwards the available ones are exactly the largest subset in which every node still has, towards every neighbouring pixel, an available edge to an available node. The solver reports success exactly when that subset is not empty. Solving again changes nothing.",
 ["inputs", "histories"], "all initial sets of available nodes, thresholds, reparametrizations and image sizes",
 "Two hand-made graphs are solved in the tests and a handful of nodes looked at; removals that have to travel against the scanning order are never exercised.",
 ["lib/constraint_graph.cpp", "include/constraint_graph.hpp"],
 [("repeat passes until nothing changes", "solve_csp, csp_solution_iteration"), ("node removal test", "should_remove_node")],
 ["availability of each node after solving", "the solver's result"],
 [("nodes_availability", "the set of nodes that may still be chosen", "ConstraintGraph")])

add("C03", "OpenMP solving gives the sequential result for all threads and schedules",
 "In the OpenMP build, constraint solving ends, without deadlock or endless repetition, with the same available nodes and the same reported result as sequential solving. This holds for every number of threads and every interleaving of the threads' memory accesses, including threads outnumbering rows.",
 ["schedules", "configurations", "inputs"], "all thread counts and all sequentially consistent interleavings of the worker threads",
 "The tested build has OpenMP off; the OpenMP build is compiled but never run, and a run would sample one schedule.",
 ["lib/constraint_graph.cpp"],
 [("rows divided over the team, reduction of the change flag, monotone removal", "solve_csp, csp_solution_iteration")],
 ["availability of each node after solving", "the solver's result"],
 [("nodes_availability", "bit set written by all workers", "ConstraintGraph"), ("changed", "whether any worker removed anything in this pass", "solve_csp")])

add("C04", "Solving steps may be taken in any order and report changes truthfully",
 "Each partial solving step (one worker's share of the rows, or one pixel) only ever removes nodes that cannot be in any consistent set, and reports a change exactly when it removed something. When every worker of a round reports no change, the available nodes are the largest consistent subset of what was available initially, in whatever order, with whatever number of workers and however often the steps were taken.",
 ["histories", "schedules"], "all sequences of steps by any number of workers on any set of available nodes",
 "No test calls a partial step; the tests see only the final answer of one sequential order.",
 ["lib/constraint_graph.cpp", "include/constraint_graph.hpp"],
 [("row share of a job, early exit on an empty pixel", "csp_solution_iteration"), ("per pixel removal", "csp_process_pixel")],
 ["availability before and after a step", "the step's result"])

add("C05", "Labeling extraction picks one consistent node per pixel and never gives up",
 "If extraction of a labeling succeeds, exactly one node per pixel remains, each was available before, and all edges between neighbouring chosen nodes are available. Without reparametrization it succeeds whenever any consistent labeling exists among the available nodes. Pixels are decided column by column from the top left corner, each getting its lowest-penalty node that still allows a consistent labeling, and the lower disparity on ties.",
 ["inputs", "histories"], "all sets of available nodes, thresholds, penalties and image sizes",
 "The tests only compare the returned pointer for three tiny inputs; inputs where the locally best choice is a dead end are not among them.",
 ["lib/labeling_finder.cpp", "lib/constraint_graph.cpp"],
 [("choose the best node, solve, fall back to the next best", "find_labeling")],
 ["availability of each node after extraction", "success or failure"])

add("C06", "Choosing the best node of a pixel leaves exactly the cheapest one",
 "Choosing the best node of a pixel that has available nodes leaves exactly one of them available: the one with the lowest penalty, or the lowest disparity among equally cheap ones, whether penalties are positive, zero or negative. A pixel without available nodes is reported as such. No other pixel is affected.",
 ["inputs"], "all sets of available nodes of a pixel and all orders and signs of their penalties",
 "No test calls this operation or checks which node survives; penalties in the tests are non-negative.",
 ["lib/labeling_finder.cpp"], [("search of the minimum and removal of the others", "choose_best_node")],
 ["availability of each node afterwards", "the result"])

add("C07", "The threshold search returns the smallest threshold that is solvable",
 "Given ascending candidate thresholds of which at least one makes the problem solvable, the search returns the smallest candidate for which it is. The problem and the lowest penalties it was given are left unchanged.",
 ["inputs"], "all problems and all ascending candidate lists with a solvable member",
 "Three candidate lists are searched in the tests, each with the answer close to the beginning.",
 ["lib/labeling_finder.cpp"], [("binary search with the solver as comparison", "calculate_minimal_consistent_threshold")],
 ["the returned threshold"])

add("C08", "Candidate thresholds are exactly the penalty deviations, each listed once",
 "The list of candidate thresholds of a problem is strictly ascending, starts at zero and contains precisely the differences between the penalty of each existing node and the lowest penalty of its pixel, and between the penalty of each existing edge and the lowest penalty of its neighbourhood. The lists for a single pixel and for a single neighbourhood contain precisely their own part of these values.",
 ["inputs"], "all problems: image sizes, intensities, weights, reparametrizations",
 "Only three problems without reparametrization are listed in the tests, compared within one percent; edges towards the left or upwards and the last columns are not looked at.",
 ["lib/labeling_finder.cpp"], [("collect, sort, unique, merge", "fetch_*_available_penalties")],
 ["the returned lists"])

add("C09", "Lowest penalties are exact minima over what exists and are snapshots",
 "For each pixel the stored lowest penalty is the minimum of the penalties of its existing nodes, and for each pair of neighbouring pixels it is the minimum of the penalties of the existing edges between them, the same in both directions. Every way to calculate or look up such a value agrees. Changing the reparametrization afterwards does not change the stored values.",
 ["inputs", "histories"], "all problems and all reparametrizations",
 "The tests query a few right and bottom neighbourhoods with at most six changed reparametrization elements.",
 ["lib/lowest_penalties.cpp", "include/lowest_penalties.hpp"],
 [("exhaustive minimum over nodes and edges", "calculate_lowest_*"), ("storage by pixel and neighbourhood index", "LowestPenalties")],
 ["looked up and calculated penalties"])

add("C10", "Penalties follow their definition and reparametrization preserves energy",
 "A node's penalty is the cleanness weight times the squared difference of the two corresponding intensities plus the reparametrization elements of the node; an edge's penalty is the smoothness weight times the squared difference of disparities minus the elements of its two ends, the same in both directions. Hence the sum of all node and edge penalties of any disparity map does not depend on the reparametrization (whose elements towards missing neighbours are zero).",
 ["inputs"], "all problems, disparity maps and reparametrizations",
 "Tests change a single reparametrization element and look at a few penalties within one percent; the energy of a whole map is never calculated.",
 ["lib/disparity_graph.cpp", "lib/indexing.cpp"], [("penalty formulas", "node_penalty, edge_penalty")],
 ["node and edge penalties"])

add("C11", "Existence checks of neighbourhoods, nodes and edges match the model",
 "A neighbourhood exists exactly between pixels of the images that touch horizontally or vertically; a node exists exactly if its pixel is in the images, its disparity is below the number of levels and the corresponding pixel of the left image exists; an edge exists exactly between existing nodes of neighbouring pixels where the left one's disparity does not exceed the right one's by more than one if they are in one row. The checks are symmetric and agree with each other for any coordinates, including those far outside of the images. Neighbour numbers and neighbouring pixels convert into each other without loss.",
 ["inputs"], "all image sizes, coordinates and disparities",
 "Tests ask for some twenty coordinates of a 3x2 image.",
 ["lib/indexing_checks.cpp", "lib/indexing.cpp"], [("boundary conditions", "neighborhood_exists_fast, node_exists, edge_exists"), ("neighbour numbering", "neighbor_index, neighbor_by_index")],
 ["results of the checks"])

add("C12", "Array positions are unique, in range and agree between all lookup forms",
 "For every image size and number of disparity levels, distinct pixels, nodes, neighbourhoods and reparametrization elements have distinct positions, each inside of the array that stores them. All forms of a lookup (by neighbour number, by neighbouring pixel, by edge; position or value) designate the same element.",
 ["inputs", "configurations"], "all image sizes, disparity level counts and elements",
 "Positions are tested for a 3x2 image only, where some mistakes with swapped dimensions coincide.",
 ["lib/indexing.cpp", "lib/lowest_penalties.cpp", "lib/constraint_graph.cpp", "lib/disparity_graph.cpp"],
 [("mixed radix positions", "*_index"), ("array sizes", "constructors")],
 ["positions and values"])

add("C13", "A stereo problem is accepted exactly if it is well formed",
 "Constructing a problem succeeds exactly if both images are valid, have equal sizes and equal maximal intensities, the number of disparity levels is at least two and at most the width, both weights are non-negative and at least one of them is not negligible (not below the machine epsilon); otherwise it is refused with an invalid argument error. An accepted problem holds the given data unchanged and an all-zero reparametrization with an element for each node and neighbour.",
 ["inputs", "configurations"], "all combinations of images, level counts and weights",
 "No test checks any refusal.",
 ["lib/disparity_graph.cpp", "lib/image.cpp"], [("constructor checks", "DisparityGraph::DisparityGraph")],
 ["whether construction throws, and what", "the fields of the problem"])

add("C14", "Reading PGM accepts precisely plain PGM and fails cleanly otherwise",
 "Reading any byte sequence ends, raises no exception and touches no memory outside of the image; it succeeds exactly if the bytes, after removing comments (from a hash sign to the end of the line), are the whitespace separated magic P2, a positive width and height, a maximal intensity of at most 65536 and exactly width times height intensities, all plain decimal numbers below two to the power of 64. On success the image holds these numbers in row-major order. On failure the stream's fail state is set and the image held before is kept.",
 ["inputs"], "all byte sequences, malformed and truncated ones included",
 "A dozen texts are read in the tests; the ones for incomplete and redundant data fail already because of their maximal intensity. Overflowing sizes, signs, trailing garbage and comments next to numbers are not tried.",
 ["lib/pgm_io.cpp", "include/pgm_io.hpp"], [("chunk reading, number parsing, end check", "operator>>, read_pgm_instruction, check_file_end")],
 ["stream state", "the image obtained"])

add("C15", "Written PGM reads back identically and keeps to the format's line length",
 "Writing a valid image whose maximal intensity is at most 65536 and reading the text back gives the same width, height, maximal intensity and intensities. No line of the text is longer than 70 characters. An absent or invalid image writes nothing and leaves the stream usable.",
 ["inputs"], "all images: sizes across line breaking boundaries, intensities of one to five digits",
 "Two images are written in the tests.",
 ["lib/pgm_io.cpp"], [("line breaking and separators", "operator<<")],
 ["written text", "image read back"])

add("C16", "An image is valid exactly if it has pixels and no intensity above maximum",
 "An image is reported as valid exactly if its width, height and maximal intensity are positive and no intensity, wherever in the image it is, exceeds the maximal one.",
 ["inputs"], "all image sizes, maximal intensities and positions of intensities",
 "One valid and three invalid images are tested.",
 ["lib/image.cpp"], [("scan of all pixels", "image_valid")], ["result of the validity check"])

add("C17", "The built map shows the single available disparity of every pixel",
 "Building the disparity map from a graph in which each pixel has exactly one available node gives a valid image of the problem's size whose intensity at each pixel is the disparity of that node. If any pixel has no or several available nodes, building fails with an error instead of returning a map. The graph is not changed.",
 ["inputs"], "all sets of available nodes and image sizes",
 "No test builds a disparity map.",
 ["lib/labeling_finder.cpp"], [("search of the available node of each pixel", "build_disparity_map")],
 ["the map, or the error"])

add("C18", "The program obeys its options and signals failure by its exit status",
 "The program exits with zero exactly if it printed the help it was asked for (also when started without arguments) or wrote the disparity map of the given images to the given path, computed with the given number of disparity levels and weights (by default the image width and ones; weights may be fractional). In every other case (missing, repeated, unknown or wrong options, unreadable or unsuitable images, refused problems) it prints a message to the error output, exits with a non-zero status and does not touch the output path.",
 ["inputs", "configurations"], "all option combinations and values, input file states",
 "No test runs the program.",
 ["lib/main.cpp"], [("option handling, pipeline, error reporting", "main, read_image")],
 ["exit status", "output file", "standard and error output"])

add("C19", "The OpenCL backend yields the sequential labeling for all schedules",
 "Labeling through the OpenCL backend ends and leaves the same available nodes as the processor backend does, for every size of work groups and every interleaving of work items. No work item waits at a barrier which others of its group never reach.",
 ["schedules", "configurations", "inputs"], "all divisions into work groups, all interleavings of work items, all problems for which single precision is exact",
 "There is no OpenCL device in the test environment; the code is compiled but never run and its kernels are not even compiled.",
 ["lib/gpu_csp.cpp", "lib/solve_csp.cl", "lib/compile_cl.cpp", "include/gpu_csp.hpp", "lib/constraint_graph.cpp", "lib/labeling_finder.cpp"],
 [("repeated kernel launches until no change", "csp_solution_cl"), ("kernel body", "csp_iteration, choose_best_node_gpu")],
 ["availability of each node after labeling"],
 [("changed", "device flags telling the host whether to go on", "csp_solution_cl, csp_iteration")])

add("C20", "The CUDA backend yields the sequential labeling for all schedules",
 "Labeling through the CUDA backend ends and leaves the same available nodes as the processor backend does, for every interleaving of the device threads and every image height. No device thread waits for others which have already finished or need not run at the same time, none accesses memory outside of what was allocated on the device, and all memory of the device is released.",
 ["schedules", "inputs"], "all interleavings of device threads, all problems for which single precision is exact",
 "There is neither a CUDA compiler nor a device; nothing compiles or runs this code.",
 ["lib/cuda_csp.cu", "lib/solve_csp.cu", "include/cuda_csp.hpp", "include/solve_csp.hpp"],
 [("kernel launches", "csp_solution_cuda"), ("kernel body", "csp_iteration_cuda, choose_best_node_gpu")],
 ["availability of each node after labeling", "allocations on the device"])

add("C21", "Availability marks behave as a set of nodes under any operation sequence",
 "After any sequence of marking existing nodes available or unavailable and clearing all of them, a node is reported available exactly if its last change made it so, independent of all other nodes. Whether any node is left is reported accordingly.",
 ["histories"], "all sequences of marking operations on graphs of any size",
 "Tests remove a handful of nodes once.",
 ["lib/constraint_graph.cpp", "lib/indexing.cpp"], [("bit set indexed by node", "make_node_available, make_node_unavailable, make_all_nodes_unavailable, is_node_available, check_nodes_left")],
 ["availability of each node"])

add("C22", "Thresholds decide availability of nodes and edges exactly and inclusively",
 "In a newly built constraint graph exactly those existing nodes are available whose penalty exceeds the lowest of their pixel by no more than the threshold. An edge is available exactly if it exists, both its nodes are available and its penalty exceeds the lowest of its neighbourhood by no more than the threshold; asking about any other edge answers no, and the direction of an edge does not matter. A larger threshold never makes anything unavailable.",
 ["inputs"], "all problems, reparametrizations, thresholds (between, at and above the deviations) and edges",
 "Tests check about ten nodes and three edges, for thresholds away from the deviations.",
 ["lib/constraint_graph.cpp"], [("comparison with the threshold", "ConstraintGraph::ConstraintGraph, is_edge_available")],
 ["availability of nodes and edges"])

add("C23", "Success is reported only if the complete map reached the output file",
 "Whenever opening or writing the output file fails, at whatever point and however many bytes were written before, the program reports an error and exits with a non-zero status. If it exits with zero, the output file holds the complete map.",
 ["fault_sequences"], "all points at which creating, writing or closing the output can fail, and short writes of any length",
 "No test runs the program, and none injects failures.",
 ["lib/main.cpp", "lib/pgm_io.cpp"], [("check of the output stream", "main")],
 ["exit status", "output file"])

add("C24", "No valid problem makes the library access memory outside of its data",
 "For every valid problem, of any shape including single rows, minimal widths and maximal disparity level counts, building, solving, labeling and querying existing or (where the query checks existence itself) arbitrary elements reads and writes only inside of the arrays of the problem, and never relies on undefined arithmetic.",
 ["inputs", "configurations"], "all shapes and contents of valid problems and all queries that check existence themselves",
 "The tests run without sanitizers on 3x2 and 4x3 images.",
 ["lib/constraint_graph.cpp", "lib/labeling_finder.cpp", "lib/lowest_penalties.cpp", "lib/indexing.cpp"],
 [("loop bounds and existence checks before accesses", "all loops over pixels, neighbours and disparities")],
 ["sanitizer and container assertion reports"])

add("C25", "Independent instances and repeated computations never influence each other",
 "Any interleaving of operations on several problems, constraint graphs and image readers gives each of them the result it has when used alone, and repeating a computation gives the same result. Solving and labeling change nothing but the availability marks of the graph they are given; copies of graphs and problems evolve independently.",
 ["histories"], "all interleavings of operation sequences on two or more instances of different sizes",
 "Each test uses one problem and one graph.",
 ["lib/constraint_graph.cpp", "lib/labeling_finder.cpp", "lib/lowest_penalties.cpp", "lib/pgm_io.cpp"],
 [("absence of shared mutable state, value semantics", "all modules")],
 ["results of the operations"])

add("C26", "A failing device never yields a labeling",
 "Whenever an operation of the OpenCL or CUDA implementation fails while a labeling is computed (allocation, transfer, compilation, launch, synchronization, looking for a device), at whatever point, once or for good, the backend does not report a labeling other than the right one: it raises an error, reports that there is no labeling or ends the program with a non-zero status.",
 ["fault_sequences", "inputs"], "all points at which an operation can fail, alone or together with all later ones",
 "There is no device in the test environment and nothing injects failures.",
 ["lib/cuda_csp.cu", "lib/gpu_csp.cpp", "lib/compile_cl.cpp", "lib/labeling_finder.cpp"], [("checks of the results of device operations", "cdpErrchk, csp_solution_cuda, csp_solution_cl")],
 ["result of the backend", "exit status", "availability of each node"])

add("C27", "The program computes the same map with every technology it was built with",
 "Whichever technologies the program was built with (OpenMP, OpenCL, CUDA or several) and whichever of them its command line names, in any letter case, or none: the output is the map which the CPU computes (single precision of graphics processors aside), written in the same way, and the technology named is the one used; choosing the CPU needs no device. Names of technologies which were not built in are refused. If anything goes wrong with a device, at whatever operation, the program either still writes the right map or exits with a non-zero status and a message and leaves the output as it was.",
 ["configurations", "inputs", "fault_sequences"], "all sets of technologies built in, all names, all valid inputs, all points at which a device operation can fail",
 "No test runs the program, only the plain configuration is built for the tests, and there is no device in the test environment.",
 ["lib/main.cpp", "lib/labeling_finder.cpp", "lib/labeling_finder.cu", "lib/cuda_csp.cu", "lib/gpu_csp.cpp"],
 [("choice of the technology and of the backend", "main"), ("writing the map after the labeling only", "main")],
 ["exit status", "output file", "standard error", "use of the device"])

add("C28", "Failing reads and exhausted memory never yield a wrong map",
 "If opening or reading an image fails, at whatever point and however much of it was read before, the program reports an error, exits with a non-zero status and leaves the output path as it was. Reads which deliver fewer bytes than asked for or are interrupted by signals lead to the right map or to such an error. If an allocation of memory fails while the program runs, at whatever point, alone or together with all later ones, the program does not crash and never presents a complete map other than the right one as a success: unless it can do without, it reports an error and exits with a non-zero status.",
 ["fault_sequences"], "all points at which opening or reading an image can fail or deliver fewer bytes, and all allocations of the program",
 "No test runs the program, and none injects failures.",
 ["lib/main.cpp", "lib/pgm_io.cpp"], [("check of the input stream", "read_image, PGM_IO::check_file_end, PGM_IO::read_pgm_instruction"), ("handlers of exceptions", "main")],
 ["exit status", "output file", "standard error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
