"""What each check covers and takes for granted, as written into its evidence."""
INPUTS = "All elements of the listed spaces (space_sizes) are executed on the library built from /repo; "
BOUNDS = {
    "C01": INPUTS + "all pairs of images of up to 5 pixels per row over alphabets of 2 to 4 intensities, all levels, six pairs of weights; larger and unusual shapes, intensities and candidate lists as fixed lists.",
    "C02": INPUTS + "all sets of nodes of grids up to 3x2 with 3 levels, all perturbations by one pixel of larger ones, problems whose solution winds through many passes, removals around 256.",
    "C03": "All interleavings of loads and stores of teams of 1 to 3 threads (thorough: 5) on the listed problems, states visited once; labelings of 2 threads (thorough: 3); teams of up to 14 threads and 20 rows in two schedules each.",
    "C04": INPUTS + "all sets of nodes of grids up to 3x2, all steps: shares of rows of all team sizes, single pixels.",
    "C05": INPUTS + "all sets of nodes of grids up to 3x2, all 5-way combinations of relations between pixels of small grids, spirals with many dead ends in a row.",
    "C06": INPUTS + "all orders, signs and magnitudes of penalties of up to 4 nodes, all subsets of the nodes of a pixel.",
    "C07": INPUTS + "all ascending sublists of the candidates of small problems, the border at each index of lists of up to some thousand candidates.",
    "C08": INPUTS + "all small images, all shapes up to the listed ones, single and double reparametrization elements, nine scales of weights.",
    "C09": INPUTS + "all small images, all shapes up to the listed ones, single and double reparametrization elements, nine scales, the minimum at each of 262 levels.",
    "C10": INPUTS + "all small images, all shapes up to the listed ones, reparametrization elements at all positions, all maps of small problems.",
    "C11": INPUTS + "all shapes up to the listed ones, all coordinates in and around the images and at the ends of the coordinate type.",
    "C12": INPUTS + "all positions of all shapes up to the listed ones; huge sizes at chosen positions.",
    "C13": INPUTS + "all combinations of sizes, maxima, levels, weights and flaws over lists of boundary values.",
    "C14": INPUTS + "all texts over several alphabets of characters and of tokens up to a length, all edits of a byte of valid images, all ways to split the delivery of bytes.",
    "C15": INPUTS + "all images of small shapes over alphabets with each number of digits, all widths around line breaks.",
    "C16": INPUTS + "all small images over an alphabet with extremes, one bad intensity at each position of longer ones.",
    "C17": INPUTS + "all sets of nodes of grids up to 3x2, all sets of nodes of one pixel of larger ones.",
    "C18": "All subsets and orders of options over lists of values and states of files, each executed with the program built from /repo.",
    "C19": "All interleavings of loads and stores of the work items of each launch on problems of up to 4 pixels without bound on interruptions, on up to 6 with at most one and on 9 with none; all sizes of groups if kernels ask for them. Spaces whose names begin with values, sizes, linear and reused execute one schedule per problem.",
    "C20": "All interleavings of loads and stores of the device threads of each launch on problems of up to 4 pixels without bound on interruptions, on up to 6 with at most one and on 9 with none. Spaces whose names begin with values, sizes, linear and reused execute one schedule per problem.",
    "C21": INPUTS + "all sets of marks of small graphs with each operation, all sequences of operations up to depth 6 (thorough: 8).",
    "C22": INPUTS + "all small images, all shapes up to the listed ones, thresholds at, between and next to all deviations, all edges over coordinates in and around the images.",
    "C23": "Each system call of the program on its output fails in each listed way, up to 2 (thorough: 3) faults per run; a limit of the file size at each byte; outputs larger than one buffer with faults at the last calls.",
    "C24": INPUTS + "all shapes up to the listed ones with all queries over coordinates in and around the images, under AddressSanitizer, UndefinedBehaviorSanitizer and checked containers.",
    "C25": INPUTS + "all sequences of up to 3 (thorough: 4) of 24 operations on two instances and their copies, all interleavings of pairs of sequences of six operations.",
    "C26": "Each operation of the stand-ins for OpenCL and CUDA fails, alone and with all later ones, on each listed problem; one schedule of device threads per run. Transitions are operations of the device.",
    "C27": "Four builds of the program (OpenMP, OpenCL, CUDA, all), all listed spellings of technologies, all small image pairs, each operation of the device fails on twelve problems; one schedule of threads per run.",
    "C28": "Each system call of the program which opens, reads or closes an image fails in each listed way, up to 2 (thorough: 3) faults per run, on four small problems, one of them with images larger than a buffer; each allocation after the start of main() fails alone, and together with all later ones on four problems.",
}
_SC = "loads and stores are sequentially consistent and take effect one at a time; reorderings by weak memory models are outside"
_FAIR = "schedules are fair: a cycle of states counts as endless repetition only if each thread which could go on does so within it"
_DYADIC = "exact oracles need numbers which the code's floating point types represent exactly; others are left to the precision space (known findings)"
ASSUMPTIONS = {
    "C03": [_SC, _FAIR, "the stand-in for libgomp (harness/omp.hpp) behaves as OpenMP specifies; its own tests run first (space selftest)",
            "problems counted as cut at the limit of states were explored up to that limit only"],
    "C19": [_SC, _FAIR, _DYADIC, "the stand-in for OpenCL (harness/fakecl.hpp) executes one kernel at a time; commands of one queue run in order",
            "the kernels are compiled by clang for this machine from the source which the host code hands over",
            "interruptions_beyond_the_bound counts switches which the bound on interruptions excluded in the spaces whose names end with _p0 or _p1"],
    "C20": [_SC, _FAIR, _DYADIC, "the stand-in for CUDA (harness/fakecuda.hpp) executes one kernel at a time; device code is compiled by clang++ for this machine",
            "shared memory of several blocks at a time is not supported by the stand-in: code which uses it makes this check fail to build instead of passing"],
    "C26": ["the stand-ins fail only as their interfaces allow: an error code, no effect of the failing operation"],
    "C27": ["the stand-ins for OpenMP, OpenCL and CUDA replace compilers and drivers; schedules are left to C03, C19 and C20", _DYADIC],
    "C23": ["faults are those which an interposed C library can report: error numbers, short writes, a full device, size limits"],
    "C28": ["allocations are those which reach malloc and its relatives; those before main() never fail"],
    "C18": ["the expected map comes from the reference model, on problems small enough for brute force"],
}
for _i in (1, 2, 4, 5, 6, 7, 8, 9, 10, 22):
    ASSUMPTIONS.setdefault("C%02d" % _i, []).append("weights and reparametrizations are dyadic numbers, for which double precision is exact")
BINDING = {
    "C18": "every case runs the program built from /repo; exit status, messages and files are compared with the model of the command line",
    "C23": "every case runs the program built from /repo with the interposed faults; the output is parsed by an independent reader",
    "C28": "every case runs the program built from /repo, supervised with ptrace or with an allocator which fails; the output is compared with the reference model",
    "C27": "every case runs programs built from /repo; outputs are compared with the reference model and with each other",
    "C26": "every case runs the host code and kernels of /repo on the stand-ins; labelings are compared with the reference model",
}
