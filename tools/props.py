"""Settings of each check."""
CHECKS = {
    "P03": dict(level="model_checking", technique="explicit enumeration of all naming histories on the real code against a reference model",
                note="Every sequence of given names over a 10-name menu up to length 6 (7 thorough), plus clash ladders past 1000, on the real naming code and, for short files, through rtcg-read-traces; names outside the menu behave alike only by the code's uniformity in the base name."),

    "P01": dict(level="model_checking",
                technique="bounded exhaustive enumeration of file texts, read chunkings and read-error positions on the real reader, compared with a reference reader",
                note="All token strings up to 6 tokens and all files of up to 4 rows from a row menu, all chunkings of sample files and an error at each offset; text is UTF-8; binary junk and longer rows only through the length ladders."),
    "P02": dict(level="model_checking",
                technique="bounded exhaustive enumeration of events, event pairs and event texts on the real codec, compared with a reference codec",
                note="Product of boundary-covering domains of names, directions and values, all pairs for equality, all short token strings for decoding; names and values outside the menus behave alike only by the code's uniformity."),
    "P04": dict(level="model_checking",
                technique="bounded exhaustive enumeration of traces and of labelled trees on the real expand/collapse, compared with a reference model",
                note="All traces to length 6 (8) over five events, all labelled trees to 4 (5) nodes, all outcome chains to 9 (10) nodes, all double mutations of short linear tests and single mutations of long ones."),
    "P06": dict(level="model_checking",
                technique="bounded exhaustive enumeration of labelled trees and of suites on the real validator, and through rtcg-make-stms, compared with a reference predicate",
                note="All labelled trees to 4 (5) nodes, every well-formed tree to 7 (9) nodes with one defect everywhere and to 5 (7) nodes with two, long and wide trees with one defect everywhere; events and tags are sampled by presence, not content."),
}
CHECKS.update({
    "P05": dict(level="model_checking",
                technique="bounded exhaustive enumeration of suites on the real readers and writers, compared with an independent reader, writer and equality",
                note="Every value and string of the menus at every place one at a time, every labelled tree to 3 (4) nodes, pairs of states over a transition-set menu, large suites; text is UTF-8 and channel names and values are ones that text can produce."),
})
CHECKS.update({
    "P07": dict(level="model_checking",
                technique="bounded exhaustive enumeration of valid test trees on the real builder, each machine explored in product with its tree (bisimulation check)",
                note="All valid trees to 6 (7) nodes with all events or tags, and to 5 (6) with all identifiers, of the menus at every node (one attribute exhaustively at a time), all shapes and outcomes to 10 (12) nodes, ladders past 1000 states; one builder is reused across trees."),
})
CHECKS.update({
    "P08": dict(level="model_checking",
                technique="bounded exhaustive enumeration of trace files through the real pipeline, each resulting machine explored under every event at every place against the trace's own language",
                note="All traces to length 6 (7) over seven events in process and to 5 (6) through the two tools, all pairs of short traces, a menu of odd names and values, traces past 1000 events."),
})
CHECKS.update({
    "P09": dict(level="model_checking", harness_kind="maporder", kinds=["maporder"],
                technique="bounded exhaustive enumeration of suites and of hash-map iteration orders (runtime under a controlled map order) on the real type inference, compared with a reference least upper bound",
                note="All value sequences to length 5 (6) on one channel and 4 (5) on two, all branching trees to 6 (7) nodes with every sort of value, all three-test suites over five sorts on two channels with every map order one at a time (two at a time), smaller suites under the full product of map orders."),
})
CHECKS.update({
    "P10": dict(level="model_checking", harness_kind="maporder", kinds=["maporder"],
                technique="stateless exploration of hash-map iteration orders of the real tools (Go runtime under a controlled map order, deviation-bounded), and exhaustive enumeration of builder and generation histories, suite subsets and test orders",
                note="Every iteration over a map of up to eight entries is a choice point: one deviation (two in thorough, generator one) from insertion order, all orders of up to four entries (generator: two; reverse, rotations and exchanges beyond), plus global reversals and rotations; larger maps only under the runtime's own random orders. All builder histories to depth 4 (6) over seven tests."),
})
CHECKS.update({
    "P11": dict(level="model_checking", harness_kind="maporder",
                technique="bounded exhaustive enumeration of trace pairs, test sets and hash-map iteration orders on the real factoriser, compared with a reference model",
                note="All pairs of traces to length 3 over eight events, 5 (6) over four and 10 (11) over two; all multisets of up to two (three) tests over 52 and of four over 16, after every trace; every iteration order of sets of up to four (five); sets of hundreds of tests only under the runtime's own orders."),
})
CHECKS.update({
    "P19": dict(level="model_checking",
                technique="bounded exhaustive enumeration of state machines and of sequences of additions on the real table builder, compared with reference tables",
                note="All machines of one state with up to three sets of one or two transitions over five channels, of two states with up to two, of three with up to two singletons, of five (six) with one; all sequences of six (seven) additions to transition sets and of four (five) to tables; machines of hundreds of states only as samples."),
})
CHECKS.update({
    "P20": dict(level="model_checking",
                technique="bounded exhaustive enumeration of names on the real converters, the look-behind automaton being driven through every short string, compared with a pairwise reference",
                note="All strings to length 6 (7) over nine characters of every sort and to 12 (14) over three, every Unicode character in 27 contexts, names to 180000 characters; names are valid UTF-8; idempotence is required where every letter has a lower-case form."),
})
CHECKS.update({
    "P15": dict(level="model_checking", harness_kind="maporder",
                technique="bounded exhaustive enumeration of package configurations, generation histories and hash-map orders on the real generator, its files parsed back and compared with a reference expansion",
                note="All combinations of four (five) sorts of content of the six fields, all pairs of dependency lists of up to three, one generator on all sequences of up to three suites, every order of up to four tests, every XML character in every field, and a menu of configurations through rtcg-gen; the CMake file is judged where project and dependency names are plain words."),
})
CHECKS.update({
    "P14": dict(level="model_checking",
                technique="bounded exhaustive enumeration of configurations and suites through the real generator, the projects judged against a reference manifest, and built and run",
                note="All 144 option combinations of each variant with seven suites, a covering part of (all) pairs of variants; some thirty (fifty) animate projects are really built with make and run; ROS projects cannot be built here with catkin, their build files are resolved instead."),
})
CHECKS.update({
    "P12": dict(level="model_checking",
                technique="bounded exhaustive enumeration of suites and, for each generated and compiled program, of all scripts to a depth and from every reachable situation, in product with a reference interpreter of its machine",
                note="Every trace to length 2 and a part of those of length 3 over 17 events of all sorts, every tree to 5 (7) nodes, machines with cycles; all scripts to length 3 (4) and all of length 2 (3) after every reachable situation, run in one process per 30 programs and any discrepancy confirmed on the program by itself."),
})
CHECKS.update({
    "P13": dict(level="model_checking",
                technique="bounded exhaustive enumeration of suites and, for each generated and compiled node, of all orders of deliveries to a depth and from every reachable situation, under a recording stand-in for roscpp, in product with a reference interpreter of its machine",
                note="The suites of P12; all sequences of three (four) deliveries of the timers, acknowledgements and messages and of two (three) after every reachable situation, every delivery going on after the end; roscpp is a stand-in of 150 lines that delivers one callback at a time."),
})
CHECKS.update({
    "P16": dict(level="model_checking",
                technique="bounded exhaustive enumeration of damaged inputs, argument lists and failing pipeline stages, each run through the real tools and judged against references",
                note="Every truncation of two samples for each tool, every byte lost, doubled, replaced or inserted from a menu, every structural change of a JSON document (pairs on small ones), every line and attribute of the configuration, all argument lists of up to three (four) from eleven, all combinations of seven kinds of stages of the script; what rtcg-gen accepts is shown to the C++ compiler (animate)."),
    "P17": dict(level="fault_enumeration", kinds=["faults"],
                technique="exhaustive fault injection: every operation of the real tools on files is made to fail (one, several or all later ones) under an instrumented Go runtime, and the outcome is judged against the fault-free run",
                rule="one case is one run of a tool on a sample input under a plan of faults (operation k ends in error e, or moves one byte, or all operations from k on fail, or two or three operations fail, or all reads or writes are short) or with an obstacle in the way of an output; all k of each sample are enumerated; a case is non-trivial if a planned fault took place",
                note="Operations are those of the system-call wrappers of Go's standard library (read, write, open, close, mkdir, directory reading, unlink, copy_file_range ...), except on descriptor 2; several errors each; pairs and triples that follow a failure; every short read and write; real obstacles (full device, directory or file in the way) at every output."),
    "P18": dict(level="model_checking",
                technique="exhaustive enumeration of output-directory spellings, earlier contents, hostile names, run histories and invalid inputs on the real generator, as an unprivileged user, with a snapshot of the surrounding tree compared before and after",
                note="All of about sixty spellings from three current directories, each with and without the clean option over four earlier contents; about eighty hostile names at five places; all histories of three (four) steps from eleven; truncated inputs with the clean option; the root directory inside a user namespace."),
})

CHECKS.update({
    "P21": dict(level="model_checking",
                technique="bounded exhaustive enumeration of trace files through the whole real pipeline and, for each generated and compiled program, of all scripts to a depth and around every point of its trace, in product with the trace itself",
                note="Every trace to length 3 over six events in one file, with all styles of writing them; a file in which only the whole decides the types, with odd values and other line ends; a trace of 70 events; the bmon example with its own conversions; ROS programs under a stand-in for roscpp."),
})
CHECKS.update({
    "P22": dict(level="model_checking", kinds=["world"],
                technique="exhaustive enumeration of invocations of the real tools that differ from a plain one in up to two (three) of eight dimensions, and of all ways of cutting a piped input, compared with the plain invocation",
                note="Where the input comes from (39 ways), current directory, environment, limits, standard output and error, the way the tool, the configuration and the output directory are named; small inputs with pairs (triples) of deviations, large ones with single ones (pairs)."),
})
CHECKS.update({
    "P23": dict(level="model_checking",
                technique="bounded exhaustive enumeration of texts on the real readers and writers of each vocabulary of the file formats, compared with word lists",
                note="Every way of writing each word, everything within two edits of it over some forty characters, every string of up to four (five) letters of the words, all verdicts over five tests; words and near-words at each of their places in the files of each tool."),
})
CHECKS.update({
    "P24": dict(level="model_checking", harness_kind="maporder",
                technique="exhaustive enumeration of trees, pairs of traces and histories of operations on the real traversals and containers, compared with reference models, with controlled map iteration orders",
                note="All tree shapes to 9 (11) nodes, stopping at every node; all pairs of traces to length 4 over six events; all histories of a stack to 12 (14) and of sets to 4 (5) operations; all maps to 4 (5) entries in all orders; all verdicts over five tests; sizes that the sources mention."),
})
