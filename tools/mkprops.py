#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here; run after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

p("P01", "Trace files are read exactly as written, or rejected",
  "Reading a forbidden-trace file yields exactly one trace per non-empty, non-comment row of a UTF-8 text, in file order, carrying the row's optional name (the text before the first ':' of its first cell) and every event of the row in order, the last being the forbidden one; white space around names, channels, directions and values never matters, the letters of directions may be of either case, values that are base-10 signed 64-bit integers are read as integers and all others as enumeration constants. "
  "A row with a malformed event (missing channel name or direction, unknown direction) or malformed quoting makes the whole read fail with an error. "
  "How the bytes are delivered (file or standard input, short reads) never matters, and a read error is never mistaken for the end of the file.",
  ["inputs", "fault_sequences"], "all row texts over a token alphabet up to a length bound, all multi-row files from a row menu, all read-chunkings and all read-error offsets of sample files",
  "TestRead reads one happy-path file; no malformed, quoted, padded, multi-row-with-comment or short-read input is tested, and the format is defined over all texts.",
  ["internal/trace/read.go", "internal/testlang/event.go", "internal/testlang/channel/channel.go", "internal/testlang/value/value.go", "cmd/rtcg-read-traces/main.go"],
  [("CSV reader settings", "internal/trace/read.go newReader"), ("row and name parsing", "internal/trace/read.go parseRow/tryParseName"), ("event text parser", "internal/testlang/event.go UnmarshalText")],
  observe=["trace.Read result", "stdout and exit status of rtcg-read-traces"])
p("P02", "Event text encoding is lossless and canonical",
  "For every event with a non-empty channel name free of '.' and of surrounding white space, any direction and any optional value obtained from text, encoding the event as text and decoding it again, into whatever variable, gives an equal event (same channel, direction, presence, type and content of value), and re-encoding gives the same text. "
  "Two events are considered equal exactly when channel name, direction and value (presence, type and content) all agree. "
  "Text that lacks a channel name or a direction, or has an unknown direction, is rejected rather than decoded to something else.",
  ["inputs"], "all combinations of channel names, directions and values from boundary-covering domains; all pairs for equality; all short token strings for rejection",
  "The tests encode and decode seven fixed events; losslessness is a statement about all names and values, including integer limits, dotted and empty values.",
  ["internal/testlang/event.go", "internal/testlang/channel/channel.go", "internal/testlang/channel/kind_enum.go", "internal/testlang/value/value.go", "internal/testlang/value/int.go", "internal/testlang/value/enum.go"],
  [("MarshalText/UnmarshalText", "internal/testlang/event.go"), ("parser order int then enum", "internal/testlang/value/value.go UnmarshalText"), ("Equals", "internal/testlang/event.go")],
  observe=["text form of an event", "equality verdict"])
p("P03", "Every trace becomes exactly one test, uniquely and stably named",
  "Naming a list of traces yields exactly as many tests as traces, each holding the trace it was made from and no two sharing a name. "
  "A trace keeps the name it was given unless a trace before it in the file already holds that name; nameless traces, and traces given the name 'test', get the first free of test0, test1, ..., and other clashing names N get the first free of N0, N1, .... "
  "No trace is ever dropped, merged or overwritten.",
  ["inputs", "histories"], "all sequences of given names up to a length bound over an alphabet built to clash (x, x0, x00, test, test0, nameless ...), and long runs of duplicates",
  "TestName tries one list of six traces; uniqueness must hold for every pattern of clashes, including given names that equal synthesised ones.",
  ["internal/trace/trace.go", "cmd/rtcg-read-traces/main.go"],
  [("first-free search", "internal/trace/trace.go insertName/synthesiseName")],
  state=[("result map", "tests named so far", "internal/trace/trace.go Name")], observe=["keys and contents of the emitted test suite"])
p("P04", "Expanding and collapsing forbidden traces are exact inverses",
  "Expanding a forbidden trace gives a linear test tree: an eventless root, one inconclusive node per prefix event in order, one passing node carrying the forbidden event, and one failing node, every node tagged with exactly the test's name. "
  "Collapsing that tree gives back the same prefix and forbidden event. "
  "Collapsing fails with an error for every tree that is not such a linear inconclusive*-pass-fail chain (branching, truncated, outcomes out of order, events or tags missing).",
  ["inputs"], "all traces over an event alphabet up to a length bound; all labelled trees up to a node bound",
  "Expansion is tested on two traces; collapse is tested only on trees that expansion made, so its rejection of other trees is never exercised.",
  ["internal/trace/expand.go", "internal/trace/collapse.go", "internal/validate/node.go", "internal/testlang/node.go", "internal/testlang/walk.go"],
  [("backward tree building", "internal/trace/expand.go Expand"), ("in-place validation and outcome walk", "internal/trace/collapse.go Collapse")],
  observe=["expanded tree", "collapse result or error"])
p("P05", "Interchange files carry suites without loss",
  "Writing a test suite or a state-machine suite to its JSON interchange form and reading it back gives the same suite: same tests, tree shape and child order, identifiers, tags, outcomes, events, states, transition order, verdicts, channel types and test sets. "
  "Writing what was read back gives the same text. "
  "This holds for every UTF-8 string content (quotes, markup characters, non-ASCII text) and for absent, empty, negative and extreme values, a value being what reading its text gives. "
  "How a file uses JSON (white space, order of members, escapes, empty lists and strings written out or left out) makes no difference to what is read, or to what the tools make of it.",
  ["inputs"], "all suites of labelled trees up to a node bound and all state machines over small domains of identifiers, channels, values, verdicts and types",
  "No test writes or reads either interchange format; losslessness concerns every suite, not one example.",
  ["internal/serial/serial.go", "internal/testlang/testlang.go", "internal/testlang/node.go", "internal/stm/suite.go", "internal/stm/transition/transition.go", "internal/stm/verdict/verdict.go", "internal/structure/set.go", "internal/testlang/rstype/rstype.go"],
  [("JSON (un)marshallers", "internal/serial/serial.go and the MarshalJSON/MarshalText methods")],
  observe=["JSON text", "decoded suite"])
p("P06", "The validator accepts exactly the well-formed test trees",
  "A test is accepted for state-machine generation if and only if its root has no event, no outcome and at least one tag, and every other node, wherever it sits in the tree, has at least one tag and is either failing with neither event nor children, inconclusive with an event and at least one child, or passing with an event and exactly one child. "
  "A suite is accepted if and only if all its tests are. "
  "Accepted trees are passed on unchanged.",
  ["inputs"], "all labelled trees up to a node bound, each defect placed at every position of larger trees, all suites mixing good and bad tests",
  "Only one happy-path tree is validated by the tests: no rejection rule is exercised at all.",
  ["internal/validate/node.go", "internal/validate/validate.go", "internal/validate/suite.go", "internal/testlang/walk.go", "cmd/rtcg-make-stms/main.go"],
  [("per-node rules", "internal/validate/node.go"), ("pre-order walk over all nodes", "internal/testlang/walk.go Walk")],
  observe=["accept/reject of the validator", "exit status of rtcg-make-stms"])
p("P07", "A generated state machine mirrors its test tree exactly",
  "For every valid test tree whose own node identifiers are distinct, and in which no two children of a node disagree about a test, the generated state machine has exactly one state per non-failing node, the root's coming first, each under a unique identifier (a node's own where it has one, 'initial' for the root), and for every child that is not failing exactly one transition, on the child's channel and value, to the child's state; nothing else is reachable or listed. "
  "Each state's verdict gives every test of every child that child's outcome, and the machine lists exactly the tests tagged below its root. "
  "Trees whose identifiers clash are rejected, and every sequence of events drives tree and machine to corresponding places with the same verdicts.",
  ["inputs", "histories"], "all valid trees up to a node bound (branching, mixed directions, tags, explicit and missing identifiers); all event sequences through the product of tree and machine",
  "One two-state machine is tested; branching, shared channels, identifiers and multi-test tags are not.",
  ["internal/stm/builder.go", "internal/stm/state.go", "internal/stm/transition/set.go", "internal/stm/verdict/verdict.go", "internal/validate/validate.go"],
  [("stack traversal and id assignment", "internal/stm/builder.go"), ("grouping of transitions by channel", "internal/stm/transition/set.go AddToSets"), ("verdict from children", "internal/stm/state.go addVerdictsFromNode")],
  state=[("nodeNum", "next synthetic identifier", "internal/stm/builder.go"), ("stack", "nodes still to process", "internal/stm/builder.go")], observe=["stms JSON emitted by rtcg-make-stms"])
p("P08", "Machines made from traces report fail exactly on the forbidden trace",
  "For every trace file that is read successfully with consistent channel types, following the produced state machine of a trace through any sequence of events reports: fail if and only if the events so far are the trace's prefix followed by its forbidden event; pass if and only if they are exactly the prefix; inconclusive if and only if they are a proper prefix of the prefix. "
  "Every other sequence has no continuation in the machine. "
  "A verdict is given for that trace's test and no other.",
  ["inputs", "histories"], "all forbidden traces over an event alphabet (several channels, directions, values, valueless events) up to a length bound; for each, all event sequences up to one beyond its length",
  "The tests check trace reading, expansion and building separately on tiny cases; the end-to-end meaning of a test is never checked.",
  ["internal/trace/read.go", "internal/trace/expand.go", "internal/stm/builder.go", "internal/stm/state.go", "cmd/rtcg-read-traces/main.go", "cmd/rtcg-make-stms/main.go"],
  [("expansion then machine construction", "cmd/rtcg-read-traces, cmd/rtcg-make-stms")], observe=["verdict of the state reached in the stms JSON"])
p("P09", "Channel types are least upper bounds, independent of order",
  "For every suite, the type given to a channel in a test is the least type covering all values it carries in that test (nat for non-negative integers, int if any is negative, enum for enumeration constants, the empty type if it never carries a value), and the suite-wide type is the least one covering all tests; every channel used is listed, and no other. "
  "The result does not depend on the order of events, branches or tests. "
  "A suite is rejected if and only if some channel mixes numbers, enumeration constants and valueless events.",
  ["inputs", "histories"], "all suites of up to three tests over two channels and all value kinds up to an event bound, in every order; all pairs and triples of types for the unification laws",
  "No test runs inference or unification beyond the type of a single integer.",
  ["internal/testlang/rstype/unify.go", "internal/testlang/rstype/arithmos.go", "internal/testlang/rstype/rstype.go", "internal/stm/builder.go", "internal/testlang/value/int.go", "internal/testlang/value/value.go"],
  [("pairwise unification", "internal/testlang/rstype/unify.go Unify"), ("per-test and cross-test folding", "internal/stm/builder.go inferEventType/unifyTypes")], observe=["types maps in the stms JSON", "exit status"])
p("P10", "Outputs depend only on the inputs",
  "Running any stage twice on the same input gives byte-identical output (apart from the generation date stamped into source comments), whatever order the language runtime iterates over its hash maps. "
  "The state machine and the generated source of a test depend only on that test and the suite-wide channel types, not on which other tests are in the suite, nor on which tests were processed earlier, successfully or not. "
  "Reordering the tests of a suite, or the rows of a trace file with distinct names, changes nothing else.",
  ["schedules", "histories", "configurations"], "all hash-map iteration orders up to two deviations from the default at every iteration performed by the real tools; all build histories of up to three tests on one builder",
  "A test run sees one random map order per execution and never compares two; the builder is tested on one build only.",
  ["internal/stm/builder.go", "internal/structure/set.go", "internal/structure/map.go", "internal/gen/gencommon/context.go", "internal/gen/cpp/cpp.go", "internal/gen/makefile/makefile.go", "internal/trace/trace.go"],
  [("sorted emission of maps", "encoding/json and text/template"), ("per-build reset of builder state", "internal/stm/builder.go Build")],
  state=[("Builder fields", "reused between builds", "internal/stm/builder.go")], observe=["bytes written by the three tools"],
  hook="none in /repo: the map-iteration order is controlled by building the tools with an overlay of the Go runtime")
p("P11", "Factorisation keeps every test exactly once",
  "For any set of forbidden-trace tests and any trace, the failures found after that trace are exactly the tests whose prefix equals it, each with its own forbidden event, in whatever order. "
  "In the spine nodes built for it each such test occurs exactly once as a pass-then-fail test point tagged with its name: alone in its own inconclusive node if its forbidden event is an input, and otherwise together with all the other non-input ones in a single final inconclusive node; all carry the last event of the trace (or none, if it is empty). "
  "The prefix relation on traces is exactly sequence prefix, and equality is mutual prefix.",
  ["inputs"], "all sets of up to four tests over a trace domain, all 'after' traces, all pairs of traces up to a length bound",
  "The factorisation package has no tests, and prefix comparison is not tested either.",
  ["internal/factorise/factorise.go", "internal/trace/trace.go", "internal/testlang/node.go"],
  [("prefix match", "internal/factorise/factorise.go Failures"), ("input/output split", "internal/factorise/factorise.go SpineNodes"), ("IsPrefixOf/Equals", "internal/trace/trace.go")], observe=["spine nodes", "prefix and equality answers"])
p("P12", "A generated animate test program executes its test faithfully",
  "For every suite of deterministic tests in which a state offers either one input or only outputs and calls, names are ordinary C++ identifiers that differ by more than case and are not used by the generated programs themselves, and numbers fit the C++ types, the generated animate program of a test compiles and, for every script typed at it, follows the test: it waits for 'ready' before the first input, accepts only the input acknowledgement, outputs and values its current state allows, ends off-script on any other output, ends on 'timeout', and ignores commands that are not offered; a value that is no number where one is due is refused, and the end of the script counts as 'timeout'. "
  "It ends as soon as the forbidden event of a test is seen, reports for each test the outcome of the last state visited that gives one (unset if none), and exits with status 1 if a forbidden event was seen, and 0 otherwise. "
  "Each input state announces exactly the value and channel of its input, passed through the user's conversion where the channel type is overridden.",
  ["programs", "histories"], "all tests over small event alphabets and branching trees up to a bound; for each, all scripts up to a depth, explored on the compiled program",
  "Nothing in the test suite compiles or runs generated code.",
  ["internal/gen/cpp/embed/templates/animate/main.cpp.tmpl", "internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl", "internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl", "internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl", "internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl", "internal/gen/cpp/embed/prelude/rtcg.cpp", "internal/gen/cpp/func.go", "internal/gen/gencommon/context.go"],
  [("state entry functions and callbacks", "internal/gen/cpp/embed/templates/base"), ("status to exit code", "internal/gen/cpp/embed/prelude/rtcg.cpp")],
  state=[("status_, state_, verdict_", "run-time state of the generated test", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl")], observe=["exit status and final outcomes of the generated program"])
p("P13", "A generated ROS test node executes its test faithfully",
  "For every such suite (deterministic tests, each state with one input or only outputs and calls, ordinary names as for the animate programs, configured message types for channels of numbers), the generated ROS node of a test, driven by any order of deliveries of its timers, input acknowledgements and output messages, publishes exactly one message per input state it enters, on that channel's topic and with that state's (converted) value, and only after the initial delay when the first state is an input; it advances only on the acknowledgement, outputs and values its state allows. "
  "Any other output ends it off-script, an acknowledgement that is not due ends it with an error status, the time-out timer ends it, and a forbidden event ends it as failed; ending shuts ROS down exactly once, and nothing delivered afterwards has any effect. "
  "It subscribes and advertises exactly the lower_underscored topics of its output and input channels, and its final outcomes and exit status are those of the test.",
  ["programs", "schedules"], "all tests over small event alphabets and branching trees up to a bound; for each, all callback delivery orders up to a depth, on the compiled node against a stub ROS",
  "Nothing in the test suite compiles or runs generated code, let alone under adverse callback orders.",
  ["internal/gen/cpp/embed/templates/ros/main.cpp.tmpl", "internal/gen/cpp/embed/templates/ros/main_body.cpp.tmpl", "internal/gen/cpp/embed/templates/ros/convert/convert.h.tmpl", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl", "internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl", "internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl", "internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl", "internal/strmanip/strmanip.go", "internal/gen/gencommon/context.go"],
  [("callbacks guarded by status", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl"), ("publisher/subscriber wiring", "internal/gen/cpp/embed/templates/ros/main.cpp.tmpl")],
  state=[("status_, state_, verdict_, publishers", "run-time state of the generated node", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl")], observe=["published messages, shutdowns, exit status, final outcomes"])
p("P14", "Generated projects are complete and honour their configuration",
  "For every valid configuration and suite, generation succeeds and produces, for each configured variant, one source directory per test with its program, the shared conversion header, the run-time library and the user's conversion source whenever a channel type is overridden, plus a Makefile if and only if one is configured and Catkin package files if and only if Catkin is configured (then with a conversion source in any case). "
  "Every source file named by a generated Makefile or CMake file exists, each configured include and channel type appears in the generated code of its own variant and of no other, and the Makefile of the animate variant builds one working program per test. "
  "A test's files are the same whatever other variants are configured.",
  ["configurations", "inputs"], "all combinations of variants, Makefile, Catkin, includes, channel overrides (none, used, unused) and suites of up to three tests",
  "Tests load one configuration and list directories of an empty suite; nothing is generated.",
  ["internal/gen/gen.go", "internal/gen/cpp/cpp.go", "internal/gen/cpp/copy.go", "internal/gen/cpp/template.go", "internal/gen/config/config.go", "internal/gen/config/cpp/cpp.go", "internal/gen/config/cpp/context.go", "internal/gen/makefile/makefile.go", "internal/gen/makefile/embed/templates/Makefile.tmpl", "internal/gen/catkin/catkin.go", "internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl", "internal/gen/cpp/embed/templates/base/includes.cpp.tmpl"],
  [("sub-generator assembly per variant", "internal/gen/gen.go initCppVariant"), ("override processing", "internal/gen/config/cpp/context.go Process")], observe=["generated file tree", "result of make"])
p("P15", "Catkin packages are filled in per test, without leakage",
  "For every package configuration (of text that XML can carry) and every suite, each test's package manifest is a format-2 manifest with the configured name, version, description, maintainer, licence and dependency lists, defaults standing in for what is missing, and every ${NAME} in name, description, maintainer and licence replaced by that very test's name; reading the manifest back as XML gives exactly these strings. "
  "The package's CMake file names the same project and lists exactly the configured dependencies, in addition to roscpp and std_msgs. "
  "No test's manifest depends on the other tests or on the order in which they are generated.",
  ["configurations", "inputs"], "all combinations of absent, literal, templated and markup-bearing fields with dependency lists of up to three, over suites of up to three tests",
  "Tests expand one package once; sharing between several tests, defaults in combination and escaping are not exercised.",
  ["internal/gen/catkin/catkin.go", "internal/gen/config/catkin/package.go", "internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl"],
  [("copy before expansion", "internal/gen/catkin/catkin.go generateTest"), ("defaults", "internal/gen/config/catkin/package.go Autofill")],
  state=[("Package", "shared template of all manifests", "internal/gen/catkin/catkin.go")], observe=["package.xml", "CMakeLists.txt"])
p("P16", "Bad or truncated inputs are refused cleanly by every tool",
  "Given an input file that is truncated at any point, not of the expected format, or structurally damaged (a field missing, null or of the wrong kind), each tool either still produces a complete, well-formed result for what it read or stops with a diagnostic on standard error, a non-zero exit status and nothing on standard output; it never crashes. "
  "The same holds for wrong numbers of arguments and for missing files. "
  "The pipeline script fails whenever a stage of it fails.",
  ["inputs", "fault_sequences"], "every truncation point and every single structural mutation (each node replaced by each foreign kind, or removed) of sample inputs of every tool and of the configuration",
  "No test feeds malformed data to a tool or runs a tool at all.",
  ["cmd/rtcg-read-traces/main.go", "cmd/rtcg-make-stms/main.go", "cmd/rtcg-gen/main.go", "internal/cli/cli.go", "internal/serial/serial.go", "internal/validate/node.go", "internal/stm/suite.go", "internal/gen/config/config.go", "rtcg.sh"],
  [("error propagation to HandleError", "internal/cli/cli.go"), ("validation before use", "internal/validate")], observe=["exit status, stdout, stderr of each tool"])
p("P17", "No input/output failure goes unreported",
  "If any operation of a tool on its files fails (creating a directory or file, opening, reading, writing or closing a file, listing a directory to be cleaned, or writing to standard output), the tool exits with a non-zero status and a diagnostic; only a failing removal or kernel-side copy may be made up for by other means. "
  "If it exits with status zero, every output file is complete and everything to be cleaned is gone. "
  "Short but successful reads and writes never change the result.",
  ["fault_sequences"], "every operation performed by each tool on sample inputs, failed one at a time (and in pairs for errors that could mask each other), with several errors; every single short read",
  "No test injects any failure.",
  ["cmd/rtcg-read-traces/main.go", "cmd/rtcg-make-stms/main.go", "cmd/rtcg-gen/main.go", "internal/gen/gen.go", "internal/gen/cpp/copy.go", "internal/gen/cpp/cpp.go", "internal/gen/catkin/catkin.go", "internal/gen/templating/templating.go", "internal/gen/templating/set.go", "internal/gen/makefile/makefile.go", "internal/serial/serial.go"],
  [("errors.Join of operation and close errors", "internal/gen/templating/templating.go, internal/gen/cpp/copy.go")], observe=["exit status of each tool under each injected fault", "output files"],
  hook="none in /repo: faults are injected by building the tools with an overlay of the Go os and syscall packages")
p("P18", "The generator touches nothing but its output directory",
  "rtcg-gen creates, changes and deletes nothing outside its output directory, (apart from directories needed above it), whatever the names in its inputs. "
  "Without the clean option it deletes nothing at all and leaves unrelated files and its own inputs inside the output directory as they were; with it, nothing that was in the output directory before remains, and the result equals that of generating into a fresh directory. "
  "It refuses to clean the current directory or any directory above it, however spelled, and a run whose arguments, state machines or configuration cannot be read deletes nothing.",
  ["configurations", "histories", "inputs"], "all combinations of output-directory spellings, clean option, earlier contents, input validity and hostile test names, and sequences of up to three runs",
  "No test runs the generator against a file system.",
  ["cmd/rtcg-gen/main.go", "internal/gen/gen.go", "internal/gen/cpp/cpp.go", "internal/gen/cpp/copy.go", "internal/gen/gencommon/dirset.go"],
  [("clean guard", "cmd/rtcg-gen/main.go maybeClean"), ("directory sets", "internal/gen/gencommon/dirset.go")], observe=["snapshot of the surrounding directory tree before and after"])
p("P19", "Callback tables contain exactly the machine's transitions",
  "For every state machine, the per-channel tables from which callbacks are generated contain, for each channel in order of first use and each state, exactly that state's transitions on that channel in order, and nothing else. "
  "Input tables are exactly those of input channels, output tables all the others, and the merged input table is their union, in whatever order; whether there is any input, and whether the first state has one, is reported correctly. "
  "Computing the tables leaves the machine itself unchanged.",
  ["inputs", "histories"], "all state machines of up to four states over channels of all three directions, and all sequences of additions to transition sets and aggregates up to a length",
  "One sequence of four additions is tested; the filtered tables and the aliasing between machine and tables are not.",
  ["internal/stm/stm.go", "internal/stm/transition/set.go", "internal/gen/gencommon/context.go", "internal/stm/state.go"],
  [("aggregation", "internal/stm/transition/set.go AddToAggregateSets"), ("filtering", "internal/gen/gencommon/context.go populateFilters")], observe=["template context"])
p("P20", "Identifier and topic naming follows its rules for every name",
  "Lower-underscored names of UTF-8 text are the original with every character lower-cased and one '_' inserted exactly between a lower-case letter and an upper-case letter directly following it; converting an already converted name changes nothing. "
  "Upper-casing the first letter changes nothing but the first character. "
  "Names of callbacks, conversion functions, message and value types, state entry functions and enumerators derive from these rules and so are the same wherever the same channel, state or test is mentioned.",
  ["inputs"], "all strings up to a length bound over an alphabet of lower, upper, caseless, non-ASCII and underscore characters",
  "Five fixed names are tested.",
  ["internal/strmanip/strmanip.go", "internal/gen/cpp/func.go", "internal/gen/templating/func.go"],
  [("one-character look-behind formatter", "internal/strmanip/strmanip.go formatter")],
  state=[("lastLower", "whether the previous character was lower-case", "internal/strmanip/strmanip.go")], observe=["converted names"])
p("P21", "From a trace file to programs that fail exactly on its forbidden traces",
  "For every readable trace file whose names are ordinary (C++ identifiers that differ by more than case, one direction per channel, not used by the generated programs themselves) and whose numbers fit the C++ types, the whole pipeline - rtcg.sh with the file, with the file on standard input, or the three tools one after the other - succeeds, gives the same project each time, and that project has, in each variant, exactly one test program per trace of the file, all of which compile. "
  "Whatever happens to a running program, it ends with exit status 1 and the outcome fail if and only if the events that happened are the prefix of its trace followed by the forbidden event; the outcome is pass once exactly the prefix has happened, inconclusive before, and unset if the test never started, also where it ends by time-out or off-script (status 0) or by an acknowledgement that is not due (ROS, status 2). "
  "It sends to the system under test exactly the inputs of the trace reached so far, in order, with their values.",
  ["inputs", "programs", "histories"], "trace files over all traces to a bound and all ways of writing them; for each compiled program all scripts of events to a depth and around each point of the trace",
  "The tests cover each stage on fixed samples; nothing runs the stages together or the programs that result.",
  ["rtcg.sh", "cmd/rtcg-read-traces/main.go", "cmd/rtcg-make-stms/main.go", "cmd/rtcg-gen/main.go", "internal/trace/read.go", "internal/trace/expand.go", "internal/stm/builder.go", "internal/gen/gen.go", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl"],
  [("composition of the three stages", "rtcg.sh"), ("forbidden trace to tree to machine to program", "internal/trace/expand.go")],
  state=[("verdict of the generated test", "outcome of the point of the trace reached", "internal/gen/cpp/embed/templates/base/stm.cpp.tmpl")], observe=["exit statuses, final outcomes and inputs sent by the generated programs"])
p("P22", "Results depend on the contents of the inputs, not on the invocation",
  "For equal input contents each tool gives the same result (standard output, or project up to the dates in file heads), silently and with status 0, however it is invoked: "
  "the input in a file under any name and path (only '-' and a missing argument mean standard input, and a name of which there is nothing, the empty one among them, is refused), or on standard input as a pipe, file, socket or the rest of a file, delivered in any pieces; "
  "any current directory and whatever files are in it; any environment; any way of naming the tool, the configuration and the output directory (where '..' does not follow a symbolic link in these two) and of writing the flags; any sort of standard output and error; "
  "strict limits on open files or stack, and other instances running at the same time; any user, host, process number, time and source of chance. The user's convert.cpp is taken from beside the configuration, wherever that is, or from the absolute directory that it names.",
  ["inputs", "schedules"], "all invocations that differ from a plain one in up to two (three) of eight dimensions, all two-part deliveries of a piped input",
  "Tests call functions with readers in memory; no test starts a tool.",
  ["internal/cli/cli.go", "cmd/rtcg-gen/main.go", "cmd/rtcg-make-stms/main.go", "cmd/rtcg-read-traces/main.go", "internal/serial/serial.go", "internal/gen/gen.go", "internal/gen/config/config.go", "internal/gen/subgen"],
  [("choice of input", "internal/cli/cli.go OpenFileOrStdin"), ("paths of configuration and output", "cmd/rtcg-gen/main.go")],
  state=[("working directory, environment, descriptors", "what the process is given", "cmd")], observe=["standard output, project, status, standard error"])
p("P23", "The words of the formats are read in any case, written in one, and only they",
  "Outcomes (unset, inc, fail, pass), kinds of channels (in, out, call), variants (animate, ros), types ((), enum, nat, int, real), kinds of types and number domains are each written as their one lower-case word and read from that word in any mixture of ASCII upper and lower case, as that thing whatever was there before; every other text is refused, without a crash. "
  "The same holds wherever such a word occurs in text, JSON or XML, and in the inputs of the three tools: a file with a word in another case gives the same result, a file with another word there is refused (blanks around the kind of a channel do not count). "
  "A verdict is written as an object that gives the word for each test and read back as the same verdict.",
  ["inputs"], "all ways of writing each word, all texts within two edits of one, all short strings over the letters; all verdicts over five tests",
  "Tests sample one spelling of a few words.",
  ["internal/testlang/outcome_enum.go", "internal/testlang/outcome.go", "internal/testlang/channel/kind_enum.go", "internal/gen/config/cpp/variant_enum.go", "internal/testlang/rstype", "internal/stm/verdict"],
  [("case folding lookup", "internal/testlang/outcome_enum.go ParseOutcome")], observe=["words written", "words accepted"])
p("P24", "Trees are walked in full, and traces, sets, stacks and verdicts behave as such",
  "A walk over a test tree applies its function to every node itself (not a copy) exactly once, a node before its children and children in order with all that is below them, until the function first fails, whose error it then returns; it changes nothing itself. Marking all nodes of a tree gives each exactly the given tests and leaves the rest. "
  "A trace is a prefix of another, or equal to it, exactly if event by event it is. "
  "A stack gives back what was put on it in reverse order and knows when it is empty; a set holds exactly what was added, once, lists it ordered by printed form, and survives being written and read; "
  "mapping over a map gives exactly one mapped entry per entry, or fails if and only if the function fails on one. A verdict lists its tests in order, and has for each outcome exactly the tests given it last. Channels and events made for a direction have that direction and no other, and the printed forms of values, events, traces, sets, transitions and states list all their parts, in order.",
  ["inputs", "histories"], "all tree shapes to a size with every stopping place, all pairs of traces to a length, all histories of operations to a depth, in all map orders",
  "The tests do not call the containers and walk one or two trees.",
  ["internal/testlang/walk.go", "internal/trace/trace.go", "internal/structure/stack.go", "internal/structure/set.go", "internal/structure/map.go", "internal/stm/verdict/verdict.go"],
  [("explicit stack instead of recursion", "internal/testlang/walk.go Walk")], state=[("items and count of the stack", "what has been pushed and not popped", "internal/structure/stack.go")], observe=["nodes visited, in order", "values listed"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
