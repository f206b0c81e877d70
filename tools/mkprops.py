#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the source of both)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, na=None, tech=None, note=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, na=na, tech=tech, note=note, state=state)

props = [
P("C01", "Parallel evaluation gives the same session as sequential evaluation",
  "Whatever the number of processors and however the goroutines of an evaluation are interleaved, a session prints the same results and the same error messages, line for line, leaves the same workspace and ends with the same status as on one processor. Every evaluation ends: no interleaving deadlocks, crashes the interpreter or leaves goroutines behind.",
  ["schedules", "programs", "inputs"], "every schedule of the goroutines of every parallel operation, 1 to many processors, every program of the language",
  "The tests run each expression once, on the real scheduler, and most of their data is too small to run in parallel at all; one lucky interleaving says nothing about the others, nor about which of two failing elements is reported.",
  ["value/eval.go", "value/vector.go", "value/matrix.go", "value/binary.go", "value/unary.go", "value/index.go", "value/sets.go", "exec/context.go"],
  [("splitting of a loop among goroutines", "value/eval.go pfor"), ("threshold for going parallel", "value/eval.go safeBinary, safeUnary, doInnerProduct, doOuterProduct"), ("per-goroutine copies of the context", "value/eval.go"), ("choice of the error to report", "value/eval.go pfor")],
  ["standard output", "standard error", "exit status", "saved workspace"],
  tech="deterministic simulation: seeded scheduler over the real code's goroutines, differential against the one-processor execution",
  note="Seeded search over interleavings at statement granularity with up to 8 simulated processors and both the real and the lowered parallel threshold. No exhaustiveness; memory is sequentially consistent between scheduling points."),
P("C02", "Values never change: only the assigned variable does",
  "No evaluation, successful or failing, changes the value of anything but the variables it assigns to: other variables, copies made by assignment, elements shared between vectors, constants in operator bodies and earlier results keep their values. An indexed assignment changes exactly the named elements of the named variable, and evaluating the same expression again in the same workspace gives the same result.",
  ["programs", "histories", "inputs", "schedules"], "every history of assignments, indexed assignments, operator calls and evaluations, on every kind of value and any number of processors",
  "The tests look at the value of one expression and not at what it did to everything else; sharing only shows when a later line reads a value that an earlier one damaged.",
  ["value/assign.go", "value/index.go", "value/vector.go", "value/matrix.go", "value/binary.go", "value/unary.go", "value/bigint.go", "value/bigrat.go", "value/bigfloat.go", "value/complex.go", "value/sys.go", "value/persist/slice.go", "exec/function.go", "exec/context.go"],
  [("big numbers are copied before they are changed", "value/bigint.go, value/bigrat.go, value/bigfloat.go"), ("editing a private transient copy", "value/vector.go edit, value/persist/slice.go"), ("copy of arguments and globals", "exec/context.go, value/assign.go")],
  ["the whole workspace, dumped after every line"],
  tech="deterministic simulation: workspace invariant checked after every step of seeded histories and schedules, replay of expressions",
  note="The dump after every line is compared with the one before, so a change is found when it happens. Histories are generated, not enumerated."),
P("C03", "Persistent slices: published versions are frozen, edits are exact",
  "Reading a published slice gives the elements that were appended, set or resized into it, in order, for ever, whatever is later done to slices derived from it; an edit of one version never shows in another. This holds when goroutines read the same version and each edit their own at the same time, or set disjoint elements of one version under edit.",
  ["histories", "schedules", "inputs"], "every history of operations on a family of derived slices, every size across the boundaries of the tree, every interleaving of concurrent readers and editors",
  "The existing tests check a few fixed sizes and sequences; a missed copy in the tree only shows for particular sizes, histories and interleavings.",
  ["value/persist/slice.go"],
  [("copy of a shared node before it is written", "value/persist/slice.go"), ("compare-and-swap of node pointers", "value/persist/slice.go"), ("handing over on publication", "value/persist/slice.go Persist")],
  ["every element of every live version"],
  tech="deterministic simulation: seeded histories and interleavings of the real package against a model of plain slices",
  note="The reference model is a plain Go slice per version, compared after every step and inside the concurrent tasks."),
P("C04", "Random results depend only on the seed and the draws before them",
  "After the seed is set, the sequence of random results is a function of the seed and the random draws made since, and of nothing else: not the number of processors, the interleaving, the clock, or evaluations that draw nothing. Rolls lie between the origin and the operand, numbers from rand between zero and it, and deals have no repetitions; setting the seed again repeats the sequence.",
  ["schedules", "inputs", "histories", "configurations"], "every seed, every history of draws mixed with other work, every interleaving and processor count",
  "The tests fix one seed and one order of draws on the real scheduler, with data too small for draws to happen in parallel.",
  ["value/unary.go", "value/binary.go", "config/config.go", "value/eval.go"],
  [("random source in the configuration, one lock", "config/config.go Random, SetRandomSeed"), ("draws are not made in parallel", "value/unary.go, value/eval.go")],
  ["standard output"],
  tech="deterministic simulation: seeded schedules, clocks and processor counts, differential and range checks on the history of draws",
  note="Differential over schedules, clocks and removed lines; ranges and distinctness judged by a model. Statistical quality of the generator is not judged."),
P("C05", "How input arrives does not matter",
  "A session's results depend on the characters of its input and not on how they arrive: reads that return one byte, part of a line or character, or many lines at once, CRLF line endings, and a missing newline at the very end give the same results. Each line is evaluated, and its result printed, before more input than it needs is waited for.",
  ["inputs", "fault_sequences"], "every text, every way of cutting it into reads, every length of line",
  "The tests always hand over whole files; no read ever ends inside a line or a character.",
  ["scan/scan.go", "parse/parse.go", "run/run.go", "ivy.go"],
  [("assembly of lines from reads", "scan/scan.go loadLine"), ("state carried across lines", "scan/scan.go")],
  ["standard output at every read of the standard input"],
  tech="deterministic simulation: seeded cutting of the input stream into reads, differential against whole delivery, output position at every read",
  note="The simulator decides every read of the standard input and of files and records what had been printed by then."),
P("C06", "Failing input is reported, never taken for the end of the input",
  "If reading the standard input, a file given on the command line, a file read by )get or one read by sys \"read\" fails, or it cannot be opened, the failure is reported as an error and the text that arrived before it has the effect it always has. No text that did not arrive is acted on, and an incomplete last line is not evaluated as if it were complete.",
  ["fault_sequences", "crash_points", "inputs"], "every byte at which input can fail, every kind of error, every source of input",
  "The tests never see a failing read.",
  ["scan/scan.go", "parse/special.go", "value/sys.go", "ivy.go", "run/run.go"],
  [("error of the reader passed on by the scanner", "scan/scan.go"), ("error of the file reported by )get and sys read", "parse/special.go, value/sys.go")],
  ["standard output", "standard error", "exit status"],
  tech="deterministic simulation: I/O error injected at a seeded byte or open of every input source, judged against the fault-free session",
  note="Errors injected: EIO, EINTR, EISDIR, EACCES, ENOENT, EMFILE and others at seeded offsets."),
P("C07", "A save that did not work is reported as an error",
  "If )save ends without an error, the file holds the whole workspace: exactly the text a healthy disk would hold. If the file cannot be created, a write fails or is cut short, or closing fails, the failure is reported and the session goes on with its workspace intact; an interrupted later session never changes a file it did not save to.",
  ["fault_sequences", "crash_points", "histories"], "every file operation of a save at which the disk can fail or the process be killed, every size of workspace",
  "The tests save only to a healthy disk.",
  ["parse/save.go"],
  [("flush and close checked", "parse/save.go save")],
  ["the file after the save", "standard error"],
  tech="deterministic simulation: faults (no space, short writes, failing close, kill) injected at seeded file operations, file content against the fault-free one",
  note="Durability across power loss (fsync) is not promised by ivy and not judged."),
P("C08", "A saved workspace reads back the same",
  "Reading a file written by )save into a fresh interpreter restores every global variable, every user-defined operator and the saved settings (precision, limits on bits and digits, origin, prompt, format and bases): every expression over them gives the same result as before, and saving again writes the same text. This holds whatever the settings, history and names were when it was saved, and whatever the settings of the interpreter that reads it, and saving itself changes nothing and, unless the file system fails, succeeds.",
  ["programs", "histories", "configurations"], "every workspace that can be built, every configuration at saving and at reading",
  "The tests compare the saved text of a few fixed workspaces with a fixed text; nothing reads it back.",
  ["parse/save.go", "parse/function.go", "parse/special.go", "value/expr.go", "exec/function.go"],
  [("printing of values and bodies as source text", "parse/save.go put, value expression ProgString"), ("order of definitions and forward declarations", "parse/save.go saveTo"), ("base 10 while saving and reading", "parse/save.go, parse/special.go")],
  ["values of all variables", "results of calling all operators", "the second save"],
  tech="deterministic simulation: save, end or kill, restart in a second simulated process with other settings, clock and map order; state comparison",
  note="Floating-point values are compared to within the precision they are printed with: ivy saves them as decimal text."),
P("C09", "An erroneous line is an error message and nothing more",
  "No line of input crashes the interpreter or ends the session: an error is reported and the next line is read. A line that fails leaves no trace beyond what its completed assignments did: later lines give the same results as in a session in which those assignments were made and the failing line was never typed.",
  ["inputs", "programs", "fault_sequences", "schedules"], "every failing line, at every point of scanning, parsing, definition and evaluation, sequential or parallel, and every file error",
  "The tests check the message of one failing line at a time, in a fresh interpreter, and stop there.",
  ["run/run.go", "parse/parse.go", "parse/function.go", "parse/special.go", "exec/context.go", "value/eval.go", "scan/scan.go"],
  [("recovery from panics at the top", "run/run.go Run"), ("stack popped and tokens dropped after an error", "exec/context.go, parse/parse.go"), ("restoring definitions after a failed one", "parse/function.go")],
  ["standard output and error of later lines", "the workspace"],
  tech="deterministic simulation: failing lines, file faults and schedules injected into seeded sessions; differential against the session without them",
  note="Memory exhaustion by a single huge value is outside (with the default limits). Crashes and deadlocks are violations wherever they occur."),
P("C10", "No data races",
  "Goroutines of one interpreter never access the same memory at the same time, one of them writing, without synchronisation: parallel evaluation, the demo and the persistent slices used as they are documented are free of data races.",
  ["schedules", "programs"], "every interleaving of every parallel operation, of the demo and its interpreter, and of concurrent users of slices",
  "The tests are not run with the race detector, and most of them start no goroutine.",
  ["value/eval.go", "value/persist/slice.go", "value/value.go", "demo/demo.go", "config/config.go", "value/unary.go"],
  [("disjoint parts of the result for every goroutine", "value/eval.go pfor"), ("atomic node pointers", "value/persist/slice.go"), ("lock around random draws", "value/unary.go")],
  ["reports of the race detector under simulated schedules"],
  tech="deterministic simulation under the race detector: seeded schedules, happens-before edges from the program's own synchronisation only",
  note="The simulator's own switches create no happens-before edges, so a race is found when the accesses are unordered even if the schedule never makes them collide. Operator tracing at level 2 is left out."),
P("C11", "The demo shows each result in step and leaves the session alone",
  "In the demo, a blank line shows the next line of the script and its result, and any other line is evaluated instead, each result or error being shown before the next line is read, exactly as a fresh interpreter would show it, in any interleaving of the demo and its interpreter. The demo ends at quit, at the end of its script or when the input ends or fails, always, leaving nothing running; the session that started it goes on unchanged.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of the two interpreters, every sequence of blank and other lines, every place to end",
  "No test runs the demo: it is interactive, and its two goroutines and pipes need a user.",
  ["demo/demo.go", "parse/special.go", "run/run.go", "demo/demo.ivy"],
  [("pipe to an interpreter in a goroutine", "demo/demo.go Run"), ("waiting for a line's result", "demo/demo.go"), ("private context", "demo/demo.go")],
  ["standard output and error at every read of the standard input", "goroutines left at the end"],
  tech="deterministic simulation: both interpreters as tasks under seeded schedules, input scripts and read faults; judged against a fresh interpreter",
  note="The input is delivered line by line, as a terminal does."),
P("C12", "Times are what the clock and the time zone say",
  "The time in seconds, as a vector and as text, the date and the time zone offset that are shown are those of a reading of the clock made while the line was evaluated, in the time zone in force then (including daylight saving time). Converting a given time to a vector, to text and back is exact to the nanosecond, for any date before or after 1970 and any zone, and does not depend on the present; the time taken by an evaluation is never affected by the clock being set.",
  ["inputs", "configurations", "fault_sequences"], "every date and fraction of a second, every time zone, every jump of the clock between readings",
  "The tests convert a handful of fixed times, in the zone and at the time of the test run; a jump, a transition or a date before 1970 never occurs.",
  ["value/sys.go", "config/config.go", "value/format.go", "run/run.go", "run/time_unix.go", "parse/special.go"],
  [("conversion between seconds and time vectors", "value/sys.go secNsec, decodeTime, timeVec"), ("zone in force at a time", "config/config.go LocationAt"), ("monotonic measurement", "run/run.go")],
  ["standard output", "readings handed out by the simulated clock"],
  tech="deterministic simulation: simulated clock with seeded dates, zones, ticks and jumps; answers judged against the readings handed out and the zone database",
  note="The oracle is Go's time package with its embedded zone database. Within a day of a transition, local vectors without an offset are not judged."),
P("C13", "Output and saved files depend on the input alone",
  "The same input in the same configuration gives byte for byte the same output, errors and saved files, in every process and on every run. Listings show exactly the operators and variables that are defined, in sorted order, each setting as it was last made, and a variable or operator asked for by name as it is saved.",
  ["schedules", "histories", "configurations"], "every order in which maps can be iterated and goroutines can run, every history of definitions and deletions",
  "A test run sees one iteration order per map, and most tests have one variable.",
  ["parse/special.go", "parse/save.go", "exec/context.go"],
  [("names sorted before printing", "parse/special.go, parse/save.go"), ("definitions kept in order", "exec/context.go Define")],
  ["standard output", "standard error", "saved files"],
  tech="deterministic simulation: seeded map iteration order, clock and schedule; repeated executions compared byte for byte and listings with a model",
  note="Map iteration is a seam: the instrumented code iterates in a seeded order."),
P("C14", "Running a file with )get does what typing its text would do",
  "Getting a file, or files that get one another, has the effect on the workspace and the settings, and gives the results, that typing its text would, except that its numbers are read in the default base and the bases in force before it stay in force unless it sets them. An error in the file is reported and the rest of it is not run; files that get each other without end are an error, and no sequence of gets uses up file descriptors or counts against later ones.",
  ["histories", "inputs", "fault_sequences", "configurations"], "every text, every splitting of it into files, every nesting, short reads and limits on open files",
  "The tests get one file once; resources that leak only show after many.",
  ["parse/special.go", "ivy.go", "run/run.go"],
  [("nesting count", "parse/special.go runFromFile"), ("closing of files", "parse/special.go"), ("base saved and restored", "parse/special.go")],
  ["standard output and error", "the workspace", "open files"],
  tech="deterministic simulation: simulated file system with short reads, descriptor limits and faults; differential against typing the text",
  note="The comparison is per line of the file; the trailing settings are compared as listed by the commands that show them."),
P("C15", "The command line runs the given texts in order and reports failure",
  "The -f file, then the -i text, then the -e text or the files named or else the standard input are run in that order, as one text with the settings given by flags made at its start, and the standard input is not read when -e or files are given. The first error ends the run with status 1 and a message naming the text and line, and so does a file that cannot be opened or read; a bad flag or setting is status 2 before anything is run, and success is status 0.",
  ["inputs", "configurations", "fault_sequences"], "every combination of flags, texts and files, every error and I/O fault in any of them",
  "The tests call the packages and never the command.",
  ["ivy.go", "run/run.go", "config/config.go"],
  [("order of execution and exit status", "ivy.go main, runFile, runString"), ("settings from flags", "ivy.go main")],
  ["standard output", "standard error", "exit status", "reads of the standard input"],
  tech="deterministic simulation: the whole command with simulated arguments, files and streams, open and read faults; judged against one run of the concatenated text",
  note="-profile is not exercised."),
P("C16", "The mobile interface is stateless after a reset and matches the command",
  "After a reset or the start of a demo, evaluation gives what a freshly started process would give, whatever was evaluated, defined, set or failed before. Each evaluation returns exactly its own output, escaped for display, and its own errors, as typing the text at the command would give; stepping a demo evaluates its lines in order and then reports the end, every time it is asked.",
  ["histories", "programs", "schedules"], "every sequence of evaluations, resets and demo steps, every setting and definition before a reset",
  "The tests reset and evaluate one expression at a time.",
  ["mobile/mobile.go", "config/config.go", "exec/context.go", "run/run.go"],
  [("replacement of configuration and context", "mobile/mobile.go Reset"), ("escaping", "mobile/mobile.go escaper"), ("output buffers per evaluation", "mobile/mobile.go Eval, run/run.go Ivy")],
  ["results and errors of the calls"],
  tech="deterministic simulation: seeded call histories and schedules; every stretch replayed in a fresh simulated process and at the simulated command",
  note="Calls are made one at a time, as the package requires."),
P("C17", "Integer and rational arithmetic is exact",
  "Arithmetic on integers and rationals is exact at any size, and results are shown in their simplest form.",
  ["inputs"], "every pair of operands", "Tests sample a few operands.",
  ["value/int.go", "value/bigint.go", "value/bigrat.go", "value/binary.go"], [("promotion and shrinking", "value/binary.go, value/bigint.go shrink")], ["standard output"],
  na="A pure function of its operands: no schedule, clock, I/O or history for a simulator to control. (That it is the same under every schedule, and does not change its operands, is C01 and C02.)"),
P("C18", "Every expression has the documented parse",
  "Expressions are evaluated right to left with no precedence, and an operator takes as its operands what the manual says.",
  ["programs"], "every expression", "Tests sample a few expressions.",
  ["parse/parse.go", "scan/scan.go"], [("recursive descent", "parse/parse.go")], ["standard output"],
  na="A pure function of the text and the defined names; simulation has nothing to schedule or to fail."),
P("C19", "Transcendental functions are accurate to the set precision",
  "Results of floating-point functions are correct to the configured precision.",
  ["inputs", "configurations"], "every argument and precision", "Tests sample a few arguments.",
  ["value/sin.go", "value/log.go", "value/sqrt.go", "value/power.go", "value/const.go"], [("series and Newton iterations", "value/loop.go")], ["standard output"],
  na="A numerical question about pure functions; no nondeterminism or environment is involved."),
P("C20", "Numbers print as the output base, format and digit limit say",
  "The printed form of a number is determined by the output base, format and digit settings as documented and reads back as the same number where the format permits.",
  ["inputs", "configurations"], "every number and setting", "Tests sample a few.",
  ["value/format.go", "value/int.go", "value/bigint.go", "value/bigrat.go", "value/bigfloat.go"], [("formatting", "value/format.go")], ["standard output"],
  na="A pure function of value and settings; no schedule, time, I/O or crash to simulate. (Reading back what )save prints is C08.)"),
]

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a), ensure_ascii=False) + "\n")

m = dict(version=1,
  setup_cmd="bash setup.sh",
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough", technique=p["tech"], level="exploration", level_note=p["note"]) for p in props if not p["na"]],
  not_applicable=[dict(property=p["id"], reason=p["na"]) for p in props if p["na"]],
  notes="No hooks in /repo: the checks instrument a scratch copy of its working tree (sim/cmd/instr) that routes goroutines, channels, locks, atomics, clocks, files, streams, map iteration and randomness to the simulator (sim/_rt). A replay file is run again with 'bash check.sh replay FILE'.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
