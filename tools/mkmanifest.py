#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DF, FN, DS, FU, XC = ("pyconform/dataflow.py", "pyconform/flownodes.py", "pyconform/datasets.py",
                      "pyconform/functions.py", "pyconform/cli/xconform.py")
PA, IX, PR, MD = "pyconform/physarray.py", "pyconform/indexing.py", "pyconform/parsing.py", "pyconform/mapdates.py"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", level="exploration",
      na=None, technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, state=state, observe=observe, note=note, level=level, na=na,
                      technique=technique))


P("C01", "Chunking never changes the results",
  "For every standardization and input data set, every accepted choice of chunked dimensions and chunk sizes "
  "produces output files whose dimensions, values, missing data and attributes (apart from the creation date) are "
  "the same as those of the run without chunking.",
  ["inputs", "configurations", "schedules"],
  "All generated problems (expressions, reversed and positive coordinates, bounds, limits, missing data, renamed and "
  "transposed dimensions), all chunkings of up to every chunkable dimension with sizes 1, 2, 3, n-1, n, n+1.",
  "The tests chunk one fixed 3-variable problem over x, y and (t, y) with one size each; an error in the reversal of a "
  "chunk, a remainder chunk, a size larger than the dimension or state kept between chunks depends on the combination.",
  [DF, FN, IX],
  [("chunk iteration and reversed chunks", FN + " WriteNode._chunk_iter_, _invert_dims_"),
   ("index of a chunk in the input", FN + " ReadNode.__getitem__, MapNode.__getitem__"),
   ("joined indices", IX)],
  [("chunks", "dimension name -> chunk size of one execution")], ["output files"],
  "differential: each chunking is compared with the unchunked run of one rank in the same simulator")

P("C02", "A parallel run gives the results of a serial run",
  "For every number of processes and every scheduling of their messages and file operations, the set of published "
  "files and their contents are those of a serial run; every file is published exactly once and is written by "
  "exactly one process.",
  ["schedules", "inputs", "configurations"],
  "2-6 ranks, 2-6 files, rendezvous and eager sends, five scheduling policies, any assignment of files to ranks.",
  "The tests only run serially (there is no MPI in them); no schedule at all is sampled.",
  [DF, FN, XC],
  [("distribution of the files over the ranks", DF + " DataFlow.execute (weight-balanced or equal partition)"),
   ("one communicator for the job", XC + " main")],
  [("file sizes", "weights by which the files are distributed")], ["published files", "who opened what for writing"],
  "differential against a serial run; conservation (exactly-once publication) from the recorded history")

P("C03", "Every written value is the value of its definition",
  "Each variable in an output file holds, converted to its declared units, data type and dimension order, the value "
  "that its definition denotes when evaluated over the whole input data with ordinary arithmetic, unit algebra and "
  "matching of dimensions by name; this includes the built-in functions, indexing and literal data.",
  ["inputs", "programs", "schedules"],
  "Random well-typed definitions (depth up to 3) over variables of different units, types, dimension orders and "
  "storage, evaluated under random ranks, chunks and schedules.",
  "The tests check each operation on a few fixed arrays; combinations of unit conversion, transposition, direction, "
  "masking, packing and integer input are unbounded.",
  [PR, DF, FN, FU, PA, IX],
  [("construction of the data flow from the parsed definition", DF + " _construct_flow_"),
   ("units and dimension matching", PA), ("functions and operators", FU),
   ("dimension renaming", DF + " _compute_dimension_maps_, " + FN + " MapNode"),
   ("final unit, dimension and type conversion", FN + " ValidateNode")],
  [], ["values in the output files"],
  "refinement against an independent executable reference model (dst/model.py), tolerance of the data type")

P("C04", "A crash never leaves a partial file under its final name",
  "At every moment of every run, including when any process dies at any point, every final output name is either "
  "absent, the unchanged previous file, or a complete and correct new file.",
  ["crash_points", "schedules", "fault_sequences"],
  "Process death before/after/within (torn) any storage operation, at any file-system call and at any scheduling "
  "point of any rank; previous files absent, valid, empty or garbage.",
  "The tests never kill a run; the number of crash points is the number of storage operations.",
  [FN], [("temporary name, then rename", FN + " WriteNode._open_, _close_, _execute_"),
         ("removal of incomplete temporary files", FN + " WriteNode._discard_")],
  [("temporary file", "where a file is written before it is renamed")],
  ["every state of a final name seen at any scheduling point, and after the job"],
  "safety over sampled crash points; process death only (page cache survives), no power loss")

P("C05", "No storage error is swallowed",
  "When any read, write, open, close, directory or rename operation fails, the run either still delivers complete and "
  "correct output files, or ends with an error in at least one process; it never reports success without them, "
  "never publishes damaged data and never waits forever. Short reads and writes, and a directory that someone else "
  "creates at the same time, are survived.",
  ["fault_sequences", "schedules", "inputs"],
  "Transient, permanent and short (partial) failures of the n-th operation of every class: EIO, ENOSPC, EDQUOT, EMFILE, "
  "EACCES, ENOENT, memory errors; races in creating directories.",
  "The tests run on a healthy disk only.",
  [FN, DF, DS, XC],
  [("flush and close before publication", FN + " WriteNode._close_"),
   ("error discards the temporary file", FN + " WriteNode.execute, _discard_"),
   ("directory creation tolerates a race", FN + " WriteNode._open_"),
   ("errors leave the process with an exception", XC)],
  [], ["exit of every rank", "final names"],
  "sampled single errors per run at libc and library level; HDF5 itself may die of a failing close (accepted as loud)")

P("C06", "Running again after a failure gives the right result",
  "After any sequence of crashed or failed runs, one undisturbed run of the same job in the same place succeeds and "
  "produces exactly the files that an undisturbed run in a clean place produces.",
  ["histories", "crash_points", "fault_sequences"],
  "1-3 consecutive failing runs (crash at any point or storage error, any number of ranks), then a clean one.",
  "No test runs a job twice, let alone over the remains of a crashed one.",
  [FN], [("left-over temporary files are replaced", FN + " WriteNode._open_"),
         ("existing outputs are replaced by the rename", FN + " WriteNode._close_")],
  [], ["files after the last run"],
  "histories of failing runs are sampled; each run's own death is atomic as in C04")

P("C07", "Nothing but the outputs is touched",
  "A run never changes or removes its inputs, its standardization file or any other file that is not one of its "
  "outputs, and, when it succeeds, leaves no files or directories behind other than its outputs and their parent "
  "directories; a failed run leaves remains only inside the directories of its outputs.",
  ["inputs", "fault_sequences", "crash_points"],
  "Output directories that also hold files of others, with similar, hidden and temporary-looking names; with and "
  "without crashes and storage errors.",
  "The tests look only at the files they expect.",
  [FN, DF, DS], [("temporary files next to the output", FN + " WriteNode._open_"),
                 ("inputs opened read-only", FN + " ReadNode, " + DS + " InputDatasetDesc")],
  [], ["complete directory tree before and after"],
  "complete comparison of the directory tree by content")

P("C08", "Every run ends, for every number of processes",
  "For every number of processes, from one to more than there are files, and every scheduling of their messages, a "
  "valid job finishes in all processes with no message left over, and an invalid job is reported as an error by the "
  "processes rather than leaving some of them waiting forever.",
  ["schedules", "configurations", "inputs"],
  "1-9 ranks, 1-5 files, synchronous and buffered sends; valid jobs, jobs without files, without inputs, with nothing "
  "computable, with unknown chunks, inconsistent or unreadable descriptions.",
  "The tests have one process and no messages.",
  [DF, XC], [("collective construction of the data flow", XC + " main"),
             ("distribution of files", DF + " DataFlow.execute"),
             ("asaptools SimpleComm", "asaptools (real code under the simulated MPI)")],
  [], ["state of every rank", "messages in flight"],
  "bounded liveness: deadlock is detected exactly, livelock by a step bound")

P("C09", "Missing data stay missing and nothing else becomes missing",
  "A written value is marked missing exactly where its definition has missing input among its operands (means and sums "
  "over dimensions are over the present values), where the definition itself masks it, or where it violates the "
  "declared limits; a value that is present is never written as, or equal to, the fill value.",
  ["inputs", "programs"],
  "Random masks (none, some, whole rows, all), declared, undeclared and unusual fill values, both types of markers, "
  "through arithmetic, reductions, conversion, direction changes and chunking.",
  "The tests use few masked arrays, and never masked data through an expression, chunk and fill value at once.",
  [FN, FU, PA], [("masked reads", FN + " ReadNode.__getitem__"), ("masked arithmetic", PA),
                 ("fill value of the output", FN + " ValidateNode, WriteNode._open_")],
  [], ["positions a conforming reader treats as missing"],
  "refinement against the reference model (mask component)")

P("C10", "Reversed coordinates carry all of their data with them",
  "When a coordinate is declared to increase or decrease, it is written in that direction and every variable of the "
  "file that has its dimension (including bounds and auxiliary variables) is written in the same order, so that every "
  "value still belongs to the coordinate value that it had in the input.",
  ["inputs", "configurations"],
  "Monotonic input coordinates in either order, declared either way or not at all, several per file, with bounds, "
  "under every chunking.",
  "The tests reverse one coordinate in one unchunked problem.",
  [FN], [("direction detection", FN + " WriteNode._direction_"),
         ("reversal of chunks", FN + " WriteNode._invert_dims_, _execute_")],
  [], ["coordinates, bounds and fields in the output files"],
  "refinement against the reference model")

P("C11", "The positive direction of a variable determines its sign",
  "A variable whose data are positive in one vertical direction and that is declared positive in the other is written "
  "with the opposite sign, and unchanged when the directions agree or one is unspecified; combining data of opposite "
  "directions in sums and differences brings them to one direction first, and unit conversion, reordering and "
  "chunking keep the direction.",
  ["inputs", "programs"],
  "Random positive attributes on inputs and outputs, up()/down() in definitions, products with unspecified factors, "
  "unit conversion and transposition.",
  "The tests check single operations, not their combination with conversion and transposition.",
  [PA, FN, FU], [("sign and direction algebra", PA), ("final direction", FN + " ValidateNode"),
                 ("up and down", FU)],
  [], ["values in the output files"],
  "refinement against the reference model (sign component)")

P("C12", "Declared limits are enforced and never silently violated",
  "Values outside of the declared valid minimum or maximum are reported and written as missing, independently of "
  "chunking and of the number of processes, and values at or inside the limits are written unchanged and without a "
  "report; a mean magnitude outside of its declared limits is reported in a job that is not chunked; when the user "
  "asks for errors, a job with a violation fails and the violating file is not published.",
  ["inputs", "configurations", "schedules"],
  "Limits at, just inside and just outside of the extremes of the data, limits of zero, either or both limits, with "
  "missing data, reversed coordinates, any chunking and ranks.",
  "The tests use one violation of each limit in one array without chunking.",
  [FN], [("limits of each chunk", FN + " ValidateNode.__getitem__"),
         ("warnings as errors", XC + " main (-e)")],
  [], ["warnings of each rank", "published files"],
  "refinement against the reference model, plus the reported warnings")

P("C13", "Chunking that would change the results is refused",
  "A request to chunk a dimension that a definition combines (a mean, sum, minimum or maximum over it), a dimension "
  "that does not exist, or with a size below one is rejected with an error in all processes before anything is "
  "written; debug mode instead ignores chunking of combined dimensions and gives the unchunked results.",
  ["configurations", "programs", "schedules"],
  "Definitions with reductions at any depth, under renamed and mapped dimensions, mixed with legal chunks.",
  "The tests have no reduction in a chunked data flow.",
  [DF, FN], [("combined dimensions of a definition", FN + " EvalNode.sumlike_dimensions, " + DF
              + " _find_sumlike_dimensions_"), ("checks before writing", DF + " DataFlow.execute")],
  [], ["exit of every rank", "directory tree"],
  "every refused request is checked for side effects on the whole directory tree")

P("C14", "Outputs do not influence each other",
  "What is written for one output variable is the same whatever other output variables the standardization contains "
  "and in whatever order it lists them.",
  ["inputs", "configurations"],
  "Problems with 2-5 outputs that share inputs, coordinates and literal data; random subsets and orders.",
  "The tests always produce the same fixed set of outputs.",
  [DF, FN, FU], [("shared input and data nodes", DF + " _construct_flow_"),
                 ("functions do not modify their arguments", FU + ", " + PA)],
  [], ["output files of subsets"],
  "differential between the complete job and random subsets of it")

P("C15", "The creation date is the time of creation; results do not depend on clocks",
  "The creation date in each file is the UTC time at which it was created, whatever the time zone, clock steps and "
  "clock differences between processes, and nothing else in the files depends on the time of the run.",
  ["schedules", "fault_sequences", "configurations"],
  "Clock offsets per rank, jumps forward and backward during the run, time zones from -12 to +14 hours, instants at "
  "day and year ends.",
  "The tests cannot move the clock.",
  [FN], [("creation date", FN + " WriteNode._open_")], [], ["creation_date", "all other content"],
  "clock readings of every rank are recorded by the simulated clock and compared with the attribute")

P("C16", "Dated file names state the period that the file covers",
  "When a file name asks for dates, the name is formed from the first and last time of the file in the calendar and "
  "units of its time coordinate, independent of chunking and processes, and the file with that name holds exactly "
  "those data; a name whose dates are not known (the file has no time) stays as it is, and a warning says so; if two "
  "outputs would be the same file, however its name is spelled, the job fails instead of losing one of them.",
  ["inputs", "configurations", "schedules"],
  "Calendars noleap, 360_day, gregorian; units of days, hours, minutes, seconds; formats from %Y to seconds, at the end "
  "of months and years, in both time directions.",
  "The tests use one calendar and format.",
  [FN, DF], [("dates in file names", FN + " WriteNode._autoparse_filename_"),
             ("name collisions", DF + " _create_write_nodes_")],
  [], ["names and contents of published files"],
  "refinement against an independent calendar implementation")

P("C17", "A data flow can be executed again",
  "Executing the same data flow again in one process, with other options or after an execution that failed because of "
  "a storage error, succeeds and writes what a fresh process would write, never changes its arguments and leaves no "
  "file open.",
  ["histories", "fault_sequences", "configurations"],
  "2-3 executions with different chunkings, history and compression, with an injected error in the first ones.",
  "The tests execute each data flow once.",
  [DF, FN], [("state of file writers", FN + " WriteNode._close_, _discard_"), ("arguments", DF + " execute")],
  [], ["files after the last execution"],
  "differential against a fresh process")

P("C18", "Output files have exactly the declared structure",
  "Every published file has exactly the dimensions, variables, data types, attributes, fill values, format and "
  "compression that the standardization declares for it and the options ask for, plus the documented additions (the "
  "creation date and, on request, the history).",
  ["inputs", "configurations"],
  "All formats, types including character data, unlimited dimensions, bounds, auxiliary variables, file and variable "
  "attributes, deflate levels from the file or the command line, history on and off, chunkings and ranks.",
  "The tests compare the header of two fixed files.",
  [FN, DS], [("header", FN + " WriteNode._open_"), ("description of the outputs", DS + " OutputDatasetDesc"),
             ("attributes", FN + " ValidateNode.attributes")],
  [], ["header of the output files"],
  "refinement against the declared specification")

P("C19", "Input files are put into sequential order and gaps are reported",
  "The ordering of a set of time-slice files returns every file exactly once, in the order of their times and with "
  "their step counts, whatever the order in which the files are listed; it reports an error if and only if steps are "
  "missing, repeated or overlapping within or between the files.",
  ["inputs", "schedules", "fault_sequences"],
  "Hourly to yearly files in several calendars, units and formats, with and without bounds; gaps, repeats, overlaps; "
  "any listing order; read errors.",
  "The tests use a few daily to yearly sequences from one starting date in one calendar, listed in one order.",
  [MD], [("ordering by average time", MD + " get_files_in_order"),
         ("alignment between and inside files", MD + " __check_date_alignment__")],
  [], ["returned order, counts and error"],
  "the simulator owns the directory order and read faults; expected order and gaps are known by construction")

P("C20", "An output whose inputs are missing is skipped alone and with a warning",
  "When the definition of an output needs an input variable that no input file has, that output is not written, its "
  "previous file (if any) is kept, a warning names it in every process, and all other outputs are written exactly as "
  "if it had not been requested.",
  ["inputs", "configurations", "schedules"],
  "1-n outputs made incomputable, as plain references or deep in expressions; any ranks, chunks, schedules.",
  "The tests have no missing variable in a complete data flow with other outputs and several processes.",
  [DF], [("skipping", DF + " _create_definition_nodes_")], [], ["files, warnings"],
  "differential against the job without the skipped outputs")

P("C21", "Results do not depend on the environment",
  "Repeating a job with the same inputs gives the same files, regardless of hash seeds, the order in which the file "
  "system lists the input files, the scheduling of the processes and the clock.",
  ["schedules", "configurations"],
  "Every problem is run under eight hash seeds, directory orders, schedules and clocks at once.",
  "A test run has one environment.",
  [DS, DF, FN], [("input descriptions collected over files", DS + " InputDatasetDesc"),
                 ("sets of dimensions and nodes", DF + ", " + FN)],
  [], ["canonical content of all output files"],
  "eight lanes with different PYTHONHASHSEED are compared case by case")

P("C22", "The reported dependencies are exactly the inputs that are needed",
  "For every output variable with a definition in a standardization or a definitions file, the dependency tool reports "
  "exactly the variables that the definition refers to, and their union as the complete list: a conversion from inputs "
  "that hold only those gives the same files, and without one of them exactly the outputs that are reported to depend "
  "on it are not made. A storage error while the definitions are read never shortens the report.",
  ["inputs", "programs", "fault_sequences"],
  "Problems with 1-4 outputs, definitions at any depth with functions and keyword arguments, complete or selected "
  "reports, JSON or text definitions, with and without declared frequencies and realms; one removed input per problem.",
  "The tests do not run the dependency tool at all.",
  ["pyconform/cli/vardeps.py", DF, PR], [("search of a parsed definition", "pyconform/cli/vardeps.py variable_search"),
                                         ("report", "pyconform/cli/vardeps.py main"),
                                         ("what a conversion reads", DF + " _construct_flow_")],
  [], ["printed report", "files made from reduced inputs"],
  "differential against the complete inputs, and refinement of the report against the generated expressions")

P("C23", "An impossible request is refused as a whole",
  "A request that cannot be carried out - a missing or malformed standardization, an invalid data type, format, deflate "
  "level or metadata reference, two outputs that are the same file, an output that is one of the input files, a definition that cannot be parsed or evaluated, dimensions that "
  "cannot be matched, contradictory or unreadable input files, invalid chunks or options, a missing or broken user module "
  "- makes the whole job fail, on every process and without waiting for ever, before any file or directory is created or "
  "changed. A mistake that shows only in the data (units that cannot be converted, values that the declared type cannot "
  "hold) makes the job fail and never publishes the output that has it. Without input files a valid standardization is "
  "accepted and nothing is written.",
  ["inputs", "configurations", "schedules"],
  "49 kinds of mistakes put at random places into problems that are otherwise correct, 1-5 processes, any schedule, "
  "any delay between the failure of one process and the end of the others, previous outputs in place.",
  "The tests check single constructors with one wrong argument; none of them looks at what a refused job leaves behind, "
  "or at the other processes.",
  [DS, DF, "pyconform/cli/xconform.py", PR],
  [("checks of the standardization", DS + " OutputDatasetDesc"), ("checks of the inputs", DS + " DatasetDesc"),
   ("checks of the data flow", DF + " __init__, execute"), ("command line", "pyconform/cli/xconform.py")],
  [], ["end of every process", "directory tree before and after"],
  "known-by-construction mistakes; directory tree and end of every process are the oracle")

P("C24", "Jobs that run at the same time do not disturb each other",
  "Two or more conversions that run at the same time, in the same directories and from the same inputs, but with "
  "different output files, each write what they would write alone, whichever of them starts first, fails or is killed.",
  ["schedules", "fault_sequences", "configurations"],
  "The outputs of one problem are shared out over 2-3 jobs of 1-3 processes each; starting times, interleavings, one "
  "job killed at any step or failing with a storage error.",
  "No test runs two conversions at once.",
  [FN, DF], [("temporary files", FN + " WriteNode._open_, _discard_"), ("creation of directories", FN + " WriteNode._open_")],
  [], ["output files of each job", "every state of every output name"],
  "differential against each job alone")

NA = []


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, na=reason)


N("N01", "The definition grammar is parsed faithfully",
  "Every text of the definition language is parsed to the expression that its operators, precedence, associativity, "
  "function calls, indices and literals denote, and every other text is rejected.",
  ["programs", "inputs"], "All texts of the grammar.", "The tests parse some thirty fixed texts.",
  [PR], [("lexer and grammar", PR)],
  "A pure function of one text: no schedule, clock, I/O or fault can influence it. (Definitions that the simulated "
  "runs use are parsed by the real parser, so part of it is exercised by C03.)")
N("N02", "Joined array indices equal successive indexing",
  "Indexing with the join of two index expressions selects the same elements as indexing with one after the other.",
  ["inputs"], "All shapes and index pairs.", "The tests enumerate small one-dimensional cases.",
  [IX], [("join", IX)],
  "A pure function without nondeterminism; property-based testing is the fitting technique. (Its effect on chunked "
  "reads is covered by C01 and C03.)")
N("N03", "Units, dimensions and directions form a consistent algebra on arrays",
  "Arithmetic on labelled arrays is commutative, associative and distributive up to rounding, and converting units or "
  "reordering dimensions before or after an operation gives the same result.",
  ["inputs"], "All labelled arrays.", "The tests use fixed operand pairs.",
  [PA], [("labelled arrays", PA)],
  "A pure in-memory algebra without nondeterminism. (Its use in whole runs is covered by C03, C09 and C11.)")
N("N04", "MIP tables are read completely",
  "Every variable, axis and experiment of a MIP table appears with its attributes in the parsed result.",
  ["inputs"], "All MIP tables of the supported types.", "The tests read a few tables.",
  ["pyconform/miptableparser.py"], [("table parsers", "pyconform/miptableparser.py")],
  "A pure transformation of one file into a dictionary; the tables and the dreqPy package that most of it needs are not "
  "available offline, and nothing in it depends on schedules, time or faults.")
N("N05", "The diagnostic modules compute what they document",
  "The functions of the optional diagnostic modules give the documented diagnostics for all valid input fields.",
  ["inputs"], "All valid input fields.", "The tests do not reach them.",
  ["pyconform/modules/commonfunctions.py", "pyconform/modules/pnglfunctions.py"],
  [("user functions", "pyconform/modules")],
  "Pure numerical functions, most of which need PyNGL, which is not installed; deterministic simulation adds nothing "
  "to a direct numerical comparison. (The loading of user modules is exercised by C03.)")

TECH = "deterministic simulation of the whole job with seeded schedules and faults; "
TECHS = {
    "C01": "differential oracle over chunkings", "C02": "serial/parallel differential and exactly-once history check",
    "C03": "refinement of a reference model", "C04": "crash injection, invariant on every visible state",
    "C05": "storage-error injection, invariant on outcome", "C06": "crash/error histories, differential oracle",
    "C07": "directory-tree conservation under faults", "C08": "bounded progress over message schedules",
    "C09": "refinement of a reference model", "C10": "refinement of a reference model",
    "C11": "refinement of a reference model", "C12": "refinement of a reference model and warning history",
    "C13": "refusal and no-side-effect invariant", "C14": "differential oracle over subsets",
    "C15": "virtual clock with skew and jumps", "C16": "refinement of a calendar model",
    "C17": "histories of executions with injected errors", "C18": "refinement of the declared structure",
    "C19": "seeded directory orders and read faults, known-by-construction oracle",
    "C20": "differential oracle over skipped outputs", "C21": "eight environments compared case by case",
    "C22": "differential oracle over reduced inputs, read faults",
    "C23": "known mistakes, no-side-effect invariant and bounded end on every process",
    "C24": "several simulated jobs at once, killed or failing, differential oracle"}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": w, "where": DF} for n, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            a["hook_needed"] = None
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "./check --build",
         "hooks": {"guard": "PYCONFORM_DST", "enable": "no hook in /repo is needed: every seam (MPI, clocks, file "
                   "system, netCDF4, randomness, libc storage calls) is taken from outside by the simulator",
                   "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in PROPS:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        m["checks"].append({
            "property": p["id"], "quick_cmd": "./check %s" % p["id"],
            "thorough_cmd": "./check %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": TECH + TECHS[p["id"]], "level": p["level"],
            "level_note": "Seeded sampling, not proof: " + p["note"] + ". Trusts the simulator (dst/world.py), the "
            "oracle (dst/model.py, dst/scenario.py), netCDF4/HDF5 and numpy."})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
