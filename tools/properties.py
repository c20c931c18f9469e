"""writes properties.jsonl"""
import json, os

M = "src/climate_indices/__main__.py"
S = "src/climate_indices/__spi__.py"
C = "src/climate_indices/compute.py"
I = "src/climate_indices/indices.py"
E = "src/climate_indices/eto.py"
U = "src/climate_indices/utils.py"
L = "src/climate_indices/lmoments.py"
P = "src/climate_indices/palmer.py"

TESTS = (
    "The existing tests call single numeric functions with one fixture each; neither command line program, "
    "no worker process and no file written by the package is exercised at all"
)


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = [
    dict(
        id="C01",
        title="Indices computed in parallel are those of each location on its own",
        statement=(
            "When the main program has computed SPI, SPEI, PNP or PET for a NetCDF file, the value written for each "
            "grid cell, climate division or timeseries is exactly what the library's function returns for the values "
            "of that location alone, converted to standard units, at its own coordinates and times. This holds "
            "whatever the number of processors and workers, the order in which the workers run and finish, the shape "
            "of the grid, the order of dimensions, the file format and chunking. A location with only missing values "
            "remains missing and doesn't affect the others."
        ),
        over=["schedules", "inputs", "configurations"],
        text="all worker schedules, 1 to 64 processors, the three multiprocessing modes, grids, divisions and timeseries, monthly and daily data, all supported units, dimension orders, file formats",
        why=TESTS + "; the outcome depends on how the cells are divided among workers and on how these interleave.",
        files=[M, I, C, E, U],
        mechanism=mech(
            ("cells are divided among worker processes", f"{M}:_parallel_process"),
            ("each worker computes its slice of a shared result array", f"{M}:_apply_along_axis, _apply_along_axis_double"),
            ("inputs are converted and copied to shared memory", f"{M}:_compute_write_index, _drop_data_into_shared_arrays_grid"),
        ),
        state=[{"name": "shared arrays", "meaning": "inputs and result of the computation, shared with workers", "where": f"{M}:_global_shared_arrays"}],
        observe=["variables, coordinates and times of the files that are written"],
    ),
    dict(
        id="C02",
        title="The SPI program computes SPI and fitting parameters of each location",
        statement=(
            "When the SPI program has succeeded, each file of SPI values that it was to write (one for each scale and "
            "distribution) holds for every grid cell what the library returns for that cell alone. If the fitting "
            "parameters were to be saved then the file of these holds, for every cell, scale and calendar step, the "
            "gamma and Pearson parameters which the library fits for that cell alone."
        ),
        over=["schedules", "inputs", "configurations"],
        text="all worker schedules and worker counts, grids, scales, calibration periods, units, monthly and daily data, file formats",
        why=TESTS + "; the SPI program has its own copies of the parallel processing, with two phases whose results meet in shared memory.",
        files=[S, I, C, U],
        mechanism=mech(
            ("fitting is done in parallel into shared arrays", f"{S}:_parallel_fitting, _apply_to_subarray_gamma, _apply_to_subarray_pearson"),
            ("SPI is computed in parallel from those", f"{S}:_parallel_spi, _apply_to_subarray_spi"),
            ("files are built from shared arrays", f"{S}:_compute_write_index, build_dataset_fitting_grid, build_dataset_spi_grid"),
        ),
        state=[{"name": "shared arrays", "meaning": "inputs, fitting parameters and results", "where": f"{S}:_global_shared_arrays"}],
        observe=["SPI files", "the file of fitting parameters"],
    ),
    dict(
        id="C03",
        title="Scales, distributions and indices of one command don't affect each other",
        statement=(
            "The file written for one scale, distribution and index is the same (values, coordinates and metadata) "
            "whether it's computed by a command of its own or together with any others, in whatever order the scales "
            "are given and if a scale is given twice. Every combination that was asked for is written, under its own name."
        ),
        over=["schedules", "inputs", "histories"],
        text="all lists of scales in any order, all indices including the combined one, with and without saved fitting parameters, all worker schedules",
        why=TESTS + "; interference goes through shared memory and module state that's reused from one scale to the next.",
        files=[M, S],
        mechanism=mech(
            ("the loop over scales and distributions", f"{M}:process_climate_indices; {S}:_compute_write_index"),
            ("the result array is reused", f"{M}:_compute_write_index; {S}:_compute_write_index"),
        ),
        state=[{"name": "shared arrays", "meaning": "kept from one computation to the next", "where": f"{M}:_global_shared_arrays; {S}:_global_shared_arrays"}],
        observe=["files of a command for several scales, and of commands for one scale each"],
    ),
    dict(
        id="C04",
        title="Saved fitting parameters are what a later SPI run uses",
        statement=(
            "SPI computed with fitting parameters loaded from a file, for input on the same grid, is what the library "
            "computes for each cell with the parameters that the run which saved them had fitted for that cell, scale "
            "and calendar step, whatever input and calibration period the later run has. An existing file of parameters is "
            "never overwritten unless that's asked for; a run that needs parameters for a scale which the file lacks, whose input is "
            "for other locations than the parameters, or that is asked both to load and to save, is refused."
        ),
        over=["schedules", "inputs", "histories"],
        text="all histories of saving, overwriting and loading runs in one or several processes, subsets of scales, same and other input of the same grid",
        why=TESTS + "; saving and loading are never executed, and only a history of at least two runs can show a mismatch.",
        files=[S, I, C],
        mechanism=mech(
            ("saving of the parameters", f"{S}:_compute_write_index"),
            ("loading into shared memory", f"{S}:_drop_data_into_shared_arrays_grid"),
            ("refusal of unsuitable arguments", f"{S}:_validate_args"),
            ("use of given parameters", f"{I}:spi"),
        ),
        state=[{"name": "file of fitting parameters", "meaning": "durable state between runs", "where": "the path given by the user"}],
        observe=["SPI files of the later run", "the file of fitting parameters", "whether a command is refused"],
    ),
    dict(
        id="C05",
        title="Repeated invocations in one process are independent of each other",
        statement=(
            "Any command executed in a process which has executed others before (successful, refused or failed, for the same "
            "or other files, grids, scales and indices) does and writes what it would in a fresh process. Input files that have been "
            "replaced in between are read anew, and the arguments object passed by the caller isn't modified."
        ),
        over=["histories", "schedules", "fault_sequences"],
        text="all sequences of commands of both programs in one process, with failures and replaced inputs in between",
        why=TESTS + "; state left by an earlier call only shows in a sequence of calls.",
        files=[M, S],
        mechanism=mech(
            ("module state is set up for each call", f"{M}:_compute_write_index, process_climate_indices; {S}:_compute_write_index, main"),
        ),
        state=[
            {"name": "shared arrays", "meaning": "left by earlier calls", "where": f"{M}:_global_shared_arrays; {S}:_global_shared_arrays"},
            {"name": "number of workers", "meaning": "left by earlier calls", "where": f"{M}:_NUMBER_OF_WORKER_PROCESSES"},
        ],
        observe=["files written by each command of the history", "outcome of each command"],
    ),
    dict(
        id="C06",
        title="A failing worker makes the command fail, promptly and without wrong output",
        statement=(
            "If a worker process is killed, raises an error, can't be started, or memory can't be allocated, then the command either "
            "ends with an error within bounded time or produces exactly the correct output. It never hangs, and it never "
            "reports success with values missing or wrong in any file. The same command run again afterwards succeeds."
        ),
        over=["fault_sequences", "schedules", "inputs"],
        text="one or two faults at any scheduling point of any worker (kill, exception, failed fork, failed allocation, stall), for both programs and all indices",
        why=TESTS + "; worker failures at particular points can't be provoked by ordinary tests.",
        files=[M, S],
        mechanism=mech(
            ("workers are supervised by a process pool executor, results are awaited", f"{M}:_parallel_process; {S}:_parallel_spi, _parallel_fitting"),
        ),
        state=[],
        observe=["outcome of the command", "progress within a bounded number of scheduling steps", "output files", "a later run"],
    ),
    dict(
        id="C07",
        title="Errors of reading or writing files never go unnoticed",
        statement=(
            "If any operation on an input or output file fails (no space, I/O error, quota, permission, too many open files, short write) then the command "
            "ends with an error or its output is nevertheless complete and correct. Each output file is afterwards either "
            "complete and correct or what it was before, nothing else is left in the directory, and the same command run again succeeds."
        ),
        over=["fault_sequences", "inputs", "histories"],
        text="an error of each kind at each open, read, write, sync, rename and close of a file, single or persistent, with and without earlier output",
        why=TESTS + "; errors of the operating system never occur in them.",
        files=[U, M, S],
        mechanism=mech(
            ("write to a temporary file, sync, move into place, clean up", f"{U}:write_netcdf"),
            ("errors are passed on", f"{M}:main, process_climate_indices; {S}:main"),
        ),
        state=[{"name": "output files", "meaning": "durable result", "where": "the directory of outputs"}],
        observe=["outcome of the command", "all files of the directory", "a later run"],
    ),
    dict(
        id="C08",
        title="A crash or power failure never leaves a torn or lost output file",
        statement=(
            "If the process is killed or the machine loses power at any instant, then each output file is afterwards either the "
            "complete and correct new one, or the complete previous one (or absent if there was none). Inputs are intact, "
            "and a rerun after the restart succeeds with correct output."
        ),
        over=["crash_points", "histories", "inputs"],
        text="process death at any system call or line, and power failure at any point of the disk's operations with any part of unsynced data lost, then restart",
        why=TESTS + "; crash points and loss of unsynced data can't be produced by ordinary tests.",
        files=[U, M, S],
        mechanism=mech(("temporary file, sync and atomic replacement", f"{U}:write_netcdf")),
        state=[{"name": "output files", "meaning": "durable state", "where": "the directory of outputs"}],
        observe=["every output file after the crash", "a later run"],
    ),
    dict(
        id="C09",
        title="Inputs and unrelated files are never modified or removed",
        statement=(
            "No command modifies or removes an input file, or any file which isn't one of the outputs that it was asked for, and it creates none besides these, "
            "whether it succeeds, fails, is interrupted or crashes (only a crash may leave a temporary file), even if outputs go to the directory of the inputs."
        ),
        over=["fault_sequences", "inputs", "crash_points", "configurations"],
        text="all commands and layouts of inputs and outputs, undisturbed and with faults of all kinds",
        why=TESTS + "; a temporary or cleaned-up file matters at a particular failure only.",
        files=[M, S, U],
        mechanism=mech(
            ("temporary files are removed only if they're the program's own", f"{M}:process_climate_indices; {S}:main"),
            ("output names are derived from the given base", f"{M}:_compute_write_index; {S}:_compute_write_index"),
        ),
        state=[{"name": "files", "meaning": "of the user", "where": "directories of inputs and outputs"}],
        observe=["digests and the listing of all files"],
    ),
    dict(
        id="C10",
        title="Commands that share a directory at the same time don't disturb each other",
        statement=(
            "Several commands that run at the same time in separate processes on one directory (with common inputs, or even "
            "with the same outputs) each do what they'd do alone. Whoever looks at an output "
            "file at any moment sees no file, or one that's complete and correct for one of the commands that write it."
        ),
        over=["schedules", "crash_points", "histories"],
        text="all interleavings of two or three commands at the granularity of system calls and worker switches, and observers at any of these points, also when one of the commands crashes or fails",
        why=TESTS + "; concurrency between commands isn't exercised.",
        files=[U, M, S],
        mechanism=mech(("temporary names contain the process id, atomic replacement", f"{U}:write_netcdf")),
        state=[{"name": "output files", "meaning": "shared between processes", "where": "the directory of outputs"}],
        observe=["output files at points during the run and at its end", "outcome of each command"],
    ),
    dict(
        id="C11",
        title="Library functions are pure and can be called from several threads",
        statement=(
            "The result of a call of the library's functions (SPI, SPEI, PNP, PET, PCI, PDSI, fitting and transformation, scaling, calendar conversion) depends on "
            "its arguments only: not on calls before it or at the same time in other threads, nor on calls that have failed. "
            "No call modifies an array or parameter that it's given, unless it returns it, and what a call has returned isn't changed by later ones."
        ),
        over=["schedules", "histories", "inputs"],
        text="all interleavings of threads at the granularity of source lines, with arguments shared between them, failures and reuse of buffers in between",
        why=TESTS + "; single calls from one thread can't show shared state.",
        files=[I, C, E, U, L, P],
        mechanism=mech(
            ("functions copy what they change", f"{C}:scale_values, gamma_parameters, transform_fitted_gamma; {E}:eto_thornthwaite; {I}:spi, spei"),
            ("no state is kept between calls", f"{C}; {I}; {E}; {L}; {P}"),
        ),
        state=[],
        observe=["return values", "arguments after the call", "earlier results after later calls"],
    ),
    dict(
        id="C12",
        title="Interruption and failure leave no processes or temporary files behind",
        statement=(
            "When a command ends by Ctrl-C, a request to exit or an error while it waits for workers or files, no worker process remains, no temporary or partial file remains, and the "
            "command raises an error rather than reporting success with output missing. "
            "The same command can then be repeated, also in the same process, with correct output."
        ),
        over=["fault_sequences", "schedules"],
        text="an interruption or failure at any wait for a worker or operation on a file (and at any line of the program, as far as the output is concerned), for both programs",
        why=TESTS + "; interruptions at particular points can't be provoked by ordinary tests.",
        files=[M, S, U],
        mechanism=mech(
            ("the pool is a context manager", f"{M}:_parallel_process; {S}:_parallel_spi, _parallel_fitting"),
            ("the temporary file is removed", f"{U}:write_netcdf"),
        ),
        state=[],
        observe=["processes that are alive when the command has ended", "the listing of the directory", "the repeated command"],
    ),
    dict(
        id="C13",
        title="SPEI uses the PET which the same command has computed",
        statement=(
            "When temperatures rather than PET are given for SPEI, the PET file written by the command is that of these temperatures, and the SPEI is computed from precisely "
            "this PET, for each location, whatever PET files, earlier runs or calls with the same arguments object there have been."
        ),
        over=["histories", "inputs", "schedules"],
        text="all histories in which a PET file of other temperatures or another grid exists, commands are repeated with changed temperatures, in one or several processes",
        why=TESTS + "; the hand-over of PET through a file is never exercised.",
        files=[M, I, E],
        mechanism=mech(("PET is computed first and its file becomes the argument for SPEI", f"{M}:process_climate_indices")),
        state=[{"name": "PET file", "meaning": "intermediate result", "where": "<output base>_pet_thornthwaite.nc"}],
        observe=["PET and SPEI files"],
    ),
    dict(
        id="C14",
        title="Results are reproducible on any machine, at any time",
        statement=(
            "Two runs of one command on the same inputs write files with the same values, coordinates and metadata (apart from "
            "records of when and how they were made), whatever the number of processors and workers, process ids, "
            "way of starting workers (forked or spawned), wall clock (with jumps), hash seed and order of scheduling."
        ),
        over=["schedules", "configurations", "inputs"],
        text="pairs of environments that differ in processors, process ids, start method of workers, clock, iteration order of sets and schedule",
        why=TESTS + "; they run in one environment only.",
        files=[M, S, U],
        mechanism=mech(
            ("files are opened in a fixed order", f"{M}:_compute_write_index"),
            ("results don't depend on the division of work", f"{M}:_parallel_process; {S}:_parallel_spi, _parallel_fitting"),
        ),
        state=[],
        observe=["contents of the files of two runs, element by element, and their attributes"],
    ),
    dict(
        id="C15",
        title="Unsuitable inputs are refused before anything is written",
        statement=(
            "A command whose input files don't fit together (other coordinates, order of coordinates or of dimensions, other or shifted times, "
            "another kind of location), whose arguments are missing, contradictory or unknown, or whose input file or variable doesn't exist, "
            "can't be read or has an unsupported unit, is refused with an error: it never writes a value computed from mismatched data. No output for which the unsuitable "
            "input is needed is written or changed, the inputs are as before, nothing else is left behind, and later commands of the same process do what they'd do otherwise."
        ),
        over=["inputs", "histories", "configurations"],
        text="all commands of both programs with one of their inputs or arguments made unsuitable in any of these ways, with and without earlier outputs, followed by other commands in the same process",
        why=TESTS + "; mismatched inputs show as plausible but wrong values of some cells only.",
        files=[M, S],
        mechanism=mech(
            ("coordinates, times and dimensions of the inputs are compared", f"{M}:_validate_args"),
            ("arguments are validated", f"{M}:_validate_args; {S}:_validate_args"),
            ("errors are passed on", f"{M}:main, process_climate_indices; {S}:main"),
        ),
        state=[{"name": "output files", "meaning": "of earlier commands", "where": "the directory of outputs"}],
        observe=["outcome of the command", "all files of the directory", "later commands"],
    ),
    dict(
        id="C16",
        title="No more workers run than were asked for",
        statement=(
            "At no moment are there more worker processes of a command than its multiprocessing option asks for: one for 'single', the number of "
            "processors for 'all', otherwise one less than that (at least one), whatever commands the process has executed before "
            "and whatever workers have failed, been interrupted or been stalled."
        ),
        over=["schedules", "histories", "configurations", "fault_sequences"],
        text="all multiprocessing options, 1 to 64 processors, sequences of commands of both programs with different options in one process, stalled and failing workers",
        why=TESTS + "; the number of processes alive at one moment depends on schedules and on state left by earlier commands.",
        files=[M, S],
        mechanism=mech(
            ("number of workers is chosen by the option", f"{M}:process_climate_indices; {S}:main"),
            ("the pool is bounded by it", f"{M}:_parallel_process; {S}:_parallel_spi, _parallel_fitting"),
        ),
        state=[{"name": "number of workers", "meaning": "set by each command", "where": f"{M}:_NUMBER_OF_WORKER_PROCESSES"}],
        observe=["largest number of live worker processes during each command"],
    ),
    dict(
        id="C17",
        title="Commands leave nothing open or allocated in the process",
        statement=(
            "Once a command has ended (with success, refusal, failure or interruption) and unused objects have been collected, the process has none of the files of "
            "that or earlier commands open or mapped. However often commands are executed, the process needs no more file descriptors and shared memory "
            "than after executing them twice, so that it can go on executing them for ever."
        ),
        over=["histories", "fault_sequences", "configurations"],
        text="repeated sequences of commands of both programs in one process, with refused commands, failing workers and files and interruptions among them",
        why=TESTS + "; what an execution leaves behind shows after many of them, or when a particular operation fails.",
        files=[M, S, U],
        mechanism=mech(
            ("datasets are opened in with statements", f"{M}:_compute_write_index, _prepare_file, _validate_args; {S}:_compute_write_index, _prepare_file, _validate_args"),
            ("shared arrays are replaced by those of the next command", f"{M}:_global_shared_arrays; {S}:_global_shared_arrays"),
        ),
        state=[{"name": "open files and shared arrays", "meaning": "of the process", "where": f"{M}:_global_shared_arrays; {S}:_global_shared_arrays"}],
        observe=["open descriptors, mapped files and blocks of shared memory after each command"],
    ),
    dict(
        id="C18",
        title="What's in the output directory before doesn't affect the results",
        statement=(
            "A command does and writes the same whether or not the directory of outputs holds files already under the names of its outputs or of its temporary files: "
            "outputs of earlier commands for other inputs, grids, scales or indices with the same output base, newer or older than the inputs, incomplete or unreadable ones, "
            "and what processes (with the same process id, too) have left when they crashed. (Only an existing file of fitting parameters is kept unless its replacement is asked for.)"
        ),
        over=["crash_points", "histories", "fault_sequences"],
        text="histories of commands in separate processes with one output base, among them crashed and failing ones, with replaced inputs; arbitrary files of the outputs' and temporary files' names",
        why=TESTS + "; the directory is durable state whose contents depend on the whole history and on where earlier processes crashed.",
        files=[M, S, U],
        mechanism=mech(
            ("outputs are computed and replaced without regard to earlier ones", f"{U}:write_netcdf; {M}:_compute_write_index; {S}:_compute_write_index"),
            ("PET is computed by the command itself", f"{M}:process_climate_indices"),
        ),
        state=[{"name": "output files", "meaning": "left by earlier commands", "where": "the directory of outputs"}],
        observe=["outcome and files of the last command, compared with the model and with the same command in other names"],
    ),
]

NA = [
    dict(
        id="N01",
        title="SPI and SPEI values are within [-3.09, 3.09] and missing where input is",
        statement="Every value of SPI and SPEI is between -3.09 and 3.09 or missing, and it's missing where the scaled input is.",
        text="all arrays of input values, scales and calibration periods",
        why="The tests use one precipitation array.",
        files=[I, C],
        mechanism=mech(("clipping", f"{I}:spi, spei")),
        reason="A pure function of one array: no concurrency, time, I/O, randomness or fault for the property to depend on, so there is no schedule or fault sequence to search; input generation alone would be another technique.",
    ),
    dict(
        id="N02",
        title="SPI is monotone in precipitation for given fitting parameters",
        statement="With given fitting parameters, a larger precipitation sum at a calendar step never has a smaller SPI.",
        text="all values and parameters of both distributions",
        why="The tests compare with one recorded result.",
        files=[C, I],
        mechanism=mech(("cumulative distribution and normal quantile", f"{C}:transform_fitted_gamma, transform_fitted_pearson")),
        reason="A mathematical property of a pure function; nothing that a simulator could schedule or let fail takes part in it.",
    ),
    dict(
        id="N03",
        title="PET is never negative and follows the Thornthwaite equation",
        statement="For each month with a temperature, PET is at least zero and equals the Thornthwaite formula for the latitude.",
        text="all temperatures and latitudes",
        why="The tests use one station's data.",
        files=[E, I],
        mechanism=mech(("Thornthwaite's equation", f"{E}:eto_thornthwaite")),
        reason="A pure formula of its arguments, independent of scheduling, time, I/O and faults.",
    ),
    dict(
        id="N04",
        title="Conversion to the 366-day calendar and back is the identity",
        statement="Daily values converted to years of 366 days and back again are the original ones.",
        text="all ranges of years and arrays",
        why="The tests sample two ranges of years.",
        files=[U],
        mechanism=mech(("calendar conversion", f"{U}:transform_to_366day, transform_to_gregorian")),
        reason="A pure function of an array and a year. (Its use within commands is decided as a part of C01 and C02.)",
    ),
    dict(
        id="N05",
        title="Pearson III parameters reproduce the sample's L-moments",
        statement="The L-moments of the fitted Pearson type III distribution are those of the sample, or the fit is refused.",
        text="all samples",
        why="The tests use one sample.",
        files=[L, C],
        mechanism=mech(("estimation by L-moments", f"{L}:fit")),
        reason="A numeric identity of a pure function, with nothing nondeterministic to simulate.",
    ),
    dict(
        id="N06",
        title="Percentage of normal is relative to the calibration period's means",
        statement="PNP is the scaled precipitation divided by the mean of the calibration period for the calendar step, so that its mean over the calibration period is 1.",
        text="all arrays, scales and calibration periods",
        why="The tests use one array.",
        files=[I],
        mechanism=mech(("calibration means", f"{I}:percentage_of_normal")),
        reason="A pure function of one array, independent of scheduling, time, I/O and faults.",
    ),
    dict(
        id="N07",
        title="The water balance of the Palmer indices is conserved",
        statement="In each month, water that falls equals what evaporates, recharges and runs off, minus what is taken from the soil.",
        text="all precipitation, PET and soil capacities",
        why="The tests compare with one recorded result.",
        files=[P],
        mechanism=mech(("accounting of the two soil layers", f"{P}:_calc_water_balances")),
        reason="A sequential computation over one series without concurrency, time, I/O or faults. (Its reentrancy is part of C11; the command line for Palmer indices is withdrawn according to the change log and fails loudly.)",
    ),
]

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            a = {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p.get("observe", ["return values"]), "hook_needed": None}
            if p.get("state"):
                a["state"] = p["state"]
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p.get("over", ["inputs"]), "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": a,
                    }
                )
                + "\n"
            )
    levels = {x: "fault_enumeration" for x in ("C06", "C07", "C08", "C09", "C12")}
    notes = {
        "C11": "Seeded search: threads of one process interleaved at source lines of the package, exceptions and stalls injected; judged against each call executed alone on its own copies. Assumes that NumPy/SciPy calls are atomic (they're not switched inside).",
    }
    default = (
        "Seeded search over schedules{f} of the real programs, run in forked processes under a scheduler that decides every "
        "switch of processes, every file operation's outcome and every look at the clock. Judged against the library called for one cell at a time in a "
        "process of its own. No exhaustiveness is claimed; the library's numerics, NumPy, xarray and the scratch file system are trusted."
    )
    checks = []
    for p in PROPS:
        i = p["id"]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check {i}",
                "thorough_cmd": f"./check {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation: seeded search over thread interleavings with injected failures"
                if i == "C11"
                else "deterministic simulation: seeded search over process schedules, faults and histories",
                "level": levels.get(i, "exploration"),
                "level_note": notes.get(i) or default.format(f=", faults and crash points" if i in levels else " and histories"),
            }
        )
    doc = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "hooks": {
            "guard": "CLIMATE_INDICES_SIM (reserved, not used: no hooks were needed in /repo, the seams are the functions of the standard library that the code calls)",
            "enable": "nothing to enable; the checks import the code from /repo/src and instrument it as it's imported",
            "source_commits": [],
        },
        "checks": checks,
        "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
        "notes": "See DESIGN.md. ./check ID [--tier thorough] [--seconds N] [--seed N]; ./check --replay FILE replays a violation exactly. Genuine defects found and repaired are listed in known-findings.txt.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
