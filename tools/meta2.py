FE = "exhaustive fault injection on the real code: "

prop(
    "C18",
    "Data loaders deliver exactly the given data and identify it by hash",
    "JSON (list of rows or dictionary of columns), JSONL and dynamic (Python class) data loaders, and data given directly, that hold the same table give a model the same variables and exactly the same numbers in the same order, whatever the order of keys in each row and however many rows there are. A loader can be read repeatedly, by several readers at once, and gives what is there at the time; a row that lacks a variable, columns of different lengths, values that are no single numbers and files that hold no table are rejected; options reach a dynamic loader. The hash of a loader is the same in every process and on every call for equal content and options, and differs whenever content (anywhere in a file of any size) or options differ.",
    ["inputs", "configurations"],
    "all tables, file sizes, orders of keys, options and loader types",
    "tests load one small file per loader; block boundaries of hashed files, key orders and repeated reading need particular inputs",
    ["causy/data_loader.py"],
    [("JSONDataLoader, JSONLDataLoader, DynamicDataLoader, load_data_loader", "causy/data_loader.py")],
    EX + "all small tables x key orders x loaders; all pairs of contents and options for the hash",
    "All tables of up to 3 rows over a number alphabet; a change at every position class of files of 8 sizes around block boundaries.",
)
prop(
    "C19",
    "Sample generators follow exactly the given equations and return their graph",
    "For every acyclic set of weighted edges, the IID generator draws each variable as its noise plus the weighted sum of its parents in the same sample, with independent noise per variable and sample, whatever the order in which edges are given; cyclic models and self-loops are rejected. For every set of lagged edges, every time series sample after the start-up is its noise plus the weighted sum of the lagged values, and the first sample has the stationary standard deviation of its variable. A generator can be used repeatedly; earlier samples are not changed. The returned graph contains exactly the given edges with their direction (from the lagged to the current node at every time step for time series), its nodes hold the generated values, and the number of samples is the requested one. The same seed gives the same samples in every process.",
    ["inputs"],
    "all DAGs and sets of lagged edges, orders of edges, sizes and seeds",
    "tests compare moments of one or two models; order of evaluation and reuse of noise depend on the graph",
    ["causy/sample_generator.py"],
    [("IIDSampleGenerator, TimeseriesSampleGenerator", "causy/sample_generator.py")],
    EX + "all DAGs and lagged edge sets with scripted noise, residual oracle",
    "All DAGs with <= 4 nodes, all cyclic digraphs with <= 3; all lagged edge sets on 2 variables with lags 1, 2 and on 3 with lag 1.",
)
prop(
    "C20",
    "The workspace file holds exactly what the commands so far configured",
    "After any sequence of workspace commands (init; add and remove pipelines, data loaders and experiments; update variables; clear; info), the workspace file can be read and contains exactly the pipelines, data loaders, experiments, references and variable values (with their types) that these commands configured. A new experiment gets the declared variables of its pipeline with their defaults; a pipeline or data loader made by a command can be executed, whatever its name. A refused command (unknown name, pipeline or data loader still used by an experiment, value of the wrong type, undeclared variable, aborted init) changes nothing. Names that look like numbers, dates or booleans stay what they are. In a workspace file written by hand, a command changes only what it names; options of data loaders, further variables and a missing author are kept. No other file is changed.",
    ["histories"],
    "all command sequences, dialogs and names",
    "tests run single commands on a fresh workspace and mostly assert that the command did not fail",
    ["causy/workspaces/cli.py", "causy/workspaces/models.py"],
    [("add/remove/update/init commands", "causy/workspaces/cli.py")],
    MC + "breadth-first search over command sequences with state hashing",
    "38 commands, depth 3 (thorough 4) from an empty and a configured workspace; all dialogs of init; 9 names YAML could misread in every role.",
    observe=["workspace.yml and other files after each command"],
)
prop(
    "C21",
    "The versions of an experiment are exactly its own stored results",
    "For every content of the workspace folder, the UI lists for each experiment exactly the versions of its own result files, serves as latest the one with the highest version, and serves for a version exactly that result; results of experiments with similar names (prefixes, dots, trailing numbers) and files which are no results are never mixed in, version numbers that are no dates are versions too, and asking for something that does not exist is a client error. Clearing or removing an experiment deletes exactly its own results. If results are added or cleared by other processes at any moment of a clear or remove, the command still succeeds and deletes no other files. If they are at any moment of a request, the answer still is one that was right at some moment during the request, and an existing result is not refused.",
    ["histories", "schedules"],
    "all folders, experiment names, requests and moments at which other processes act",
    "tests have one experiment with one result and never another process",
    ["causy/ui/server.py", "causy/workspaces/cli.py"],
    [("get_latest_experiment, get_experiment, get_experiments", "causy/ui/server.py"), ("clear_experiment, remove_experiment", "causy/workspaces/cli.py")],
    MC + "all folders over a file alphabet; all interleavings of other processes' actions at each file access",
    "2048 folders (thorough 8192) x all requests and commands; up to two (thorough three) foreign actions at every file access of every request.",
    observe=["HTTP responses of the UI, files left by the commands"],
)
prop(
    "C22",
    "Executing a workspace reruns exactly what changed, on the current configuration",
    "After any history of editing data, pipelines and variables, of executing single or all experiments, and of clearing results, executing the workspace executes exactly those experiments whose data, pipeline or variables differ from those of their latest result or that have no result; forcing executes all, naming one executes that one. The data are compared by content and options, not by time stamps. An experiment that fails is reported, stores no result and is executed once repaired. Each execution adds one result that is exactly what the current pipeline finds on the current data with the current variables and says which variables and algorithm it used, and earlier results are kept unchanged.",
    ["histories"],
    "all histories of edits, executions and clearing",
    "tests execute a workspace once; whether a rerun is due depends on the history of edits and results",
    ["causy/workspaces/cli.py", "causy/models.py", "causy/variables.py"],
    [("execute_workspace, execute_experiment, hashes in the result", "causy/workspaces/cli.py")],
    MC + "breadth-first search over histories of edits and executions",
    "12 commands and edits, depth 4 (thorough 6) from the fresh and the executed workspace, two experiments with overlapping names sharing a pipeline.",
    observe=["result files after each command"],
)
prop(
    "C23",
    "An interrupted workspace command leaves a usable workspace",
    "Whenever a workspace command is killed, interrupted (Ctrl-C) or fails because a file operation fails, at any of its file operations and in the middle of any write, the workspace file is exactly the one before or after the command, every file it refers to is complete, every stored result is complete, earlier results are unchanged unless the command is to remove them, an experiment is only gone from the workspace when its results are, and the UI and other commands work on what is left. A command whose file operation failed reports failure and leaves no temporary files. Repeating the command has its full effect.",
    ["crash_points", "histories"],
    "all commands, all points of interruption, all partial writes and failing operations",
    "tests never interrupt a command",
    ["causy/workspaces/cli.py"],
    [("_write_file, write_to_workspace, _save_experiment_result, remove_experiment", "causy/workspaces/cli.py")],
    FE + "every file-changing system call of every command killed, cut, failed or interrupted (LD_PRELOAD shim), then recovery",
    "22 commands; kill before and after, SIGINT, ENOSPC/EIO, short and torn writes at every call (thorough: also a second fault in the repeated command). What was written before the crash is assumed to survive.",
    level="fault_enumeration",
    observe=["files in the workspace folder, exit status, UI responses"],
)
prop(
    "C24",
    "An algorithm reference yields that algorithm and never leaves the folder",
    "A file reference loads exactly the algorithm in the file it denotes (JSON or YAML) if that file, after following links and '..', lies in the working directory; every other file reference is refused with a ValueError (a client error in the UI) without opening any file outside the working directory. A file that holds no algorithm is refused, too. Name and Python module references yield an independent copy of the algorithm they name; unknown ones are errors (client errors in the UI).",
    ["inputs"],
    "all reference strings, links and working directories",
    "tests check a single reference; '..', links, absolute paths and sibling folders with a common prefix combine",
    ["causy/serialization.py", "causy/ui/server.py"],
    [("load_algorithm_by_reference", "causy/serialization.py"), ("get_algorithm", "causy/ui/server.py")],
    EX + "all paths of up to 4 components over names, links, '..' and absolute prefixes, file accesses monitored",
    "135,736 references (thorough: 5 components) from 3 working directories; every file opened is observed.",
)
prop(
    "C25",
    "workspace diff tells equal edges from different ones",
    "For any results, `workspace diff` prints one row for every pair of variables connected in any of the compared results, with the kind of edge in each of them; the row is marked as equal (green) exactly if all compared results have that edge with the same type and, for directed edges, the same direction, and as different (red) otherwise; --only-differences hides exactly the equal rows. An argument denotes the latest result of an experiment, or a certain version of it given as name_version; an argument that denotes nothing is not compared. Comparing changes no file.",
    ["inputs"],
    "all sets of results and all ways to name them",
    "tests compare one or two results and look at part of the output",
    ["causy/workspaces/cli.py", "causy/interfaces.py"],
    [("diff", "causy/workspaces/cli.py"), ("EdgeInterface.__eq__", "causy/interfaces.py")],
    EX + "all pairs of graphs on three variables, all triples of states of an edge, all namings",
    "All 4096 ordered pairs of 3-variable graphs with and without --only-differences (thorough: 15625 with bidirected edges).",
    observe=["output of the command"],
)
prop(
    "C26",
    "The UI serves exactly what is configured and stored",
    "For every stored result, the UI interface serves it (as loaded model, as latest and as numbered version) with the same nodes, edges, types, metadata, action history, variables and hashes as in the file, value for value and type for type; the served workspace and list of experiments are the configured ones. The status says which of model and workspace are loaded. What is not loaded, configured or stored is a client error and never a server error. `causy ui` serves the given result file, or else the workspace of the folder, on the configured or else the first free port, and fails if there is nothing to serve; other web sites may read exactly if CORS is enabled. Requests change no file.",
    ["inputs", "histories"],
    "all results and workspace configurations and all combinations of what is loaded",
    "tests request single endpoints for one hand-made result; conversion losses depend on types and values",
    ["causy/ui/server.py", "causy/ui/models.py", "causy/models.py"],
    [("API_ROUTES", "causy/ui/server.py"), ("ExtendedResult", "causy/ui/models.py")],
    EX + "all results of scripted and discovered graphs, all small workspace configurations, all loaded states, through the ASGI application",
    "1,800 results x 3 endpoints compared with the file by value and type; 216 configurations; 12 loaded states x 12 requests.",
    observe=["HTTP status and body"],
)

prop(
    "C27",
    "The one-shot commands write exactly what the algorithm found",
    "`causy eject` writes exactly the named algorithm. `causy execute` on a data file (rows or columns), with an algorithm by name or an ejected pipeline file, prints every direction of every edge found and nothing else as an edge, and writes to the output file, if one is given, a result with exactly the nodes, edges, types, values and history that the algorithm gives on these data through the Python interface, and the reference that was used. With missing or wrong arguments, data or pipelines the commands fail and write no output; no other file is changed.",
    ["inputs"],
    "all data sets (equivalence classes of DAGs), formats, algorithms and combinations of wrong arguments",
    "tests only assert that the commands exit with 0 on one data set",
    ["causy/cli.py", "causy/serialization.py"],
    [("eject, execute", "causy/cli.py")],
    EX + "all 4-node equivalence classes x algorithms x data formats x ways to name the algorithm, compared with an API run",
    "185 classes (thorough: 543 DAGs) x 2 algorithms x 2 references; 70 combinations of arguments.",
    observe=["exit status, printed lines and files of the commands"],
)
