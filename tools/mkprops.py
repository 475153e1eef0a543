"""Writes /verif/properties.jsonl (kept as a table because it is easier to maintain)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

PA, FN, DF, DS, FU, PR, IX = ("pyconform/physarray.py", "pyconform/flownodes.py", "pyconform/dataflow.py",
    "pyconform/datasets.py", "pyconform/functions.py", "pyconform/parsing.py", "pyconform/indexing.py")

prop("C01", "Written variables equal what their definitions denote",
 "For every variable the tool writes, each cell of the output file is the value its definition expression denotes when it is evaluated on the input files by the rules of arithmetic on named dimensions with units, missing values and positive directions, and is then converted to the units, dimension order, positive direction and type that the output variable declares. A definition that has no such value (inconvertible units, unequal lengths of a shared dimension, an unsafe cast, dimensions that cannot be matched) is refused with an error or skipped with a warning, and never produces numbers.",
 ["programs", "inputs", "configurations"],
 "every definition expression (operators, functions, indices, constants) over every input data set and every declaration of the output variable (units, dimension order, positive, type)",
 "Tests run a handful of fixed definitions on one synthetic data set and mostly look at file existence or single nodes; the combinations of units, dimension order, positive direction, index and missing data are unbounded.",
 [DF, FN, PA, FU],
 [("definition is turned into a graph of read/evaluate/map/validate/write nodes", DF + " DataFlow._construct_flow_, _create_*_nodes_"),
  ("evaluation by pulling index through nodes", FN + " *.__getitem__"),
  ("cast, convert, transpose, flip on output", FN + " ValidateNode.__getitem__")],
 ["the output netCDF files, and the error or warning of a refused definition"])

prop("C02", "Chunked writing gives the same files; unsafe chunking is refused",
 "Writing an output data set in chunks of any size along any mappable output dimensions, in any order of those dimensions, produces exactly the same variables, values, missing cells and dimension lengths as writing it in one piece. Every cell of every variable is written, no cell is written with a value that depends on the chunk boundaries, and a request to chunk along a dimension that some definition reduces over, or along an unknown dimension, or with a chunk size that is not a positive integer, is refused before any file is written.",
 ["configurations", "inputs", "schedules"],
 "every assignment of chunk sizes (smaller, equal or larger than the dimension, dividing it or not) to subsets of output dimensions, for every file with any mix of variables sharing those dimensions, including inverted coordinates",
 "Tests chunk a few fixed files with one or two chunk sizes and compare little of the result; boundary, remainder, inverted and multi-variable cases are not sampled.",
 [FN, DF],
 [("chunk grid over the dimensions of the file", FN + " WriteNode._chunk_iter_"), ("each variable's chunk is written once", FN + " WriteNode.execute"),
  ("sum-like dimensions are collected and refused", DF + " DataFlow._find_sumlike_dimensions_, execute")],
 ["the output files of the same flow with and without chunks", "errors raised by executing a flow"])

prop("C03", "Two successive index requests equal their single combined request",
 "For every array shape and every pair of index expressions made of integers, slices with any start, stop and step (negative and out-of-range ones included), ellipses and dimension-name dictionaries, the combined index selects exactly the cells, in the same order, that applying the first and then the second selects, and raises an error exactly when the second one would. Aligning an index to dimension names never moves it to another axis.",
 ["inputs"],
 "all shapes, all pairs of index expressions over them",
 "Tests check a sample of slices for a few lengths; negative steps combined with out-of-range or empty slices are infinite in number.",
 [IX, FN],
 [("combination of index expressions", IX + " join"), ("alignment by name", IX + " align_index, index_tuple"), ("reads from file use one combined index", FN + " ReadNode.__getitem__")],
 ["the combined index applied to an array", "arrays read from a file through an index in the definition and a chunk request"])

prop("C04", "Units follow the algebra of physical quantities",
 "Adding or subtracting two quantities converts the second to the units of the first and fails if that is impossible; multiplying, dividing, raising to a power and taking roots combine units accordingly; and conversion changes the numbers by exactly the relation between the two units (offsets, scale factors and reference dates included). The quantity a sum, difference, product or quotient denotes therefore does not depend on which of several units the right operand is stored in, nor on those of the left operand where they have no offset; and a conversion inside an expression never truncates integer data.",
 ["inputs", "programs"],
 "every pair of units and every arithmetic expression over quantities carrying them",
 "Tests use a few unit pairs (mostly identical, or m and km) on tiny arrays of ones.",
 [PA, FU, FN],
 [("conversion before addition", PA + " _add_sub_init_, convert"), ("unit arithmetic of products, quotients, powers", PA + " _units_op_, __mul__, __truediv__, __pow__"), ("conversion to declared units", FN + " ValidateNode.__getitem__")],
 ["units and data of results of array operations", "units attribute and data of output variables"])

prop("C05", "Operands are matched by dimension name, never by position",
 "Binary operations match the axes of their operands by dimension name whatever the order of the axes; the result has the dimensions of the left operand followed by those only the right one has, and shared dimensions of different lengths are refused. Transposing, indexing and assigning by dimension names move every cell together with its coordinates, so a result never depends on the order in which an operand's axes are stored.",
 ["inputs", "programs"],
 "every pair of arrays with any dimension names, orders and lengths (length one included)",
 "Tests use square or equal-length arrays of ones or ranges for which a misalignment is often invisible, and only a few dimension orders.",
 [PA],
 [("broadcasting by name", PA + " _broadcast_"), ("transposition by name", PA + " transpose"), ("indexing and assignment by name", PA + " __getitem__, __setitem__")],
 ["dimensions, shape and cells of results"])

prop("C06", "Positive direction and sign stay consistent",
 "When two operands have opposite positive directions the right one is negated before the operation and the result has the direction of the left one; an operand without a direction takes that of the other without change of sign. Requesting an upward or downward quantity negates the data exactly when its known direction is the opposite one, and even powers have no direction. The signed physical flux along one fixed direction is therefore the same in the output as the expression denotes, whichever directions inputs and output use.",
 ["inputs", "programs"],
 "every expression over inputs with any of the directions up, down or none, and every declared direction of the output",
 "Tests check single operations with fixed values, never the composition of several, nor the data that the operands hold afterwards.",
 [PA, FU, FN],
 [("matching of directions", PA + " _match_positive_, flip, up, down"), ("functions up() and down()", FU + " PositiveUpFunction, PositiveDownFunction"), ("declared direction on output", FN + " ValidateNode.__getitem__")],
 ["sign of data and positive attribute of results and output variables"])

prop("C07", "Evaluating an expression never alters data it did not create",
 "No operation, function, conversion, validation or write changes the values, missing cells, units, dimensions or direction of the arrays or variables it is given, other than the target of an in-place operation or assignment. Requesting the same data again, from any node and in any order or after any other request, or running the same flow again, gives the same result.",
 ["histories", "programs"],
 "every sequence of operations over shared arrays, every sequence of index requests on shared nodes, and repeated executions of a flow",
 "Tests build fresh arrays for each assertion and look at the result only, so an operand that was changed, or a second request that differs, is not seen.",
 [PA, FU, FN],
 [("operations work on new arrays", PA + " __add__, __mul__, _match_positive_, ..."), ("nodes keep their own data", FN + " DataNode.__getitem__"), ("functions work on copies", FU + " LimitFunction, PositiveUpFunction")],
 ["all live arrays before and after each operation", "repeated requests to nodes", "files of repeated executions"])

prop("C08", "Missing values stay missing and never become numbers",
 "A cell of a result is missing exactly when the operation is undefined there or one of the operand cells it depends on is missing: arithmetic propagates missing cells, division by zero and roots of negative values give missing cells, and reductions skip them and are missing only where no valid cell contributes. Missing cells survive conversion, transposition, renaming, negation, limits and validation and are written as the fill value of the output variable, and no valid cell is ever turned into a missing one except by the declared valid range.",
 ["inputs", "programs"],
 "every placement of missing cells in the inputs and every definition",
 "Test data contains no missing values except in two unit tests of single functions.",
 [PA, FU, FN],
 [("masked arithmetic", PA + " PhysArray"), ("conversion keeps the mask", PA + " _safe_convert_"), ("fill value of the output", FN + " WriteNode._open_, execute")],
 ["mask of results", "cells equal to the fill value in output files"])

prop("C09", "Metadata of a request does not depend on how much data is requested",
 "For every node of a data flow, asking for no data at all, for all the data, or for any part of it, named by dimensions of the node (the way chunked writing asks), gives the same units, calendar, positive direction and dimension names, apart from dimensions removed by integer indices (validated variables need all their declared dimensions and are asked by slices only). The shape of the data returned for a part is the shape that part of the whole has, and its values are that part of the values.",
 ["programs", "inputs"],
 "every definition expression and every index request",
 "Planning (dimension mapping, units) uses the answer to the empty request while writing uses real requests; tests compare the two for a few single functions only.",
 [FN, FU, DF],
 [("empty request", IX + " align_index"), ("functions compute metadata on empty data", FU + " *.__getitem__"), ("planning from empty requests", DF + " _compute_node_infos_")],
 ["metadata of node[None], node[:], node[partial]"])

prop("C10", "Definitions are parsed by one fixed grammar",
 "A definition string is parsed into the one expression its grammar gives it: multiplication and division bind tighter than addition and subtraction, powers bind tightest, operators of equal precedence (powers included) group to the left, unary minus binds looser than a power and tighter than a product, and constants are folded to the value they denote. Spaces never matter, every printed parse re-parses to an equal expression, and a string outside the grammar is refused rather than parsed in part.",
 ["programs"],
 "all definition strings",
 "Tests parse about fifty fixed strings.",
 [PR],
 [("grammar rules and precedence", PR + " p_*, precedence"), ("tokens", PR + " t_*")],
 ["the parsed expression"])

prop("C11", "Input dimensions are mapped one-to-one to output dimensions or refused",
 "The correspondence between input and output dimensions is one-to-one, is the same for all variables of the output data set, does not depend on the order in which variables are listed, and covers every dimension of every variable with a string definition. If no such correspondence can be derived the data flow is refused when it is built; an output dimension without a declared length gets the length of its input dimension.",
 ["configurations", "programs"],
 "every set of output variables with any dimensions and any definitions over any input dimensions",
 "Tests use a single fixed data set whose mapping is unambiguous.",
 [DF, FN],
 [("derivation of the map, variables with fewest dimensions first", DF + " _compute_dimension_maps_"), ("renaming of dimensions and requests", FN + " MapNode.__getitem__")],
 ["the dimension map of a built flow, or the error", "lengths of output dimensions"])

prop("C12", "Each output file holds exactly the variables it needs",
 "An output file contains the variable it is declared for, the variables named in its list of metadata variables, every variable without a file of its own whose dimensions all belong to those, and, transitively, all bounds and auxiliary coordinates that the contained variables name; nothing else is in it, and every dimension in it is used. Each declared file is written once under its declared name, format and with its own attributes, whatever the other files contain.",
 ["configurations"],
 "every output specification: any number of files, shared coordinates, bounds of bounds, scalar variables, metadata lists",
 "Tests use one specification with a fixed choice of files and check a few names.",
 [DS, DF, FN],
 [("files are assembled from variable declarations", DS + " OutputDatasetDesc._set_files_"), ("file nodes from variable nodes", DF + " _create_write_nodes_")],
 ["list of files, and variables and dimensions of each"])

prop("C13", "Input files are described faithfully and contradictions are refused",
 "The description of a set of input files lists each variable of each file with the type, dimensions, lengths, unlimited flag and attributes it has there, and a variable present in several files refers to all of them; its data is read from a file that holds it. Files or specifications that contradict each other on a variable's type, dimensions or on a dimension's length are refused, and an accepted description does not depend on the order in which files are given.",
 ["inputs", "configurations"],
 "every set of input files and every specification dictionary",
 "Tests use one directory of consistent files and a few invalid constructor calls.",
 [DS],
 [("merging of file descriptions", DS + " DatasetDesc, InputDatasetDesc"), ("equality of descriptions", DS + " VariableDesc.__eq__, DimensionDesc.__eq__, unique")],
 ["variables, dimensions and files of the described data set, or the error"])

prop("C14", "Parallel runs write every file exactly once and equal serial runs",
 "With any number of parallel processes, every output file is written by exactly one process, all processes finish, and the resulting files are the same as those of a serial run. This holds for any number of files, more or fewer than processes, and any sizes.",
 ["schedules", "configurations"],
 "every number of processes and files, every assignment of sizes, every interleaving of the processes",
 "Tests run on one process, where the distribution of files is trivial.",
 [DF, "pyconform/cli/xconform.py"],
 [("files are partitioned by weight over ranks", DF + " DataFlow.execute (scomm.partition)"), ("synchronisation points", DF + " scomm.sync")],
 ["files written by each rank, and their contents"])

prop("C15", "A file under its final name is always complete",
 "At every instant, including after a crash or an error at any point of a run, a file that a run has put under its final output name is complete: it has all its variables, all their values and its full header. Unfinished data only ever exists under a temporary name, a file of an earlier run under the final name stays intact until its complete replacement is ready, and a run that ends normally leaves no temporary file behind.",
 ["crash_points", "fault_sequences"],
 "a crash, exception or kill at every point of the execution of a flow with any number of files, chunks and variables, with or without earlier output and leftovers of an earlier crash",
 "Tests never interrupt a run.",
 [FN],
 [("write to a temporary name and rename when closed", FN + " WriteNode._open_, _close_")],
 ["directory contents at every chunk and after a crash"])

prop("C16", "Coordinates are written in the declared direction with their data",
 "When an output coordinate declares the direction increasing or decreasing and its data runs the other way, the coordinate and every variable of the file along that dimension are written in reversed order along it, chunked or not, and otherwise in the given order; each value stays with its coordinate. A coordinate whose data has no direction is refused if it declares one.",
 ["inputs", "configurations"],
 "every combination of coordinate directions, declared directions, variables sharing the dimensions, and chunk sizes",
 "Tests invert one coordinate in one file with one chunk size.",
 [FN],
 [("detection of dimensions to invert", FN + " WriteNode._open_, _direction_"), ("mirrored reads", FN + " WriteNode._invert_dims_")],
 ["values of coordinates and variables in the output file"])

prop("C17", "Validation masks or reports exactly what lies outside the declared limits",
 "A cell of an output variable is masked by validation exactly when it lies below the declared valid minimum or above the declared valid maximum, and a warning is given exactly when some cell does; data on the limits, a limit of zero included, is valid. The mean absolute value limits only warn, never change data, and real data declared as integer is refused rather than cast.",
 ["inputs", "configurations"],
 "all data and all limits, one-sided or two-sided, positive, zero and negative",
 "Tests use one range that all data satisfies or all data violates.",
 [FN],
 [("validation of data", FN + " ValidateNode.__getitem__")],
 ["masked cells and warnings of a written variable"])

prop("C18", "Output headers carry the declared and the inherited metadata",
 "Each output file has exactly its declared global attributes plus a creation date, and each variable has its declared type and exactly its declared attributes, except that internal ones (fill value marker, direction, and history unless requested) are not written as text attributes; units and calendar that are not declared, or declared only in part, are inherited from the data. Dimensions have their declared lengths and unlimited flag and the file has the declared format and compression, or the compression given for the run.",
 ["configurations", "inputs"],
 "every specification of attributes, units (declared, unknown or partial time units), types, formats, compression and history options",
 "Tests check a few attributes of one file.",
 [FN, DS],
 [("header writing", FN + " WriteNode._open_"), ("inherited attributes", FN + " ValidateNode.__init__"), ("specification dictionary", DS + " OutputDatasetDesc")],
 ["attributes, types, dimensions, format and filters of the output files"])

prop("C19", "One variable's failure or presence never changes another's output",
 "A variable that cannot be produced because it has no definition or names a missing input variable is skipped with a warning that names it, and exactly the files that need it are skipped; every other file is written with the same contents as if the skipped variables were not in the specification. Adding, removing or reordering unrelated variables or files changes nothing in the others. (A specification whose metadata, bounds or coordinates name a variable that has no definition is refused as a whole.)",
 ["configurations", "fault_sequences"],
 "every specification with any subset of variables failing, and every superset and ordering of it",
 "Tests check that one missing variable gives a warning.",
 [DF, DS],
 [("skipping of variables", DF + " _create_definition_nodes_"), ("skipping of files", DF + " _create_write_nodes_"), ("undefined variables", DS + " OutputDatasetDesc")],
 ["set of files written, their contents, and warnings"])

prop("C20", "Date ranges in file names are the first and last times in the file",
 "A date template in an output file name is replaced by the first and the last time value of the file's time variable, each formatted as the template says in the calendar and reference date of that variable, and every template in the name is replaced. A time variable named explicitly for the purpose is used instead of one found by name, units, standard name or axis; without a time variable the name is kept with a warning, and malformed templates are refused.",
 ["inputs", "configurations"],
 "all time axes (calendars, units, reference dates, lengths), all templates, and all ways of identifying the time variable",
 "Tests use one time axis and two templates.",
 [FN],
 [("parsing of templates", FN + " WriteNode._autoparse_filename_")],
 ["names of the written files"])

prop("C21", "Time-sliced input files are grouped in order without silent gaps",
 "Given the files of a time series in any order, the date mapping orders them by time, reports the number of times in each, and accepts them as continuous exactly when each file starts one time step after the previous one ends in the data's calendar. Gaps or overlaps are reported, no file is lost, and file times are compared in common units.",
 ["inputs"],
 "every set of time-sliced files with any frequency, calendar, units, reference date, length and order",
 "Tests use a few regular series with a single calendar.",
 ["pyconform/mapdates.py"],
 [("step detection and ordering", "pyconform/mapdates.py get_files_in_order, __dates")],
 ["returned lists and counts"])

prop("C22", "Generated specifications join definitions and tables faithfully",
 "From a definition file and request tables the specification generator produces, for every requested variable that its table's section defines, a variable with that definition and its input files, its table's attributes and dimensions, the coordinates it needs (from its realm's section, or as requested), and a file entry with name, format and metadata; every requested variable without a definition is reported, and nothing else is. Definitions, comments, sections and global attributes apply exactly to the variables they are for: variables of one table never take another table's definition or metadata, given attributes are kept, blank ones are filled from their own source, and the result does not depend on the order of tables, sections or variables.",
 ["inputs", "configurations"],
 "every definition file and every set of request tables",
 "Tests generate specifications for small tables and check their existence.",
 ["pyconform/cli/iconform.py", "pyconform/miptableparser.py"],
 [("definition file loading", "pyconform/cli/iconform.py load"), ("specification filling", "pyconform/cli/iconform.py fill_missing_glob_attributes, defineVar, defineAxes, getUserVars, create_output"), ("table parsing", "pyconform/miptableparser.py")],
 ["generated JSON specification files"])

prop("C23", "The file access layer returns what was stored",
 "Opening, creating and copying through the file access layer preserves what it is given: dimensions with their lengths and unlimited flag, variables with type, dimensions, attributes, fill value and compression, and data with values and missing cells, and slices read are the slices requested. A file defined like another one takes over its dimensions (time unlimited, the others with their lengths), global attributes (the history extended) and the variables named. Files under construction at the same time do not influence each other. Reading never modifies the source file.",
 ["inputs"],
 "all variables, types, attributes, shapes and slices",
 "Tests of this layer need a library that is not installed for most of their cases and compare little else.",
 ["pyconform/climIO.py"],
 [("netCDF4 implementation of the file port", "pyconform/climIO.py climate_file_io, netCDF4 port")],
 ["files created through the layer and values returned by it"])

prop("C24", "Reductions are over the named dimensions of the valid cells",
 "The mean, sum, minimum and maximum over a set of named dimensions remove exactly these dimensions and give, for each remaining position, the mean, sum, minimum or maximum over all valid cells at that position taken jointly, in any order of naming and of storage. Units and positive direction are those of the data.",
 ["inputs", "programs"],
 "all arrays, missing patterns, dimension orders, and sets and orders of reduced dimensions",
 "Tests reduce one or two arrays of constants over one dimension.",
 [FU, PA],
 [("reduction functions", FU + " MeanFunction, SumFunction, MinFunction, MaxFunction"), ("array reductions", PA + " mean, sum")],
 ["results of reductions in flows and on arrays"])

prop("C25", "Character data is written unchanged and padded to its declared length",
 "String and character variables, whether given in the specification or read from input files, are written with every character in place, the string-length dimension last, padded to the declared string length when it is longer, with the same strings at the same positions after transposition, chunking and inversion of other dimensions. Character data has no units and takes part in no arithmetic.",
 ["inputs", "configurations"],
 "all strings (empty, shorter, exactly as long as the declared length), shapes and positions",
 "Tests check two fixed arrays of strings.",
 [PA, FN, DF],
 [("character arrays", PA + " CharArray, stretch"), ("string length dimension", DF + " _compute_dimension_maps_")],
 ["strings in output files"])

prop("C26", "Function and operator names resolve to exactly one implementation",
 "Each operator symbol resolves by its number of operands, and each function name, including functions the user adds in modules, resolves to the single function with that name or is refused as unknown or as defined more than once; the listing of names contains every resolvable name. Which functions other modules define, and the order of loading, never changes what an otherwise unique name means.",
 ["histories", "configurations"],
 "every set and order of loaded user functions, direct or by inheritance at any depth",
 "Tests look up the built-in names and one user class.",
 [FU, "pyconform/cli/xconform.py"],
 [("lookup", FU + " find, find_function, find_operator, list_functions")],
 ["results of lookups"])

prop("C27", "The command line runs the specification exactly as given",
 "The command line tool passes the output specification, the input files, the chunk sizes, the compression, history and serial options and the user modules unchanged to the data flow, so its files are those the library gives for the same request. Malformed arguments (chunks, compression, files) are refused with an error before any output is written, and a request without any matching input file only validates the specification.",
 ["configurations", "inputs"],
 "every combination of command line options and specification files",
 "Tests parse a few argument lists and run one conversion.",
 ["pyconform/cli/xconform.py"],
 [("argument handling and execution", "pyconform/cli/xconform.py cli, main")],
 ["exit status and files of command line runs"])

prop("C28", "Built-in transformations change only what they are for",
 "Removing units, changing units or time references without conversion, renaming dimensions and limiting to a range change exactly the units, the dimension names, or the cells beyond the limits, and nothing else of their argument. Requests for part of their result give the same part of the full result.",
 ["inputs", "programs"],
 "all arguments, parameters and index requests, alone and nested",
 "Tests apply each function once to one array and look at one aspect of the result.",
 [FU],
 [("functions", FU + " ChangeUnitsFunction, RemoveUnitsFunction, RenameDimensionsFunction, LimitFunction")],
 ["results of the functions for whole and partial requests"])

prop("C29", "Listed dependencies are exactly the input variables a definition needs",
 "The dependency listing names, for every requested output variable, exactly the variables that occur in its definition, no more and no fewer, however deeply nested, indexed or repeated they are. A variable without a definition is reported as such, and a definition that cannot be parsed never drops the dependencies of others.",
 ["programs"],
 "every definition file or specification",
 "Tests do not run the listing at all.",
 ["pyconform/cli/vardeps.py", PR],
 [("collection of variables from the parse", "pyconform/cli/vardeps.py")],
 ["printed listing"])

prop("C30", "Time aggregation functions cover each interval exactly once",
 "The functions that derive bounds, monthly-to-yearly means and climatological time axes assign each input time step to exactly one output interval: yearly means weigh each month by its share, bounds of consecutive cells meet, enclose their cell and span the axis, and results depend only on the steps of their own interval.",
 ["inputs"],
 "all regular and irregular axes, all lengths, offsets and calendars the functions accept",
 "The functions have almost no tests.",
 ["pyconform/modules/commonfunctions.py"],
 [("bounds and aggregation functions", "pyconform/modules/commonfunctions.py")],
 ["results of the functions"])

prop("C31", "Functions of ocean columns and land pieces read exactly the cells they name",
 "The functions of ocean columns use exactly the valid cells above the bottom of each column: the bottom layer is that of the last level of the column, means and sums are over the valid cells of the ocean weighted by areas and thicknesses, the sea fraction is the share of levels above the bottom. The functions that pick or add pieces (soil pools, land uses, expanded series, hemispheres, values of a regime, burnt fractions, masked cells) give each cell what it was made from. All of them keep missing cells, units, dimension names and direction, and a part of a result is that part of the whole result.",
 ["inputs"],
 "all fields, depths (also missing and zero), masks, directions, orders of dimensions and parts",
 "The functions have no tests.",
 ["pyconform/modules/commonfunctions.py"],
 [("functions of columns and pieces", "pyconform/modules/commonfunctions.py")],
 ["results of the functions"])

prop("C32", "Cells of a map get exactly the land tiles that belong to them",
 "The functions that put the land units and plant types of a land grid on a map give each cell, for each kind, the value of (or the weighted mean over) exactly the tiles in use, of positive weight and of that kind, at the place of the listed grid cell with that column and row; a cell that is not listed, or without such tiles, or with a tile without a value, is missing, and the order of the tiles does not matter. Uses of land, ocean basins, zonal means and ages of air are computed, for every cell, from the cells of the inputs they name. All of them keep missing cells, units, dimension names and direction, and a part of a result is that part of the whole result, whether asked for or written in pieces.",
 ["inputs"],
 "all lists of grid cells, tiles, kinds and weights, masks, orders of dimensions, directions and parts",
 "The functions have no tests.",
 ["pyconform/modules/CLM_landunit_to_CMIP6_Lut.py", "pyconform/modules/CLM_pft_to_CMIP6_vegtype.py", "pyconform/modules/commonfunctions.py"],
 [("tiles on a map", "pyconform/modules/CLM_landunit_to_CMIP6_Lut.py"), ("plant types on a map", "pyconform/modules/CLM_pft_to_CMIP6_vegtype.py"), ("uses, basins, means, ages", "pyconform/modules/commonfunctions.py")],
 ["results of the functions"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
