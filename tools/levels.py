NOT = {}
FLOW = "trace specification %s, which computes the outcome of each recorded conversion (values, missing cells, units, files, refusals) from the specification alone and compares it with the files the real data flow wrote"
STEP = "; steps of a register machine of arrays (operations of the real arrays and functions with all live registers before and after)"
SMALL = "random conversions and steps of small size (up to 4 dimensions of length 1-4, expressions of depth 5); exact rational arithmetic, values beyond 32 bit rationals are not judged"
CLAIMED = {
 "C01": (FLOW % "Check_C01", SMALL),
 "C02": ("design model MC_Chunks (all chunk grids over small files: every cell read once and written in place) and " + FLOW % "Check_C02" + "; bit comparison of chunked with unchunked files", SMALL + "; one to four chunkings per conversion"),
 "C03": ("design model MC_Join (all slice pairs within bounds) and trace specification Check_C03 over records of the real index functions, array accesses and file reads",
         "exhaustive for one axis within small bounds on the design, generated pairs on the code; axes are independent, lengths beyond 7 are not sampled"),
 "C04": ("design model MC_Units (laws of conversion and of the algebra of units for all combinations of units) and " + FLOW % "Check_C04" + STEP, SMALL + "; 50 units of 9 kinds, time references in 5 calendars"),
 "C05": ("design model MC_Align (all storage orders of two operands give the same quantity) and " + FLOW % "Check_C05" + STEP, SMALL),
 "C06": ("design model MC_Direction (the flux along one direction is independent of stored directions) and " + FLOW % "Check_C06" + STEP, SMALL),
 "C08": ("design model MC_Missing (all placements of missing cells on small arrays) and " + FLOW % "Check_C08" + STEP, SMALL),
 "C16": ("design model MC_Chunks (mirrored reads within every chunk grid) and " + FLOW % "Check_C16", SMALL),
 "C17": (FLOW % "Check_C17" + ", with the warnings each validation gives", SMALL),
 "C24": (FLOW % "Check_C24" + STEP, SMALL),
 "C28": (FLOW % "Check_C28" + STEP, SMALL),
 "C07": (FLOW % "Check_C07" + STEP + "; node graphs asked repeatedly, in different orders and from fresh graphs, and repeated executions of a flow, also with the functions of the library of modules, compared bit by bit", SMALL),
 "C09": ("trace specification Check_C09 over records of requests (nothing, everything, parts) to every node of graphs built from random definitions, judged against the denotation of the node's expression" + STEP, SMALL),
 "C11": ("design model MC_DimMap (all partial mappings of small sets of dimensions) and trace specification Check_C11, which computes the acceptable mappings of recorded flows and compares the mapping the flow reports and its files", SMALL + "; permuted and renamed presentations of each specification"),
 "C19": (FLOW % "Check_C19" + "; each conversion again with failing or unrelated variables added, skipped ones removed and in another order, common files compared bit by bit", SMALL),
 "C10": ("design model MC_Grammar (all token sequences within bounds: the reading by precedence is the only reading of the declarative grammar, and printing and reading agree) and trace specification Check_C10, which reads every recorded string from its characters and compares expression, refusal and printed form with the real parser's",
         "exhaustive for all token strings of length 4 (5 thorough) over ten symbols, random beyond; constants beyond 32 bit rationals, an empty first argument and repeated keywords are not judged"),
 "C26": ("design model MC_Registry (all small sets of classes, keys and bases, all loading orders) and trace specification Check_C26, which follows recorded histories of loading modules, looking names up and using them in conversions",
         "random histories of up to seven modules, in processes of their own; class hierarchies with multiple inheritance always give their own key"),
 "C18": (FLOW % "Check_C18" + "; the specification says which attributes, formats, types and compression each header must have", SMALL + "; attribute values compared to seven digits"),
 "C12": ("design model MC_Files (all small specifications, variables entering a file in any order: confluence, leastness) and trace specification Check_C12 over recorded descriptions and files", SMALL),
 "C13": ("design model MC_Datasets (files entering a description in any order: soundness, order independence) and trace specification Check_C13 over recorded descriptions of real files, each in two orders, and data read through them", "random sets of up to five small files; dimensions that are a string length in one file and not in another, and attributes on which files differ, are not judged"),
 "C14": ("design model MC_Parallel (all interleavings, weights and numbers of ranks within bounds: each file written once, deadlock freedom, termination) and trace specification Check_C14, which follows recorded events of simulated ranks under random schedules and of real processes under mpirun and compares the files with those of a serial run", "one to seven ranks, up to nine files; runs that fail serially are not judged"),
 "C15": ("design model MC_WriteFile (all points at which writing some files can be killed, fail or be executed again) and trace specification Check_C15, which follows the recorded operations of real conversions on the output directory, with a kill, failing operations, errors and interrupts at random points, and judges every state of the directory and the files left", "operations on names, writes and closes of the process, as seen at the C library; the disk cache is not modelled"),
 "C20": ("design model MC_Dates (a clock through the years of all calendars; all short templates) and trace specification Check_C20, which computes from the description of a conversion which time variable is meant, its first and last date and the name of every file", "dates to the second, from times that are binary fractions; years 1-2100 (1600-2100 in the mixed calendar); where several variables could be meant and none is called time, any of them is accepted"),
 "C21": ("design model MC_Series (a source of regular times whose instants and files get lost or doubled: exactly the complete series are accepted) and trace specification Check_C21 over groupings of real files", "series of hours, days, months and years with at least three times in each file; steps of varying length (mid-month times), and files of different frequencies, are not judged"),
 "C23": ('design model MC_FileLayer (all short programs of operations on two files under construction) and trace specification Check_C23, which runs random programs of real operations on the specified file layer and compares every slice, description and file they give, read back independently', 'the netCDF4 port (the other library is not installed); variables written row by row along time, or copied completely'),
 "C29": ("TLA+ design model (Listing/Grammar) checked by TLC: names from the tree = names from the tokens, listing independent of order, junk never drops others; and trace checking: random definition files and specifications are listed by the real tool and every printed line is judged by the specification's own parser", 'definitions of up to five variables a file'),
 "C27": ('TLA+ model of the command line (Cli: a reader of arguments, one by one, checked by TLC over all short command lines) and trace checking: random command lines run the real tool in a process of its own, and all its files, headers, warnings and refusals are judged against the request the specification reads from the same arguments', 'in one process, or in two or three processes connected by pipes (the communicator asked for is compared); real MPI in few runs only'),
 "C30": ("design model MC_TimeAgg (all series of up to 38 monthly steps and axes of up to 4 cells, 61 and 6 in the thorough tier: every step is in exactly one interval, shares add up to one, consecutive bounds meet, results are linear and recovered by spreading) and trace specification Check_C30, which computes the value of every function from the specification alone, in conversions and in requests to the nodes of their data flows", "calendars without leap years only (what the functions are for); requests to nodes by slices"),
 "C25": ('design model MC_Chars (strings written in chunks of places and characters, inverted: those read back are the given ones) and trace specification Check_C25, which computes the outcome of each recorded conversion with character variables from the specification alone and compares it, character by character, with the files the real data flow wrote', 'random conversions with up to three character inputs and three character outputs, string lengths 1-7, ASCII; the string length anywhere but last, and single characters without dimensions, are not judged'),
 "C22": ("design model MC_MipSpec (lines character by character; definition files line by line, read in turn = looked up; the requested variables of two tables added in any order: each is in its table's specification with its own metadata and axes or reported, and the order is irrelevant) and trace specification Check_C22, which reads the same definition file, attribute files and tables and computes the whole expected content of every generated specification file and of the reports", 'tables in CMOR form (the route over the data request needs a package that is not installed); tables of distinct names; random file sets, up to three tables of five variables'),
 "C31": ('design model MC_Columns (every column of 2 levels, 3 in the thorough tier, every mask and depth: sums split over parts, means are of valid cells and within their range, the bottom layer is a level of the column, pieces partition the whole) and trace specification Check_C31/Columns: recorded results of the real functions, of whole fields and of parts, have to be those of the specification', 'functions in pyconform/modules/commonfunctions.py only; what has no documentation or needs missing packages is listed as not judged'),
 "C32": ('design model MC_Subgrid (two tiles over two cells of a map, of every place, kind, use, weight and value, changed one at a time: locality, idle tiles, order, means within their range, joining) and trace specification Check_C32/Subgrid: results of the real functions recorded from conversions and from requests to the nodes of their data flows, whole and in parts, have to be those computed from the specification alone', 'at most one vegetated and one crop land unit in use at a place (several are not judged); shares of tiles in a cell are binary fractions, as the functions weigh in single precision; the reference series of ages increases'),
}
