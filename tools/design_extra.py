RESULTS = {}
DETAIL = {
"C01": "The denotation (Denote, Flow) is total: it gives a value, a refusal or, where the documentation is silent, a set. A definition without value has to end in a refusal or a skip; files with numbers are a violation (clause never_numbers).",
"C02": "Every chunking of one conversion must give bit-identical files to the unchunked run, besides being judged itself.",
"C03": "Three layers: the pure index functions, arrays with named dimensions, and reads from real files through a definition's index followed by a request.",
"C07": "State before and after covers all live registers including views; repeated executions and requests are compared bit by bit with those of fresh graphs.",
"C12": "The closure is the least fixpoint (MC_Files shows it confluent: order of additions does not matter), computed from the record's specification and compared with description and files.",
"C14": "A simulated communicator runs ranks as threads under a random scheduler (events recorded), real processes run under mpirun; hash seeds differ between ranks, so that iteration over sets differs.",
"C15": "Operations are recorded by a preloaded library at the C library (lib/shim/fsshim.c: names, inodes, writes, closes, renames); every prefix of the operations is a crash point, checked by FileSys; kills and failing operations are injected at random points.",
"C19": "Metamorphic pairs: the specification says which files are common, both runs are judged, and the common files are compared bit by bit.",
"C20": "Only records can judge which variable is meant, so the specification computes candidate sets by rule (explicit, by name, by units, standard name, axis).",
"C27": "The request the specification reads from the arguments is executed by the specification (Flow, Header) and compared with the files of the real tool, run in one or several processes of its own (linked by pipes; one that fails ends the others).",
}
