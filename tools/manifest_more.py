t("C08", "exhaustive enumeration of path strings x operations on a jailed tree, with a before/after snapshot of everything outside", "model_checking", "bounded exhaustive over the listed segments and depths; the jail is a scratch tree and the check runs unprivileged")
t("C09", "exhaustive enumeration of spellings x operations, against the plain spelling on the same tree", "model_checking", "bounded exhaustive over spelling rules and names; trusts path.Clean")
t("C10", "exhaustive fault enumeration: every truncation point and every single-character edit of encodings from a size ladder", "fault_enumeration", "complete for the stated edits of the listed payloads; other payloads only by size class")
t("C11", "explicit-state enumeration of in-memory file systems; every state serialised, re-hydrated and compared through all observers", "model_checking", "bounded exhaustive over trees, packages and content classes")
t("C16", "exhaustive enumeration of programs over a declaration grammar, parsed by the real parser, against the grammar's own record", "model_checking", "bounded exhaustive over contexts, argument forms, files and pairs")
PK = "bounded exhaustive over the stated trees and declaration sets; trusts filepath.Walk and os.Stat on the scratch tree, and the go command's package information"
t("C12", "exhaustive enumeration of trees x declaration sets; each is packed by the real code, loaded, and compared with the disk through every observer", "model_checking", PK)
t("C13", "exhaustive fault enumeration: every byte at which writing can fail, and every system call of the real command on its output and the declared files, killed or failing, with the older output present or not", "fault_enumeration", "complete for single and persistent faults at the listed calls of the stated layouts; crashes of the process, not of the machine; strace")
t("C14", "exhaustive enumeration of trees x declaration sets x permutations and repetitions, on the real parser and packer", "model_checking", PK)
t("C17", "exhaustive enumeration of programs: sequences of unresolvable and resolvable declarations, positions, directory and root names", "model_checking", "bounded exhaustive over forms, positions, sequences and names")
t("C18", "exhaustive enumeration of trees x declaration sets, against a walk of the disk", "model_checking", PK)
t("C19", "exhaustive enumeration of layer shapes (depths, kinds, failing layers) x operations x paths, against the rule applied to the layers one by one", "model_checking", "bounded exhaustive over the stated layer shapes, contents and paths")
t("C20", "exhaustive enumeration of operation histories through layer shapes, against the layers' own before/after states", "model_checking", "bounded exhaustive over the stated layer shapes, contents and histories")
SC = "bounded exhaustive over the stated scenarios and preemption bounds; scheduling points are statements that touch shared state, the real Go runtime executes them one at a time under the race detector (a second process without it goes deeper); weak-memory effects only as far as the race detector reports them"
t("C21", "stateless exploration of all thread interleavings of the real code up to a preemption bound, linearizability against a stack model", "model_checking", SC)
t("C22", "stateless exploration of all thread interleavings of the real code up to a preemption bound, answers compared with running alone", "model_checking", SC)
t("C23", "stateless exploration of all thread interleavings of the real code up to a preemption bound, against the set of all sequential orders", "model_checking", SC)
t("C24", "exhaustive enumeration of sites x servers x requests (and all pairs of requests), against the standard library's file server over the same tree", "model_checking", "bounded exhaustive over the stated parts, servers and requests; trusts net/http over http.Dir; backslashes and NUL in URLs aside")
t("C26", "exhaustive enumeration of file informations (times x zones, modes, names x sizes x system data), copied, serialised twice and compared", "model_checking", "bounded exhaustive over the stated values; zones within a day of UTC; names are valid UTF-8 (JSON)")
t("C28", "exhaustive enumeration of module shapes x declaration sets x includes x output and working directories x failing inputs, run with the real command, against a walk of the disk, the library and the loaded output", "model_checking", "bounded exhaustive over the stated configurations; trusts the go command")
t("C15", "exhaustive enumeration of program shapes x data sets x names x earlier outputs: each program is built, run, packed by the real command, built again and run without its sources, and the two runs' observations of every declared path compared", "model_checking", "bounded exhaustive over the stated shapes and data; trusts the go command; order of directory handles, walks of missing paths, and package-level initialisers that run before the output's are aside")
t("C25", "exhaustive enumeration of operation histories on the on-disk file system, handles, the directory type and HTTP servers, counting the process's descriptors; plus every single failing system call of each operation (strace)", "model_checking", "bounded exhaustive to the stated depth; one fault at a time; a failing close is not injected")
t("C27", "exhaustive enumeration of operations x package qualifiers x names over four modules that hold the same names, on disk and packed, against the operating system on each module's directory; histories of mutations against twin trees", "model_checking", "bounded exhaustive over the stated modules, names and histories; trusts the go command")
t("C29", "exhaustive enumeration of sequences of lookups, and stateless exploration of all orders of events of lookups at a time (a stand-in for the go command, with the real one's answers, is held and let go on by the explorer), each in a fresh process of the real package", "model_checking", "bounded exhaustive: sequences of two over all questions, of three over some; two and three lookups at a time; between go commands a lookup is not preempted; trusts the go command")
t("C30", "exhaustive enumeration of arguments (alone and in pairs) x working directories of the real stat and info commands against the operating system, and of directories x requests of the real serve command against the standard library's server", "model_checking", "bounded exhaustive over the stated ladders; serving is not looked at if port 3000 is taken; trusts the kernel's file system and net/http")
t("C31", "stateless exploration of all thread interleavings of the real code on a real scratch directory up to a preemption bound, answers and final tree compared with running one after the other", "model_checking", SC + "; the go command is replaced by a table of packages; system calls are not preempted")
