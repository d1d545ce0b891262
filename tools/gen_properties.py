#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})

MEM = ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go"]
OS_ = ["pkging/stdos/stdos.go", "pkging/stdos/file.go"]

p("C01", "Files read back exactly what was last written, after any history",
  "After any history of directory creations, file creations (create, write, close) and removals, opening an existing file yields exactly the bytes of its last completed create-write-close, and its metadata reports that length, the path's base name, and whether it is a file or a directory (also in the mode bits). Opening or statting a path that does not exist fails with an error that means 'does not exist'. This holds for the in-memory and the on-disk file system, whatever the size of the file and however the writes were split.",
  ["histories", "inputs"], "all operation histories over a small name universe (prefix-sharing, nested names) and all sizes/splits of a boundary ladder",
  "Tests create one file with one write and read it once; no test writes in pieces, rewrites, interleaves several paths, reads an empty file or looks at a missing path's error.",
  MEM + OS_, [("Create/Write/Close publish the written buffer", "pkging/mem/file.go Close"), ("Open copies the stored entry", "pkging/mem/mem.go Open")],
  ["Create", "Write", "Close", "Open", "Read", "Stat"], [("files", "path -> stored file", "pkging/mem/mem.go Pkger.files")])

p("C02", "Creating directories or files never destroys an existing entry",
  "Creating a directory with parents creates exactly the directory and its missing ancestors, in the package the path names, and changes nothing when the directory already exists. It fails, changing nothing, when the path or one of its ancestors is a file. Creating a file fails, changing nothing, when its parent directory is missing or is a file, or when the path is a directory.",
  ["histories"], "all histories of directory/file creations and removals over nested, colliding names, in memory and on disk, with one and with several packages",
  "Tests call MkdirAll once on a fresh path and Create once in the root; collisions with existing files and directories are never tried.",
  MEM + OS_, [("MkdirAll recursion over parents", "pkging/mem/mem.go MkdirAll"), ("parent check in Create", "pkging/mem/mem.go Create")],
  ["MkdirAll", "Create", "Stat", "Walk"])

p("C03", "Removal deletes exactly its target, and nothing else",
  "Removing a path deletes that file or empty directory only; it fails and changes nothing if the path is missing or is a directory that is not empty. Recursive removal deletes exactly the path and everything beneath it in the same package, and succeeds without effect when there is nothing there (beneath a file it may also fail, again without effect). Entries whose names merely share a prefix with the target, and entries of other packages, are never affected.",
  ["histories"], "all histories over names that share prefixes, nested trees and two packages, in memory and on disk",
  "Tests remove one file and one leaf directory in an otherwise empty tree; no test checks that anything else survives.",
  MEM + OS_, [("prefix match in RemoveAll", "pkging/mem/mem.go RemoveAll"), ("Remove", "pkging/mem/mem.go Remove")],
  ["Remove", "RemoveAll", "Stat", "Open", "Walk"])

p("C04", "Walk visits exactly the subtree, once each, in file-tree order",
  "Walking a directory that exists calls back for it and for each of its descendants exactly once and for nothing else, with the entry's package-qualified path and true file information, a directory before its contents and siblings in lexical order, just as the standard library walks the same tree on disk. Returning SkipDir prunes exactly that directory's subtree (or, for a file, the rest of its directory), and any other error stops the walk at once and is returned.",
  ["histories", "inputs"], "all small trees over order-sensitive names (characters below and above '/'), every walk root in them, every callback position answering SkipDir or an error; in memory and on disk",
  "Tests walk two fixed trees to the end; no name in them sorts differently as a string than as a path, shares a prefix with a sibling, and no callback ever prunes or fails.",
  MEM + OS_, [("sorted key iteration and skip prefix", "pkging/mem/mem.go Walk"), ("filepath.Walk wrapper", "pkging/stdos/stdos.go Walk")],
  ["Walk callback sequence", "Walk result"])

p("C05", "Open handles are independent cursors over a fixed content",
  "Each handle obtained by opening a file in memory behaves like its own cursor over the bytes the file had when it was opened: every sequence of reads and seeks returns the bytes, offsets and end-of-file condition that a constant byte string would, for empty files too. No read, seek, write or close on another handle, and no later change to the file system, influences it, and writing to a handle that was opened for reading never changes the stored file. A read-only handle on disk gives the same answers as long as the file is not modified.",
  ["histories"], "all interleavings of reads (several sizes), seeks (all whences, negative, past the end) and closes on up to three handles, mixed with rewrites and removals of the same file",
  "One test seeks and reads one handle to one non-empty file; no test has two handles, an empty file, or a change underneath a handle.",
  ["pkging/mem/file.go", "pkging/mem/mem.go", "pkging/stdos/file.go"], [("lazy bytes.Reader over f.data", "pkging/mem/file.go Read/Seek"), ("Open makes a fresh File", "pkging/mem/mem.go Open")],
  ["Read", "Seek", "Stat on a handle"], [("reader", "cursor of a handle", "pkging/mem/file.go File.reader")])

p("C06", "Reading a directory lists its direct children, paged like os",
  "Reading a directory through a handle yields every direct child exactly once, with its true file information, and nothing else: no deeper entries, no siblings that share a name prefix, not the directory itself. With a positive count successive calls on the handle return at most that many further entries and, once all were delivered, an empty result with io.EOF; with a count of zero or less the remaining entries are returned with no error.",
  ["histories", "inputs"], "all small trees over prefix-sharing names, every directory, every sequence of counts up to a bound, on handles opened by path and through another handle; in memory and on disk",
  "No test calls Readdir directly; it is only reached through one HTTP directory listing with count -1.",
  ["pkging/mem/file.go", "pkging/stdos/file.go"], [("Readdir via Walk and SkipDir", "pkging/mem/file.go Readdir")],
  ["Readdir"])

p("C07", "The in-memory and the on-disk file system agree step by step",
  "Any history of operations (create and write, make directories, remove, remove recursively, open, stat, read, list, walk) applied to an empty in-memory file system and to an empty module directory on disk gives, step by step, the same success or failure, and the same observable tree: paths, kinds, names, sizes, permission bits and contents. Walking a path that does not exist is not compared. Programs therefore behave the same before and after their files are embedded.",
  ["histories"], "all operation histories to a depth bound over colliding names and alternative path spellings, run on both implementations side by side",
  "Both implementations run the same ten example tests, each on a fresh tree; no test compares them after a history.",
  MEM + OS_, [("both implement pkging.Pkger", "pkging/pkger.go")],
  ["every Pkger and File method"])

p("C08", "No path reaches outside the module (or served directory)",
  "Whatever string is given as a path, an operation of the on-disk file system on a package never reads, creates, lists or removes anything outside that package's module directory. Opening a name through a directory handle (as an HTTP file server does) never yields anything outside that directory. Dot-dot segments, doubled separators, backslashes and package qualifiers do not change this.",
  ["inputs"], "all path strings up to a length bound over an alphabet of separators, dots, backslashes, colons and names, for every operation, through the file system and through directory handles",
  "Tests only use well-formed paths; none contains '..' or a backslash.",
  OS_ + ["pkging/mem/file.go"], [("path parsing and joining with the module directory", "pkging/stdos/stdos.go")],
  ["Open", "Stat", "Create", "MkdirAll", "Remove", "RemoveAll", "Walk", "File.Open"])

p("C09", "All spellings of a path denote the same file; parsing is canonical",
  "A location may be written with or without its package qualifier, with an empty qualifier, as an absolute path below the module directory, and with redundant slashes, dot segments, backslashes or a trailing slash: every operation treats all these spellings alike, and a handle reports the same qualified name. A parsed path is canonical: its name is absolute and clean, and printing it and parsing it again gives the same path (for every qualifier that is a plain import path).",
  ["inputs"], "all strings up to a length bound over the path alphabet, and all (operation, location, spelling) combinations on both file systems",
  "Tests parse one path and use two spellings in passing; equivalence of spellings is never stated.",
  ["here/here.go"] + MEM + OS_, [("Parse", "pkging/mem/mem.go Parse, pkging/stdos/stdos.go Parse")],
  ["Parse", "Path.String", "every operation taking a path"])

p("C10", "The embed codec is lossless and never yields wrong data",
  "Decoding an encoded byte string gives back exactly that byte string, for every input. Decoding an encoding that was cut off anywhere, or in which one character was changed, lost, inserted, doubled or swapped with its neighbour, either fails with an error or still gives back the original bytes; it never panics and never silently yields different or shorter data. Loading an embedded file system from a damaged text fails likewise.",
  ["inputs", "fault_sequences"], "all byte strings up to a length bound over a small alphabet plus a size ladder; for several payloads every truncation point and every single-character substitution, deletion and duplication",
  "One test encodes three bytes and decodes them; damage is never tried.",
  ["pkging/embed/embed.go", "pkging/mem/embed.go"], [("hex and gzip with checksum", "pkging/embed/embed.go Encode/Decode")],
  ["Encode", "Decode", "UnmarshalEmbed"])

p("C11", "Serialising and re-hydrating an in-memory file system loses nothing",
  "Serialising any in-memory file system and re-hydrating it gives a file system that is observationally the same: current module, known packages, and for every path of every package the kind, name, size, mode, modification time, contents, listing and walk. Re-hydrating is stable (a second round trip gives identical bytes), and the copy and the original do not influence each other afterwards.",
  ["histories", "inputs"], "all reachable small file systems (all histories to a bound, several packages), all modes of a list, a ladder of names (spaces, unicode, dots, percent) and sizes",
  "One test re-hydrates the fixture tree once and opens, walks and stats a few paths of it.",
  ["pkging/mem/embed.go", "pkging/embed/embed.go", "pkging/embed/file.go", "pkging/file_info.go", "pkging/mod_time.go"], [("MarshalJSON/UnmarshalJSON", "pkging/mem/embed.go")],
  ["MarshalJSON", "UnmarshalJSON", "UnmarshalEmbed"])

p("C12", "Everything listed for packing is embedded under its own path, intact",
  "For every set of declared files and directories, of the current module or of another module, packing embeds each listed file (except names that end in .tmp) and directory so that the packed file system opens it under the same package-qualified path, with the same bytes, size, mode, modification time and kind as on disk. Packing embeds nothing that is neither listed nor beneath a listed directory, and packed directories list and walk the same entries as on disk.",
  ["configurations", "inputs"], "all subsets of a menu of declarations over a file tree (nested directories, empty files, prefix-sharing and unusual names, a second module, directories of another module), and a size ladder",
  "One test packs one fixture and opens a few of the files; files of other modules are listed but never opened from the packed result.",
  ["pkging/pkgutil/stuff.go", "pkging/mem/add.go", "parser/decl.go"], [("Stuff adds every declared file", "pkging/pkgutil/stuff.go Stuff"), ("Add copies files and walks directories", "pkging/mem/add.go Add")],
  ["pkgutil.Stuff", "mem.UnmarshalEmbed", "Open/Stat/Walk on the packed file system"])

p("C13", "A failed or interrupted pack never passes for a complete one",
  "If writing the packed output fails at any point, packing reports an error. At every point of a pack, including a crash or a failure at any write, the output file is either absent, or a complete, loadable result; a partial file is never left under the output name. A later pack run succeeds and gives the same result as if nothing had happened.",
  ["fault_sequences", "crash_points"], "every byte offset (in-process writer) and every file size limit at which a write fails, every failing declaration, and every file-system call of the real command at which the process is killed",
  "No test makes a write fail, and the command has no tests at all.",
  ["cmd/pkger/cmds/pack.go", "pkging/pkgutil/stuff.go"], [("Package writes pkged.go", "cmd/pkger/cmds/pack.go Package"), ("Stuff writes the encoded data", "pkging/pkgutil/stuff.go Stuff")],
  ["exit status / returned error", "the output file"])

p("C14", "The packed result depends only on the tree, not on order or repetition",
  "Packing the same unchanged tree again gives byte-identical output. The set of listed files does not depend on the order in which declarations are found, nor on declaring the same file more than once or through overlapping directories; each listed file appears once, sorted by its qualified path.",
  ["inputs", "configurations"], "all permutations and duplications of declaration lists up to a bound, overlapping directories, and repeated parse-and-pack runs under randomised map iteration",
  "Tests compare only counts of one run.",
  ["parser/decl.go", "parser/parser.go", "pkging/pkgutil/stuff.go", "pkging/mem/embed.go"], [("deduplication by absolute path and sort", "parser/decl.go Files")],
  ["parser.Decls.Files", "pkgutil.Stuff output"])

p("C15", "A packed program behaves as the unpacked one, without the source tree",
  "For every supported module layout, a program built after packing opens, stats, reads, lists and walks all its declared files with the same results as the unpacked program run in its source tree, even if the source tree is gone. This includes declarations in sub-packages, files of other modules, empty files, command-line includes, and an output directory other than the module root.",
  ["configurations"], "an enumerated family of module layouts (root package or none, sub-packages, other modules, output directory, includes) times all declared paths",
  "No test builds and runs a packed program.",
  ["cmd/pkger/cmds/pack.go", "pkger.go", "apply.go", "pkging/mem/embed.go", "pkging/mem/add.go"], [("generated Apply call", "cmd/pkger/cmds/pack.go Package"), ("Apply/impl", "apply.go, pkger.go")],
  ["output of the built program"])

p("C16", "Every static declaration is found, wherever it stands",
  "Every call in the module's Go sources of one of the declaring functions (Open, Stat, Walk, Dir, Include, Create, MkdirAll of the pkger package) (under the package's own name) whose path is a string literal, or a constant that the same file defines by a string literal, is reported exactly once, with its kind, its path value, the file it denotes and its source position, regardless of the statement or expression it is nested in, the source file or sub-directory it is in, and what other declarations surround it. Nothing else is reported.",
  ["programs"], "all programs from a grammar: declaration kind x argument form x syntactic context x source file/directory, alone and in pairs (nested, adjacent, across files)",
  "One fixture with eleven declarations in plain statements is parsed, and only counts are compared.",
  ["parser/source.go", "parser/parser.go"], [("AST walk matching pkger.X(...)", "parser/source.go parse"), ("directory walk", "parser/parser.go parse")],
  ["parser.Parse", "Decl.File/Position/Value", "pkger parse"])

p("C17", "The parser survives every valid source and never loses its neighbours",
  "Parsing any module whose Go files are syntactically valid never panics: a declaration whose path cannot be determined (a variable, a call, a constant of another file, an omitted constant value) is left out, and never hides another declaration that can be determined, even one nested inside it. Only directories that are hidden, start with an underscore, or are named vendor, node_modules or testdata are ignored, whatever the module's own root directory is called.",
  ["programs", "configurations"], "all combinations of an unresolvable argument form with a resolvable declaration before, after, inside and in another file; a ladder of directory names as sub-directory and as module root",
  "Tests have no unresolvable declaration and one ignored directory.",
  ["parser/source.go", "parser/parser.go"], [("valueIdent / value", "parser/source.go"), ("ignored folders", "parser/parser.go defaultIgnoredFolders")],
  ["parser.Parse"])

p("C18", "Declared paths expand to exactly the files and directories they denote",
  "The files listed for a set of declarations are exactly the declared files, and the declared directories with all their descendants, each once, with its absolute location on disk and with a package-qualified path that denotes that location. A declared path that does not exist is an error, unless the program itself creates that path (Create or MkdirAll), in which case it is not required; nothing else is left out.",
  ["configurations", "inputs"], "all small file trees x all declaration sets of a menu (file, directory, root, overlapping, missing, created at run time, other module, nested module)",
  "One fixture, compared by count.",
  ["parser/decl.go", "parser/walk.go", "parser/open.go", "parser/include.go"], [("WalkDecl.Files", "parser/walk.go"), ("virtual paths", "parser/decl.go Files")],
  ["parser.Decls.Files", "pkger list"])

p("C19", "Layered file systems answer reads from the topmost layer that can",
  "When file systems are layered, parsing, package information, open and stat are answered by the topmost layer that answers without error, and by its answer alone; only if every layer fails is an error reported. Walking visits the entries of every layer, top to bottom, and a callback error stops the whole walk. A layer beneath is reached through any number of layers.",
  ["configurations", "histories"], "all stacks of up to three layers x all combinations of per-layer success/failure for every method, and all small contents of two real layers",
  "Layering is only exercised with a single layer in one disabled test.",
  ["pkging/wrap.go", "apply.go"], [("Wrap", "pkging/wrap.go withPkger")],
  ["Wrap(...).Parse/Current/Info/Open/Stat/Walk"])

p("C20", "Changes through layers take effect and report truthfully",
  "A file created through layered file systems is created in the topmost layer that accepts it, and can be opened, statted and removed through the same layering; where an upper layer holds the path but does not accept the creation, creating fails, for the new file could not be reached. A directory is created in every layer. Removing a path that exists in at least one layer succeeds and makes it unreachable, recursive removal removes it from every layer, and an operation reports success only if it took effect.",
  ["histories", "configurations"], "all histories of creations and removals on stacks of up to three layers with all combinations of initial contents and failing layers",
  "No test changes anything through a layering.",
  ["pkging/wrap.go"], [("Create/MkdirAll/Remove/RemoveAll of withPkger", "pkging/wrap.go")],
  ["Wrap(...).Create/MkdirAll/Remove/RemoveAll"])

p("C21", "Installing layers is atomic and loses none, under any schedule",
  "When several goroutines install file systems while others use the global functions, every installed layer is in effect once its installation has returned, no installation is lost, and every global call sees either none or all of an installation. Installing never deadlocks or races with use. Installing a file system that failed to load panics and leaves the installed layers as they were.",
  ["schedules"], "all interleavings (to a preemption bound, at statement granularity) of 2-3 goroutines installing and using layers",
  "The test file for this is empty; nothing runs concurrently.",
  ["apply.go", "pkger.go"], [("global RW lock", "apply.go Apply, pkger.go impl")],
  ["Apply", "Open", "Stat"], [("current", "the installed layering", "pkger.go current")])

p("C22", "Concurrent readers of an embedded file system do not disturb each other",
  "Any number of goroutines may open, stat, read, seek, list and walk the same in-memory (embedded) file system at once: each gets exactly the answers it would get alone, and there is no data race or deadlock. Handles opened separately share no state, also when they are opened through the same directory handle, as an HTTP file server does.",
  ["schedules"], "all interleavings (to a preemption bound, at statement granularity) of 2-3 reader goroutines over shared and distinct paths and a shared directory handle, with a happens-before race check on every schedule",
  "Tests run subtests in parallel but each on its own file system.",
  ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go", "internal/maps/infos.go"], [("sync.Map of immutable entries", "internal/maps/files.go"), ("Open copies", "pkging/mem/mem.go Open")],
  ["Open", "Read", "Seek", "Readdir", "Walk", "File.Open"], [("files", "path -> file", "pkging/mem/mem.go")])

p("C23", "Concurrent changes lose no file and expose no torn one",
  "When goroutines create, write and close files, make directories and remove entries at different paths of the same in-memory file system while others read it, no completed change is lost, and the final state is that of performing the changes one after the other, also for the very first operations on a new file system. A concurrent reader sees each file absent, empty, or with a complete published content, with a size in its metadata that matches; there is no data race or deadlock.",
  ["schedules"], "all interleavings (to a preemption bound, at statement granularity) of 2-3 goroutines writing at different paths and reading, from a new and from a populated file system, with a happens-before race check on every schedule",
  "No test changes one file system from two goroutines.",
  ["pkging/mem/mem.go", "pkging/mem/file.go", "internal/maps/files.go"], [("sync.Map", "internal/maps/files.go Data"), ("Close publishes", "pkging/mem/file.go Close")],
  ["Create", "Write", "Close", "MkdirAll", "Remove", "Open", "Stat", "Walk"])

p("C24", "Serving files over HTTP gives the same responses as serving from disk",
  "An HTTP file server over a directory opened from the in-memory or on-disk file system, or over the declared-directory type, answers every GET, HEAD and range request with the same status, headers that matter (content type, length, range, redirect location, modification time) and body as the standard library's file server over the same tree on disk. This includes empty files, nested directories, index pages, listings, entries that carry the same name as the served directory, and missing paths.",
  ["inputs", "configurations"], "all request paths of a bounded grammar x methods x range headers, for all served directories of a family of trees, on both implementations",
  "Four GET requests on one fixture tree compare status and body.",
  ["pkging/mem/file.go", "pkging/stdos/file.go", "pkger.go"], [("File.Open as http.FileSystem", "pkging/mem/file.go Open, pkging/stdos/file.go Open"), ("Dir.Open", "pkger.go Dir")],
  ["http.FileServer responses"])

p("C25", "Closing every returned handle leaves no descriptor open",
  "After any sequence of operations on the on-disk file system, through handles, the declared-directory type or an HTTP file server, and whether the operations succeed or fail, no file descriptor stays open once the handles that were returned have been closed. Operations that return no handle leave none open.",
  ["histories", "fault_sequences"], "all operation sequences to a bound, each followed by closing the returned handles and counting descriptors, including failing operations and HTTP requests",
  "No test counts descriptors.",
  OS_ + ["pkger.go"], [("Dir.Open", "pkger.go"), ("Open/Create", "pkging/stdos/stdos.go")],
  ["open descriptors of the process"])

p("C26", "File metadata survives copying and serialisation",
  "Copying file information preserves name, size, mode, modification time, kind and system data, and the copy no longer changes with its source. Serialising file information and reading it back preserves name, size, mode, kind and the modification time to the nanosecond, for every representable time and zone.",
  ["inputs"], "the product of boundary ladders for names, sizes, modes and times (nanoseconds, zones, years 0-9999)",
  "Two tests compare one file's information and one time to the second.",
  ["pkging/file_info.go", "pkging/mod_time.go"], [("NewFileInfo", "pkging/file_info.go"), ("ModTime JSON", "pkging/mod_time.go")],
  ["NewFileInfo", "JSON of FileInfo and ModTime"])

p("C27", "Paths of another package reach that package, on disk and packed",
  "A path qualified with another module of the build denotes, for every operation, the file of that module: opening, statting, reading, walking, listing and serving it works on the other module's directory, never on a file of the same name in the current module, and handles opened through such a directory stay in that package. Unqualified paths denote the current module, and an unknown package is an error (in memory, removing all of nothing, or walking nothing, need not be one).",
  ["inputs", "histories"], "all operations x paths that exist in both, either or none of the modules, directly and through directory handles, on disk and packed",
  "One fixture stats one file of another package while listing; no operation is run on it.",
  OS_ + MEM, [("Info lookup per package", "pkging/stdos/stdos.go Info"), ("File.Open", "pkging/stdos/file.go Open, pkging/mem/file.go Open")],
  ["every operation on 'pkg:/path'"])

p("C28", "The command-line reports agree with what gets packed",
  "For every module layout and set of includes, 'list' names exactly the files that a pack of the same tree embeds or that lie in its embedded directories, in plain and in JSON form, and 'parse' and 'path' report the same declarations and paths as the library. Packing writes the output only to the requested directory, as a Go file with that directory's package name, leaves every other file alone, and reports an error and a failing exit status, without output, when a declaration or include does not exist, its package is unknown, or an argument is unknown.",
  ["configurations", "inputs"], "an enumerated family of module layouts x includes x output directories x failing inputs, run with the real command",
  "The command has no tests.",
  ["cmd/pkger/main.go", "cmd/pkger/cmds/pack.go", "cmd/pkger/cmds/list.go", "cmd/pkger/cmds/parse.go"], [("listCmd/packCmd/parseCmd", "cmd/pkger/cmds")],
  ["exit status, standard output, output file"])

p("C29", "Looking up directories and packages is right, whatever else is looked up",
  "What the package 'here' says of a directory (its path, its package's name, import path and Go files, and the path and directory of its module), of a package of the build, and of the current module, is true of exactly that directory or package: directories of the same name in different modules, directories without Go files, with test or excluded files only, or with files of two packages, nested modules and modules without a package in their root are told apart. The answer does not depend on what was looked up before, on the working directory (for absolute directories), or on a change of it since, nor on lookups at the same time; and no lookup changes the working directory of the program, not even while it runs. Incidental details (how it was matched, imports, staleness) are not covered, nor packages looked up after moving into another module.",
  ["histories", "schedules"], "all sequences of lookups to a depth from several working directories, and all orders of the events (starts of lookups, ends of the go commands they run) of two or three lookups at a time",
  "No test asks twice, from another directory, or at the same time.",
  ["here/here.go"], [("dir, pkg, current", "here/here.go")], ["here.Dir", "here.Package", "here.Current", "working directory"])

p("C30", "The inspecting commands show exactly what is there",
  "'stat' prints, for each argument in turn (by default the module's root), the file's information, or that of every entry of the directory, each once: names, sizes of files, modes, times and kinds as the operating system has them, whatever spelling the path has and whatever working directory in the module the command runs in. 'info' prints directory, import path and module of each package asked for (by default, and for '.', the current module's). 'serve' answers every GET request for what lies in the directory (by default the module's root), and for what does not, as the standard library's server over that directory does. Each fails with a message and a failing exit status if something asked for does not exist or its package is unknown. They change nothing (go.mod and go.sum aside, which the go command may tidy).",
  ["inputs", "configurations"], "a ladder of spelled paths and packages, all of them, all pairs of some, from several working directories; every directory served x a ladder of requests and ranges",
  "The commands have no tests.",
  ["cmd/pkger/cmds/stat.go", "cmd/pkger/cmds/info.go", "cmd/pkger/cmds/serve.go", "cmd/pkger/main.go", "pkging/file_info.go"], [("statCmd, infoCmd, serveCmd", "cmd/pkger/cmds")],
  ["standard output", "exit status", "HTTP on port 3000"])

p("C31", "Goroutines use the on-disk file system at once without interference",
  "Any number of goroutines may use the same on-disk file system at once, directly, through directory handles that they share, through the declared-directory type or an HTTP file server, and for packages that were not looked up before: opening, statting, reading, seeking, listing, walking and parsing what nobody changes answers exactly what it answers alone, and creations and removals at different paths leave what they leave when performed one after the other. Nobody ever gets a file of another package than the one asked for. There is no data race or deadlock, and no descriptor stays open once the returned handles are closed.",
  ["schedules"], "all interleavings (to a preemption bound, at statement granularity) of 2-3 goroutines on a fresh on-disk file system: all pairs of 27 operations, changes at different paths, first lookups of another package; with a happens-before race check on every schedule",
  "Nothing runs concurrently on the on-disk file system in any test.",
  ["pkging/stdos/stdos.go", "pkging/stdos/file.go", "internal/maps/infos.go", "pkger.go"], [("the cache of packages", "pkging/stdos/stdos.go Info"), ("File.Open", "pkging/stdos/file.go")],
  ["Open", "Stat", "Walk", "Create", "MkdirAll", "Remove", "RemoveAll", "Info", "File.Open", "pkger.Dir"], [("infos", "package -> directory", "pkging/stdos/stdos.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
