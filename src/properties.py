#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech],
        observe_at=list(observe), hook_needed=None)))

prop("C01", "Arena memory stays valid, disjoint, in bounds and aligned",
 "Every piece of memory the arena hands out lies completely inside one block the arena owns, never overlaps another piece it handed out, and is aligned for any ordinary object type. It stays allocated and is never handed out again until the arena itself is destroyed, whatever the sequence and sizes of the requests.",
 ["histories", "inputs"], "every sequence of allocation requests of any sizes, any configured block size",
 "The one stable test makes a few small requests from one large block; the guarantee is about every request sequence, including requests larger than the rest of the block or than the block size.",
 ["bant/util/arena.h"],
 [("bump allocation guarded by a remaining-space test, oversized requests get their own block", "bant/util/arena.h Arena::Alloc, Arena::NewBlock")],
 [("pos_/end_", "next free byte and one past the end of the newest block", "bant/util/arena.h"), ("blocks_", "owner of every block", "bant/util/arena.h")],
 ["pointer returned by Arena::Alloc / Arena::New"])

prop("C02", "Arena container keeps every element in place, counted and reachable",
 "Each element appended to the arena container gets a slot of its own inside memory reserved for it, and its address never changes afterwards. Indexing and iteration visit exactly the appended elements, in the order they were appended, and the reported size is the number of appends, for every element type, block-size configuration and element count.",
 ["histories", "configurations"], "every number of appends, every element type and every (min, max) block-size pair",
 "The test appends a fixed number of integers with two configurations; agreement of writer, indexing and iterator about block sizes must hold for all of them.",
 ["bant/util/arena-container.h"],
 [("one shared block-size progression used by append, indexing and iterator", "bant/util/arena-container.h ArenaDeque"),
  ("block allocation computed from the new block's capacity", "bant/util/arena-container.h ArenaDeque::Append")],
 [("next_block_pos_", "number of used slots in the newest block", "bant/util/arena-container.h"), ("block_size_", "capacity of the newest block", "bant/util/arena-container.h"), ("size_", "number of elements", "bant/util/arena-container.h")],
 ["ArenaDeque::Append, operator[], begin/end, size"])

prop("C03", "Nothing placed in an arena ever needs its destructor run",
 "Every type of object that is constructed in arena memory, including all its members and base classes and the elements of arena containers, has a destructor that does nothing. Consequently destroying an arena, which runs no destructors, never leaks a resource or skips an observable action.",
 ["programs"], "every object type the program constructs in arena memory",
 "A leak of an owning member of a syntax-tree node is invisible to functional tests.",
 ["bant/util/arena.h", "bant/util/arena-container.h", "bant/frontend/ast.h", "bant/frontend/parsed-project.cc", "bant/frontend/source-locator.h"],
 [("arena placement construction without destruction", "bant/util/arena.h Arena::New, bant/util/arena-container.h")])

prop("C04", "Every tree walk reaches every child of every syntax-tree node",
 "The generic read-only walk, the generic rewriting walk and the printing walk over syntax trees each descend into every child expression that a node can hold, for every kind of node, and the rewriting walk stores each replacement back into the child it came from (the name of a called function, and when rewriting what an assignment assigns to, are parts of the node rather than expressions). Each kind of node dispatches a visitor to the handler made for that kind, and the typed casts give a node exactly for its own kinds.",
 ["inputs", "programs"], "every syntax tree, every kind of node, every visitor",
 "Tests exercise a few expressions; a child kind that one walk skips only shows up for inputs containing it below that node.",
 ["bant/frontend/ast.h", "bant/frontend/ast.cc", "bant/frontend/print-visitor.cc", "bant/frontend/print-visitor.h"],
 [("visitor double dispatch; WalkNonNull / ReplaceWalk", "bant/frontend/ast.h")])

prop("C05", "Parsing terminates: every loop and recursion consumes input",
 "Parsing any byte sequence terminates: whenever the parser goes around a loop or re-enters a grammar rule it has consumed at least one more token in between, or it stops at the end of input or after an error.",
 ["inputs"], "every byte sequence given as a BUILD file",
 "A hang needs one specific malformed input; tests contain a few dozen mostly well-formed snippets.",
 ["bant/frontend/parser.cc", "bant/frontend/scanner.cc"],
 [("token consumption in every loop and before every recursive grammar rule", "bant/frontend/parser.cc")])

prop("C06", "Tokenising never reads or yields text outside the content",
 "For every byte sequence the tokeniser only ever reads bytes inside the content it was given, every token's text is a sub-range of that content, and each request for a token either moves forward in the content or reports the end of file, which it keeps reporting from then on.",
 ["inputs"], "every byte sequence, including ones ending inside a token, string, escape or operator",
 "An over-read by one byte at the end of content is only visible on inputs that end at that spot, and usually not even then.",
 ["bant/frontend/scanner.cc", "bant/frontend/scanner.h"],
 [("end-of-content test before every read", "bant/frontend/scanner.cc")],
 [("pos_/end_", "current and end position in content", "bant/frontend/scanner.h")])

prop("C07", "Every newline the tokeniser passes is recorded in the line index",
 "Every newline character the tokeniser moves past, wherever it occurs (between tokens, in comments, inside strings or inside multi-word operators), is recorded exactly once in the line index, with the position just after it. Hence the line and column reported for any text of a scanned file are right.",
 ["inputs"], "every byte sequence; newlines in every lexical context",
 "Tests check locations for a few inputs; each lexical context that skips characters has to record newlines on its own.",
 ["bant/frontend/scanner.cc", "bant/frontend/linecolumn-map.cc", "bant/frontend/linecolumn-map.h"],
 [("line index updated by each routine that skips characters", "bant/frontend/scanner.cc")])

prop("C08", "Incomplete syntax trees are never dereferenced blindly",
 "A BUILD file with syntax errors yields a tree in which sub-expressions may be missing; no part of the program that consumes trees dereferences a possibly missing sub-expression without first checking that it is there, nor treats a node as another kind of node than it is. Malformed files therefore lead to messages and partial results, never to a crash.",
 ["inputs", "programs"], "every malformed or unusual BUILD file, every command that consumes the tree",
 "Needs a malformed expression in the specific place and a command that looks there.",
 ["bant/frontend/parser.cc", "bant/frontend/elaboration.cc", "bant/frontend/ast.h", "bant/frontend/ast.cc", "bant/explore/query-utils.cc", "bant/tool/dwyu.cc", "bant/frontend/print-visitor.cc"],
 [("null tests before use; typed down-casts that return null", "bant/frontend/ast.h CastAs*, WalkNonNull")])

prop("C09", "Every parse error is reported and makes the file count as faulty",
 "Whenever the parser gives up on a construct because of unexpected input it writes a message naming the location and remembers the error, and no path clears a remembered error. A file that failed to parse is recorded with its error text and counted in the project's error count.",
 ["inputs"], "every malformed input and every place the parser can give up",
 "Each way of giving up is a separate path; tests take a few.",
 ["bant/frontend/parser.cc", "bant/frontend/parsed-project.cc", "bant/frontend/parser.h"],
 [("single error-reporting routine that sets the error flag", "bant/frontend/parser.cc"), ("error count updated when a parsed file is stored", "bant/frontend/parsed-project.cc")])

prop("C10", "A dependency is removed only with complete knowledge",
 "A removal of a dependency is only ever proposed when every header included by every source of the target has been accounted for, the dependency is known not to be linked unconditionally for its side effects (an unknown dependency counts as such), and its line carries no request to keep it unless the user asked to ignore those. Any source that could not be read and any include whose provider is unknown suppresses all removals for that target.",
 ["inputs", "configurations", "fault_sequences"], "every project, every unreadable or generated source, every unknown include, every flag combination",
 "Each way of losing knowledge (unreadable source, generated source, ambiguous or unknown header) is a separate path that must suppress removal.",
 ["bant/tool/dwyu.cc", "bant/tool/dwyu-internal.h"],
 [("all-headers-accounted-for flag cleared on each loss of knowledge, tested before a removal", "bant/tool/dwyu.cc")])

prop("C11", "A dependency is added only if visible, allowed and unambiguous",
 "An addition of a dependency is only ever proposed when the proposed target is visible from the package that would use it, the test-only restriction permits it, and it is the single remaining choice among the known providers. A target is never proposed as its own dependency.",
 ["inputs", "configurations"], "every project, visibility declaration, test-only marking and set of alternative providers",
 "Visibility, test-only and alternatives combine; tests cover a few combinations.",
 ["bant/tool/dwyu.cc"],
 [("visibility and test-only tests guarding the add edit", "bant/tool/dwyu.cc")])

prop("C12", "Every command, option, format and token kind is handled",
 "Every command, output format, edit request, list kind and token kind the program knows about is given handling of its own wherever the program turns kinds into effects or text, every kind that can be chosen by name has an unmistakable name, and every option letter that is handled or documented is accepted on the command line and has an effect. Commands documented to print a table or to follow dependencies with -r do so, and keywords print as they are spelled. No known kind falls silently into a do-nothing or wrong default.",
 ["inputs", "configurations"], "every enumerator of every program-defined kind and every place that distinguishes them",
 "Nothing tests the command line; a forgotten enumerator compiles.",
 ["bant/cli-commands.cc", "bant/bant.cc", "bant/util/table-printer.cc", "bant/util/glob-match-builder.cc", "bant/tool/edit-callback.cc", "bant/frontend/print-visitor.cc", "bant/frontend/scanner.cc"],
 [("switches over program-defined enumerations", "bant/cli-commands.cc")])

prop("C13", "Every opened file, directory and pipe is closed on every path",
 "Every file descriptor, stream, directory handle, glob result and pipe the program opens is closed with the matching call exactly once on every path, including error paths, or is handed to an owner that does. None is used after it was closed or when opening it failed.",
 ["fault_sequences", "inputs"], "every path through the code that opens, including failing reads and early returns",
 "Leaks and mismatched closes on error paths are invisible to functional tests.",
 ["bant/util/file-utils.cc", "bant/util/filesystem-prewarm-cache.cc", "scripts/run-clang-tidy-cached.cc", "bant/workspace.cc", "bant/bant.cc"],
 [("open/close pairing in each routine", "bant/util/file-utils.cc ReadFileToString etc.")])

prop("C14", "Directory walks visit each directory once and honour the filters",
 "A recursive directory walk terminates on every directory structure, including symbolic-link cycles, because a directory is entered only after a check that it was not entered before. It only enters directories the directory filter accepts, only returns files the file filter accepts, and never follows the entries for the directory itself or its parent.",
 ["inputs"], "every directory structure including symbolic-link cycles",
 "Tests use a small temporary tree; cycles and revisits need crafted links.",
 ["bant/util/file-utils.cc"],
 [("seen-inode set tested before entering a directory", "bant/util/file-utils.cc CollectFilesRecursive")])

prop("C15", "Background prewarming is race-free and always shut down",
 "Data shared between prewarm worker threads and the main thread is only accessed while its lock is held, waiting workers re-test their condition, work runs without holding the lock, and every worker is told to stop and joined before the shared data goes away, under every schedule.",
 ["schedules"], "every interleaving of workers and main thread",
 "Races and lost wake-ups depend on the schedule; the feature has no tests.",
 ["bant/util/filesystem-prewarm-cache.cc"],
 [("mutex plus condition variable around the work queue; join in the destructor", "bant/util/filesystem-prewarm-cache.cc")])

prop("C16", "The clang-tidy cache only ever holds complete results",
 "The file that stands for a cached clang-tidy result under its final name only ever comes into existence by renaming a temporary file, in the same directory, whose content is complete: the tool has finished and all post-processing has been written out. A run that was interrupted by the user (interrupt or quit signal) never publishes a result.",
 ["crash_points", "fault_sequences"], "every point at which the script or the tool it runs can be interrupted or killed",
 "There are no tests of this script; crash points and interruptions are not sampled at all.",
 ["scripts/run-clang-tidy-cached.cc"],
 [("write to temporary, repair, then rename; interruption test before it", "scripts/run-clang-tidy-cached.cc RunClangTidyOn")])

prop("C17", "Parallel clang-tidy workers take each work item exactly once",
 "Worker threads only touch the shared work queue while holding its lock, each item is taken by exactly one worker and removed as it is taken, the tool itself runs without the lock being held, and all workers have finished before the results are collected.",
 ["schedules"], "every interleaving of worker threads",
 "Depends on thread schedules; no test runs this script.",
 ["scripts/run-clang-tidy-cached.cc"],
 [("lock guard around take-and-remove; join before return", "scripts/run-clang-tidy-cached.cc RunClangTidyOn")])

prop("C18", "The clang-tidy cache key covers all that determines the result",
 "The cache location of a clang-tidy result depends on the content of the source file, on the content of each project header it includes (when configured to), on the version of the tool, on the complete arguments passed to it and on the content of its configuration file. A change in any of these leads to a different location; a cached result with findings older than the build environment is refreshed, and a missing one always is.",
 ["histories", "inputs"], "every history of edits to sources, headers, configuration, tool and arguments",
 "Needs sequences of runs with edits in between; no test runs this script.",
 ["scripts/run-clang-tidy-cached.cc"],
 [("hash of content combined with header hashes; directory name from version, arguments and config", "scripts/run-clang-tidy-cached.cc BuildWorkList, AssembleProjectCacheDir, NeedsRefresh")])

prop("C19", "Bant never modifies the project it inspects",
 "Running any bant command changes no file of the inspected project: the only files the program opens for writing or creates are the output file the user named and its own cache file in the user's cache directory, and it never deletes, renames or changes any file.",
 ["inputs", "configurations"], "every command and every project",
 "Tests look at return values, not at the absence of side effects.",
 ["bant/bant.cc", "bant/util/filesystem-prewarm-cache.cc", "bant/util/file-utils.cc"],
 [("edits are only printed as a script; single output stream", "bant/bant.cc, bant/tool/edit-callback.cc")])

prop("C20", "Primary output goes only to the chosen output stream",
 "Command results are written only to the output stream the user selected, and diagnostics only to the diagnostic stream or standard error, so that redirected or piped output contains nothing but results. No part of the program writes to standard output behind the selected stream's back.",
 ["inputs", "configurations"], "every command, every option combination",
 "Tests capture streams passed in; stray writes to the process streams are not looked at.",
 ["bant/bant.cc", "bant/session.h", "bant/cli-commands.cc"],
 [("streams owned by the session object", "bant/session.h")])

prop("C21", "Structured output formats escape every piece of user text",
 "In each structured output format every piece of text that comes from the project (target names, file names, list elements) is passed through that format's escaping before it is written, in single-valued as well as in repeated-value rows, and a started document is always completed. Text from a project can therefore not break the structure of the output.",
 ["inputs"], "every text that can occur in a project, every output format",
 "Tests print plain names only.",
 ["bant/util/table-printer.cc", "bant/util/table-printer.h", "bant/explore/query-utils.cc", "bant/cli-commands.cc"],
 [("per-format escaping before writing", "bant/util/table-printer.cc")])

prop("C22", "Locations are zero-based inside, one-based and inclusive when printed",
 "Line and column are kept zero-based with an exclusive end; whenever they are shown to the user every line and column is printed one-based, the end of a range is printed inclusively and only if the range covers more than one character, on one line as column range and otherwise as line and column. Text with a fixed location always reports that location, and all ways of formatting a location give the same text.",
 ["inputs"], "every location and range",
 "Tests print a handful of ranges.",
 ["bant/frontend/source-locator.cc", "bant/frontend/source-locator.h"],
 [("stream output operators", "bant/frontend/source-locator.cc")])

prop("C23", "Cached file-system answers are only ever answers to the same question",
 "Each fact remembered about a path (its existence, whether it is a directory, a link, its inode) is stored only as the answer to that same question about that same path, so asking again gives the answer the file system gave.",
 ["histories"], "every sequence of queries on a path",
 "Needs particular query orders on particular kinds of files.",
 ["bant/util/file-utils.cc", "bant/util/file-utils.h"],
 [("per-fact memo fields in the path object", "bant/util/file-utils.cc FilesystemPath")])

prop("C24", "File patterns match literally except for their wildcards",
 "Whenever a file-name or package pattern given by the user or a BUILD file is turned into a regular expression, every piece of the pattern other than its wildcards is quoted first, so no other character can act as a regular-expression operator. A single star in a file pattern stands for exactly the texts without a directory separator. A name matches if any including pattern matches it, with or without wildcards; excluding patterns win over including ones.",
 ["inputs"], "every pattern text",
 "Tests use a handful of patterns with harmless characters.",
 ["bant/util/glob-match-builder.cc", "bant/types-bazel.cc"],
 [("quoting of literal pieces while assembling the regular expression", "bant/util/glob-match-builder.cc, bant/types-bazel.cc")])

prop("C25", "Dependency graph: both directions agree and building it terminates",
 "In every dependency graph built, a target lists another as dependency exactly if that other lists it as dependent, each target is expanded at most once, and building stops when nothing new is found or the requested depth is reached, for every project including cyclic ones.",
 ["inputs"], "every project, including cyclic and dangling dependencies",
 "Tests do not cover graph building at all.",
 ["bant/explore/dependency-graph.cc", "bant/explore/dependency-graph.h"],
 [("paired insertion; work list keyed by unseen targets; depth counter", "bant/explore/dependency-graph.cc")])

prop("C26", "Optional and nullable results are checked before they are used",
 "No result that may be absent (an optional value, a pointer that signals absence by null, an iterator that may be at the end) is used before a check that it is present, on every path.",
 ["inputs", "fault_sequences"], "every input that makes a lookup, parse or file access come back empty",
 "Each absent case is its own input; crashing needs that exact one.",
 ["bant/explore", "bant/tool", "bant/frontend", "bant/workspace.cc", "bant/cli-commands.cc", "bant/types-bazel.cc"],
 [("presence tests guarding each use", "all of bant/")])

prop("C27", "Objects others point into can not be copied or relocated",
 "Every object whose memory is referred to by views, tokens or nodes that outlive the current call (parsed files, their content, arenas and arena containers, source locators held by address) can not be copied or implicitly moved in a way that leaves such references dangling.",
 ["programs", "histories"], "every program that uses these types",
 "Dangling views usually still read the old bytes in a test.",
 ["bant/frontend/parsed-project.h", "bant/frontend/named-content.h", "bant/util/arena.h", "bant/util/arena-container.h"],
 [("deleted copy operations", "class definitions")])

prop("C28", "Edit count and exit status agree with the emitted edits",
 "Each command that proposes edits counts one for every edit it emits and none otherwise, and the process exit status tells the caller when edits were proposed or the command line was not understood or could not be carried out.",
 ["inputs"], "every project and every edit-producing command",
 "The command line layer has no tests.",
 ["bant/tool/dwyu.cc", "bant/tool/canon-targets.cc", "bant/cli-commands.cc", "bant/bant.cc"],
 [("edit counter next to each emission; exit status from command result", "bant/tool/dwyu.cc, bant/cli-commands.cc")])

prop("C29", "The clang-tidy report covers every file and decides the exit status",
 "The final report of the cached clang-tidy run includes the stored result of every file of interest, whether it was processed in this run or earlier, counts each finding once per occurrence, prints the number of each kind, and the process exits with failure exactly if some finding was counted or the run could not be set up.",
 ["inputs", "histories"], "every set of files and cached results",
 "No test runs this script.",
 ["scripts/run-clang-tidy-cached.cc"],
 [("loop over all files of interest; exit status from number of findings", "scripts/run-clang-tidy-cached.cc CreateReport, main")])

prop("C30", "Text synthesized by evaluation can always be located",
 "Every piece of text that evaluating expressions synthesizes and that ends up in a syntax tree was given a source location before it became visible, so asking for its location never aborts the program.",
 ["inputs"], "every expression that evaluation can fold",
 "Each kind of folded expression is separate; asking for the location of its result aborts if not registered.",
 ["bant/frontend/elaboration.cc", "bant/frontend/parsed-project.cc"],
 [("location registered for each synthesized text", "bant/frontend/elaboration.cc")])

prop("C31", "Commands meant for a shell quote all project text",
 "Every piece of text taken from a project or the command line that is placed into a shell command or into the edit script offered to the user for sourcing is quoted such that the shell takes it literally.",
 ["inputs"], "every text that can occur in a project",
 "Tests use harmless names.",
 ["bant/tool/edit-callback.cc", "scripts/run-clang-tidy-cached.cc"],
 [("quoting while assembling commands", "bant/tool/edit-callback.cc")])

def na(id, title, statement, over, qtext, why, files):
    prop(id, title, statement, over, qtext, why, files, [("value-level behaviour", files[0])])

na("N01", "Printing a parsed file and parsing it again gives the same tree",
 "For every file that parses without error, printing its tree and parsing the printed text again yields an equal tree.",
 ["inputs"], "every well-formed BUILD file", "Tests sample a few dozen expressions.",
 ["bant/frontend/print-visitor.cc", "bant/frontend/parser.cc"])
na("N02", "Target patterns match exactly the targets Bazel would match",
 "A target pattern given on the command line matches a target exactly if the same pattern would match it in Bazel.",
 ["inputs"], "every pattern and target", "Tests sample patterns.", ["bant/types-bazel.cc"])
na("N03", "Canonicalised dependencies denote the same target",
 "Every rewritten dependency label denotes the same target as the original, and canonicalising again changes nothing.",
 ["inputs"], "every label", "Tests sample labels.", ["bant/tool/canon-targets.cc", "bant/types-bazel.cc"])
na("N04", "Applying the proposed edits makes the next run propose none",
 "After all proposed dependency edits are applied, running the tool again on the result proposes no further edit.",
 ["histories"], "every project", "Needs sequences of runs over edited projects.", ["bant/tool/dwyu.cc"])
na("N05", "Deeply nested input never exhausts the stack",
 "Parsing and evaluating a file of any nesting depth never overflows the stack.",
 ["inputs"], "every nesting depth", "Needs extreme inputs.", ["bant/frontend/parser.cc", "bant/frontend/elaboration.cc"])
na("N06", "Evaluated expressions have the value Bazel would compute",
 "Every expression that evaluation folds (concatenation, substitution, selection, glob) has the value that Bazel computes for it.",
 ["inputs"], "every expression", "Tests sample expressions.", ["bant/frontend/elaboration.cc"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
