prop("C01", "Reported lines are exactly the file's lines at that commit",
 "For every commit and every text file reported for it, the reported lines are the lines of that file in that commit: same number, same order, same bytes (line terminators and trailing carriage returns aside). This holds whatever the lines contain, including text that looks like patch or log syntax, and wherever and however the file was edited.",
 ["inputs", "histories"], "all sequences of file contents along a history",
 "Tests replay a few hand-made repositories with ordinary lines; hunk positions, gaps, missing final newlines and lines that imitate patch syntax are combinations no handful samples.",
 [H+"incblame/apply.go", H+"incblame/parse.go", H+"incblame/parse_utils.go", H+"process/parser/parser.go", H+"process/process.go"],
 [("hunks of each patch are applied to the parent's lines", H+"incblame/apply.go Apply"), ("log stream is cut into commits and patches", H+"process/parser/parser.go")],
 ["process.Result.Files[path].Lines", "incblame.Apply/Parse"],
 "exhaustive enumeration of bounded edit histories against a reference model, each run on the real processor",
 "Every history of the stated bounded families is written as a real repository and run through the real processor and the installed git; the report is compared with the trees themselves. Trusts git to print correct patches; contents outside the alphabets are not covered.")
prop("C02", "Every line is attributed to the commit that introduced it",
 "Every reported line carries the commit that introduced it: a line kept from a parent (along git's own line alignment and rename pairing) keeps its origin, and a new or changed line belongs to the commit itself. In a merge a line present in several parents takes the origin it has in the first of them that has it, and only a line present in none belongs to the merge.",
 ["histories", "inputs"], "all commit DAGs and all ways lines flow along them",
 "Tests fix about ten DAG shapes; attribution depends on the whole ancestry, on parent order and on which side of each merge a line came from.",
 [H+"incblame/apply.go", H+"incblame/apply_merge2.go", H+"process/process.go"],
 [("per-parent candidates are combined, first parent first", H+"incblame/apply_merge2.go ApplyMerge"), ("unchanged files inherit the parent's blame", H+"process/process.go processRegularCommit, processMergeCommit")],
 ["process.Result.Files[path].Lines[i].Commit"],
 "exhaustive enumeration of bounded commit DAGs with line-flow choices, reference attribution model replayed on the real processor",
 "All DAGs of up to 4 (5) commits with all line-flow choices of the stated slots; the reference follows git's alignment. When a file is identical in several parents of a merge, any of their attributions is accepted.")
prop("C03", "Each commit is reported once, in order, with exactly its changed files",
 "A full run reports every commit in scope (reachable from HEAD, or from any ref with all branches) exactly once, never before one of its parents, empty commits included. The files reported for a commit are exactly those added, changed, renamed to, retyped or removed relative to its parent, and for a merge those that differ from every parent or are removed relative to some parent; a removed path is reported without lines, a path that still exists never as removed.",
 ["histories", "configurations"], "all commit DAGs, commit times, tree changes, ref layouts",
 "Tests compare a few repositories with monotone clocks; equal or reversed times, several roots, octopus merges, type changes, mode changes and empty files combine in ways they never meet.",
 [H+"process/process.go", H+"process/parser/parser.go", "ripsrc/parentsgraph/parents.go"],
 [("git log order and -m parts are regrouped per commit", H+"process/process.go Run, processCommit"), ("deleted and created paths of a merge are keyed separately", H+"process/process.go processMergeCommit")],
 ["process.Result stream"],
 "exhaustive enumeration of bounded tree/merge/clock/ref histories against a reference model, each run on the real processor",
 "All histories over the stated tree alphabets and DAG/time bounds. Which paths pair as renames is git's decision (diff-tree). A file whose last change git showed as binary may additionally be reported by a merge.")
prop("C04", "Binary files are reported as binary, text files as text",
 "A file whose content in the commit is binary by git's rule (a zero byte in the first 8000 bytes) is always reported as binary and without lines, including after mode changes and renames; a text change to a text file is always reported with its exact lines, even if an earlier version was binary. A change between a binary and a text version is reported as binary, and processing never fails on any sequence of such changes or merges.",
 ["histories", "inputs"], "all sequences and merges of binary and text versions of files, with mode changes and renames",
 "Tests cover about six sequences; the binary flag is state carried along the history and interacts with renames, modes, empties and merges.",
 [H+"process/process.go", H+"incblame/parse.go", "ripsrc/gitblame2/parse_output.go"],
 [("binary flag is kept in the stored blame", H+"process/process.go processRegularCommit"), ("text after binary is recovered with git blame", H+"process/process.go slowGitBlame")],
 ["process.Result.Files[path].IsBinary, Lines"],
 "exhaustive enumeration of bounded binary/text histories and merges against a reference model, each run on the real processor",
 "All sequences over the stated alphabet of binary, text, empty, executable versions. Whether a pure rename of a text file whose last change was shown as binary is still reported as binary is left open.")

prop("C05", "An incremental run reports exactly what a full run reports for the new commits",
 "Processing a history in pieces, each run resuming from the previous run's checkpoint, reports for every commit exactly what one uninterrupted run reports for it, whatever the shape of the history and wherever it is cut, also when several pieces follow each other and when the head moves to a commit that already has a checkpointed ancestor. A piece never reports a commit of an earlier piece again and never skips one.",
 ["histories", "crash-points"], "all histories and all ways to cut them into runs",
 "Tests resume at one hand-picked commit of two repositories; whether state needed later survives in the checkpoint depends on every branch alive at the cut.",
 [H+"process/process.go", H+"process/repo/repo.go", H+"process/repo/writer.go", H+"process/repo/reader.go", "ripsrc/parentsgraph/parents.go"],
 [("commits no longer needed by children are unloaded", H+"process/repo/repo.go Unload"), ("log range and graph are cut at the incremental commit", H+"process/process.go Run")],
 ["process.Result stream of each piece"],
 "exhaustive enumeration of bounded histories and all ways of cutting them into resumed runs, compared with the uninterrupted run",
 "Every history of the bounded families times every admissible cut sequence, each piece a real run with real checkpoint files. History still unmerged 1000 commits before the cut is beyond what a checkpoint keeps.")
prop("C06", "Resuming is refused unless the checkpoint is for the requested commit",
 "An incremental run with strict resume (the default) that is asked to continue from a commit for which the checkpoint directory holds no checkpoint (none, for another commit, or asked for under another spelling) reports nothing, returns an error and leaves the checkpoint as it was. A completed run leaves a checkpoint for the last commit it processed, and a run with nothing new to process reports nothing and leaves it as it was. Without strict resume, a checkpoint that contains the needed history gives exactly the full run's reports.",
 ["histories", "configurations"], "all histories, checkpoints and requested commits",
 "Tests resume with the matching checkpoint only; each mismatch of head, checkpoint and requested commit is a different history.",
 [H+"process/process.go", H+"process/repo/reader.go", H+"process/repo/writer.go"],
 [("checkpoint names its last commit and is checked on read", H+"process/repo/reader.go Read"), ("checkpoint is written only after a successful run", H+"process/process.go Run")],
 ["process.Result stream", "checkpoint directory"],
 "exhaustive enumeration of bounded histories times every checkpoint, head and requested commit, each run on the real processor",
 "Every combination of existing checkpoint, head and requested commit for every history of the bounded families.")
prop("C07", "A crash or fault while checkpointing never makes a read return wrong data",
 "If the process is killed, the machine stops, the disk fills up or a call fails at any point while a checkpoint is replaced, a later read either returns the old checkpoint, returns the new one, or reports an error; it never returns partial or mixed data and never crashes. Writing again afterwards works. A checkpoint whose files are truncated, missing or damaged is refused, not read as something else. The writer returns an error when a call fails, and so does the run whose checkpoint it was.",
 ["crash-points", "inputs"], "all crash points, torn writes, lost unsynced data and failing calls of a checkpoint write",
 "Tests write and read back once; no test stops the writer half way.",
 [H+"process/repo/writer.go", H+"process/repo/reader.go", H+"process/process.go"],
 [("written to tmp and renamed when complete", H+"process/repo/writer.go Write"), ("reader validates what it reads", H+"process/repo/reader.go Read")],
 ["repo.CheckpointWriter.Write, repo.CheckpointReader.Read over crash states", "process.Process.Run, ripsrc.Ripsrc.CodeByCommit on a full disk"],
 "exhaustive enumeration of crash points and torn-write patterns of the real writer's recorded system calls, plus fault injection at every call",
 "The file-operation model is replayed against the real directory on every trace. A kill between removing the old and renaming the new directory loses the old checkpoint: the reader then reports an error, which is allowed. Reordering of unsynced metadata operations is not modelled.")
prop("C08", "A checkpoint restores exactly the state that was saved",
 "Reading a checkpoint back gives exactly the state that was written: every commit (also one without files), every path, every line's bytes and origin, binary flags, and which entries are empty. This holds for any bytes in names and lines, also for different lines whose hashes collide, and regardless of how lines and blames are shared.",
 ["inputs", "histories"], "all repository states: contents, sharing patterns, names, sizes",
 "The one test round-trips two commits; sharing, empty entries, odd bytes and hash collisions are combinations it lacks.",
 [H+"process/repo/writer.go", H+"process/repo/reader.go", H+"process/repo/msgp.go", H+"process/repo/disk/disk.go"],
 [("line data is deduplicated by hash", H+"process/repo/writer.go Write"), ("pointers are resolved back", H+"process/repo/reader.go Read")],
 ["repo.CheckpointWriter.Write, repo.CheckpointReader.Read"],
 "exhaustive enumeration of bounded in-memory states written and read back",
 "All states of the bounded alphabets, including constructed xxhash collisions. The format on disk is free.")
prop("C12", "Commit metadata lists exactly what git recorded for each commit",
 "Commit metadata contains every commit of every branch (in all-branches mode) exactly once, numbered in order, with its author and committer names and emails, its date with zone, its subject line, its parents, and exactly the files changed relative to its first parent (merges too), each with name, rename source and target, status, binary flag and added and deleted line counts (inside merges only whether a file was removed is promised of its status, and no renames). This holds for every message, person, date and file name git can store.",
 ["inputs", "histories"], "all messages, identities, dates, file names and tree changes git can store",
 "Tests parse recorded outputs of ordinary commits; field contents that imitate the format, odd names and unusual dates are unbounded.",
 ["ripsrc/commitmeta/commitmeta.go"],
 [("git log output is split into header, message, raw and numstat parts", "ripsrc/commitmeta/commitmeta.go"), ("numstat and raw lines are joined by name", "ripsrc/commitmeta/commitmeta.go")],
 ["commitmeta.Commit fields"],
 "exhaustive enumeration of bounded message, identity, date, name and history alphabets, written as real objects and compared with git's plumbing",
 "All combinations over the stated alphabets. Encoding of non-UTF-8 text is git's; a file's status inside a merge is only specified as removed or not. A merge that changes a file whose name looks like git's rename arrow is a known finding.")
prop("C13", "Messages, people and dates never influence what is reported for files",
 "The lines, attributions, flags and commits reported for a history are the same whatever its commit messages, author and committer names, emails and dates contain, including text that imitates log, patch or marker syntax, control characters, other encodings, signatures and malformed headers.",
 ["inputs"], "all messages, identities and dates git can store",
 "Tests contain ordinary messages; the log stream mixes them with the patches that are parsed.",
 [H+"process/parser/parser.go", H+"process/process.go"],
 [("git log output is cut into commits and patches by its prefixes", H+"process/parser/parser.go")],
 ["process.Result stream"],
 "exhaustive enumeration of bounded message, identity and date alphabets written as real commits, each run on the real processor against a reference model",
 "All messages over the stated alphabet of words and bytes up to the stated length, all combinations of odd identities, dates and raw headers.")
prop("C14", "File names are reported byte for byte, whatever they contain",
 "A file is reported under exactly its name in the tree by both blame and metadata, on every kind of change (added, changed, renamed from and to, removed, binary, mode changed), whatever bytes git allows in the name: spaces, quotes, tabs, newlines, arrows, non-ASCII and invalid UTF-8, or text that looks like patch, log or marker syntax.",
 ["inputs"], "all file names, on every kind of change",
 "Tests contain one name with quoting; every parser treats names in its own way on each kind of change.",
 [H+"process/process.go", H+"process/parser/parser.go", H+"incblame/parse.go", "ripsrc/commitmeta/commitmeta.go"],
 [("names are taken from the diff header or rename lines", H+"incblame/parse.go"), ("quoted names are unquoted", H+"incblame/parse.go")],
 ["process.Result.Files keys", "commitmeta.Commit.Files keys"],
 "exhaustive enumeration of file names over an alphabet of special bytes and words, times kinds of change",
 "All names of the stated alphabets and lengths on all kinds of change. Merges with arrow names: see C12's known finding.")
prop("C09", "Branch results name exactly a branch's own commits and its fork points",
 "For every branch reported by BranchesSeq, the commits are exactly those reachable from its head but not from the default branch's head; for a merged branch, exactly those that reached the default branch only through its head. Last commit, first commit, order of linear branches, fork points (the minimal commits shared with the default branch), merge flag and merge commit, ahead and behind counts and ids agree with the commit graph. The default branch's entry lists all its commits, and its first commit is a root. Pull request heads are treated the same way.",
 ["histories", "configurations"], "all commit graphs and all placements of branch heads and pull request heads in them",
 "Tests draw about twenty small graphs by hand; criss-cross merges, several roots, octopus merges, heads that are ancestors of other heads and unrelated histories are combinations.",
 ["ripsrc/branches2/process.go", "ripsrc/branches2/branch_commits.go", "ripsrc/branches2/behind_branch.go", "ripsrc/branches.go", "ripsrc/parentsgraph/parents.go"],
 [("commits before the default branch are collected by a walk over parents", "ripsrc/branches2/branch_commits.go"), ("reachability from default head is cached", "ripsrc/branches2/behind_branch.go")],
 ["branches2.Process.Run results", "ripsrc.Ripsrc.BranchesSeq"],
 "exhaustive enumeration of all bounded commit graphs and head placements against set-theoretic reachability on the real code",
 "All DAGs up to the stated size with every pair of default and branch head directly on branches2 with real graphs, plus real repositories for the glue. Behind count without common history and the choice between several merge commits are left open.")
prop("C10", "Branch listing shows exactly the branches git has",
 "The branch listing shows exactly the branches present (local branches, or origin's remote branches), each once and sorted, under its exact name and with the commit, committer date and zone it points to; the default branch is the one the repository names and is left out when asked. This holds for any mix of tags, remotes, nested names and names that are ambiguous with other refs, and for symbolic refs and packed refs.",
 ["inputs", "configurations"], "all sets of refs and all legal ref names",
 "Tests list two branches; ambiguous and nested names, other remotes, symbolic refs and packed refs change what git prints.",
 ["ripsrc/branchmeta/branchmeta.go", "ripsrc/branchmeta/default.go"],
 [("names are taken from git branch listing", "ripsrc/branchmeta/branchmeta.go")],
 ["branchmeta.Get, branchmeta.GetDefault"],
 "exhaustive enumeration of bounded ref sets and ref names written as real repositories, compared with the refs written",
 "All subsets of the stated ref alphabets and all names over the stated name alphabet, packed and loose.")
prop("C11", "Every result covers exactly the commits in scope",
 "Blame, commit metadata and the commit graph each cover exactly the commits reachable from HEAD, or from HEAD and any ref when all branches are asked for, with each commit's parents in order and the children relation its exact inverse. Commits that nothing refers to are never reported, and it does not matter how refs are stored, whether HEAD is detached, what the clocks say or how many parents a merge has.",
 ["histories", "configurations"], "all commit graphs, ref layouts and HEAD states",
 "Tests use a checked out master and a few branches; other ref kinds, detached heads, hidden commits and skewed clocks are configurations they never set.",
 ["ripsrc/history3/process/process.go", "ripsrc/commitmeta/commitmeta.go", "ripsrc/parentsgraph/parents.go", "ripsrc/parentsgraph/parentsp/parser.go"],
 [("each of the three runs git log with its own scope flags", "ripsrc/history3/process/process.go, ripsrc/commitmeta/commitmeta.go, ripsrc/parentsgraph/parentsp/parser.go")],
 ["process.Result stream", "commitmeta.Commit", "parentsgraph.Graph.Parents, Children"],
 "exhaustive enumeration of bounded commit graphs times ref layouts and HEAD states, each run on the real code against reachability",
 "All graphs and ref layouts of the stated bounds; HEAD of an empty repository is outside.")
prop("C15", "Code results join blame, metadata and file information correctly",
 "Code, CodeByCommit and CodeSlice deliver for every commit exactly its changed files, in commit order, each with exactly its lines: code, comment and blank flags (one per line) and counts as the line counter gives them, every line with the author's name, email and date of the commit that wrote it, also in incremental runs. A removed file is marked removed and skipped; a file excluded by file information or a generated-code comment is skipped with the reason and without code lines. The three calls agree with each other.",
 ["histories", "inputs"], "all histories and file contents",
 "Tests check a handful of repositories; what is joined comes from three separate passes over git whose disagreement on unusual histories only shows in combination.",
 ["ripsrc/code.go", "ripsrc/code_info.go", "ripsrc/commit_info.go", "ripsrc/ripsrc.go"],
 [("blame result is joined with commit meta by file name", "ripsrc/code.go"), ("lines are classified by scc", "ripsrc/code_info.go")],
 ["ripsrc.Ripsrc.CodeByCommit, Code, CodeSlice"],
 "exhaustive enumeration of bounded histories and file contents run through the public API and compared with a reference join",
 "All histories of the bounded families, full and incremental, and all contents over a token alphabet. Line classification itself is the vendored counter's; the check compares with it directly. Merges with arrow names: see C12.")
prop("C16", "File information depends on the file alone and follows the documented rules",
 "The skip reason, language and license of a file are determined by its path and content alone: the same in every run, whatever was asked of the same object before and in whichever order. Rules apply in a fixed order: size limit, license, configuration file, dot file, exclusion list, vendored file (never under src/), number of lines, line width, unknown language; limits are inclusive, and every pattern of the exclusion list counts. A license is named only for a license file name with a license text.",
 ["inputs", "histories"], "all paths, contents and sequences of questions",
 "Tests ask about a few paths one at a time; patterns, limits, the path cache and the order of rules only matter in combination, and a choice between equal license matches varies from run to run.",
 ["ripsrc/fileinfo/fileinfo.go", "ripsrc/fileinfo/gitignore.go", "ripsrc/fileinfo/license.go", "ripsrc/fileinfo/license_enabled.go", "genignore.go", "custom_patterns.txt"],
 [("rules in order, with a cache per path", "ripsrc/fileinfo/fileinfo.go GetInfo, checkFilePath"), ("license candidates sorted by confidence", "ripsrc/fileinfo/license_enabled.go detect")],
 ["fileinfo.Process.GetInfo"],
 "exhaustive enumeration of question sequences and bounded input classes on the real object, compared with a reference of the rules",
 "All sequences of questions up to the stated depth and all products of the stated path, limit, language and license classes. What enry and the license detector answer for one file is taken from them.")
prop("C17", "Results do not depend on scheduling, and every call ends cleanly",
 "Whatever the order in which goroutines run, however slowly results are read, however many branch workers there are, and while other objects work on the same repository at the same time: every call delivers the same results (branches in any order), closes its channel once, and returns. It never deadlocks, races on data, or changes a result after delivering it; when it has returned, with or without an error, nothing it started keeps running.",
 ["schedules", "configurations"], "all interleavings of the goroutines, within stated deviation bounds",
 "Tests run whatever schedule the runtime happens to choose; a lost last result, a race between branch workers or a goroutine left behind on an error path needs one particular interleaving.",
 ["ripsrc/code.go", "ripsrc/branches.go", "ripsrc/branches2/process.go", "ripsrc/branches2/name_hash.go", "ripsrc/commitmeta/commitmeta.go", "ripsrc/history3/process/process.go", "ripsrc/history3/process/parser/parser.go", "ripsrc/gitexec/gitexec.go"],
 [("each stage is a goroutine that hands over on an unbuffered channel and signals done", "ripsrc/code.go, ripsrc/history3/process/process.go, ripsrc/commitmeta/commitmeta.go"), ("branch workers share the graph read-only and an error under a lock", "ripsrc/branches2/process.go Run"), ("git runs in a goroutine writing to a pipe", "ripsrc/gitexec/gitexec.go ExecPiped")],
 ["ripsrc.Ripsrc.Code, CodeByCommit, CodeSlice, BranchesSlice", "branches2.Process.Run", "commitmeta.Processor.RunSlice, RunMap", "process.Process.Run"],
 "stateless exploration of the real code under a controlled scheduler: all schedules within a deviation (delay) bound, each with happens-before race detection",
 "The code is rewritten on the fly so that every goroutine, channel, lock, wait group, pipe and process operation goes through a scheduler; all schedules with at most 1 or 2 (thorough: 2 or 3) deviations from two default schedules are run on a few repositories, intact, broken and missing. Results must equal those of the plain build. Effects inside the standard library are atomic.")
prop("C18", "A failing git command never leads to wrong results",
 "When a git command fails, is killed or pauses at any point of its output, the call that ran it returns an error or the complete results, never incomplete or wrong ones and never a crash; what it delivered before the error is a prefix of the right results; and when the call is made again, on the same object and with the same checkpoint, it gives the right results. What git writes on standard error never gets into the results.",
 ["faults", "inputs"], "all positions in the output of every git command at which it can fail or pause",
 "Tests run git commands that succeed; a failure in the middle of the output, or of the second of two commands, cannot be provoked by test data.",
 ["ripsrc/gitexec/gitexec.go", "ripsrc/gitexec/prepare.go", "ripsrc/parentsgraph/parents.go", "ripsrc/parentsgraph/parentsp/parser.go", "ripsrc/commitmeta/commitmeta.go", "ripsrc/history3/process/process.go", "ripsrc/history3/process/parser/parser.go", "ripsrc/branchmeta/branchmeta.go", "ripsrc/branchmeta/default.go", "ripsrc/branches2/name_hash.go", "ripsrc/gitblame2/gitblame.go", "ripsrc/ripsrc.go", "ripsrc/code.go"],
 [("a failed command ends the stream with an error, without the incomplete line", "ripsrc/gitexec/gitexec.go ExecPiped"), ("scanner errors are returned", "ripsrc/parentsgraph/parentsp/parser.go, ripsrc/commitmeta/commitmeta.go Run, ripsrc/history3/process/parser/parser.go Run"), ("the graph is kept when it was read completely", "ripsrc/ripsrc.go buildCommitGraph")],
 ["ripsrc.Ripsrc.Code, CodeByCommit, BranchesSlice", "process.Process.Run", "commitmeta.Processor.Run, RunMap", "parentsgraph.Graph.Read", "branchmeta.Get, GetDefault", "gitblame2.Run", "gitexec.Exec, ExecPiped, ExecWithCache"],
 "fault injection with exhaustive enumeration of failure points on the real code: a stand-in for git replays git's output and fails at every byte",
 "Every git command of every public call, at every byte of its output, failing with a status, by a signal, or pausing there, on a repository with merges and one with binary, renamed-mode and symbolic link changes. One fault per call.")
prop("C19", "The command line finds every repository and reports what the library reports",
 "ripsrc code and branches process the directory they are given if it is a repository (it holds a directory .git, or its name ends with .git and it holds a directory objects), otherwise each repository directly below it, each once, and nothing inside one of these. For each they print exactly what the library delivers for it, each result on a line of its own, whatever the names in it contain. One repository that fails does not stop the others. The exit status is 0 only if there was a repository and none failed; empty repositories are skipped and counted.",
 ["inputs", "configurations"], "all directory layouts, kinds of repositories and combinations of them",
 "No test runs the commands or walks directories; nested, bare, empty and broken repositories next to each other are combinations of layouts.",
 ["ripsrc/pkg/gitrepos/gitrepos.go", "ripsrc/cmd/cmdcode/cmd.go", "ripsrc/cmd/cmdbranches/cmd.go", "ripsrc/cmd/cmdutils/repo_run.go", "ripsrc/cmd/cmdutils/errors.go", "ripsrc/pkg/logger/logger.go", "cmd/root.go"],
 [("which directories are repositories is documented at Opts.Dir", "ripsrc/cmd/cmdcode/cmd.go Opts, ripsrc/pkg/gitrepos/gitrepos.go IterDir"), ("errors are collected per repository and decide the exit status", "ripsrc/cmd/cmdcode/cmd.go Run, runOnDirs, ripsrc/cmd/cmdutils/errors.go")],
 ["gitrepos.IterDir", "standard output and exit status of ripsrc code, ripsrc branches"],
 "exhaustive enumeration of bounded directory trees and of kinds of repositories in pairs, run through the real function and the real command and compared with a reference rule and the library",
 "Every directory tree of the stated shape, every depth limit and spelling of the directory; every command on every kind of repository and every pair of kinds. What comes before an error is decided by C18.")
prop("C20", "Results depend on the commits only, not on git settings or the environment",
 "For the same commits, refs, HEAD and attributes, blame, metadata, the commit graph and branches are the same whatever the git settings of the user, the system or the repository are, whatever environment variables are set, and wherever and however the repository is stored: loose or packed objects and refs, a bare repository, a worktree, a linked .git file, a clone that shares objects, any directory name, relative or with a trailing slash, with or without a checked out or changed working tree. If a setting keeps git itself from working, a call may return an error, never other results.",
 ["configurations", "inputs"], "all git settings, environment variables and ways to store a repository",
 "Tests run with the settings of one machine on freshly cloned repositories; a setting that changes what git prints, or a packed or linked repository, is nowhere in the test data.",
 ["ripsrc/gitexec/config.go", "ripsrc/gitexec/gitexec.go", "ripsrc/gitexec/prepare.go", "ripsrc/history3/process/process.go", "ripsrc/commitmeta/commitmeta.go", "ripsrc/parentsgraph/parentsp/parser.go", "ripsrc/branchmeta/branchmeta.go", "ripsrc/branchmeta/default.go", "ripsrc/gitblame2/gitblame.go"],
 [("settings that change the output are overridden on the command line", "ripsrc/gitexec/config.go ConfigArgs, PatchArgs"), ("each command passes its own flags", "ripsrc/history3/process/process.go gitLogPatches, ripsrc/commitmeta/commitmeta.go, ripsrc/parentsgraph/parentsp/parser.go")],
 ["process.Process.Run", "commitmeta.Processor.RunSlice", "parentsgraph.Graph.Read", "branchmeta.Get, GetDefault", "branches2", "gitblame2.Run", "ripsrc.Ripsrc.Code"],
 "exhaustive enumeration of git settings with their values, environment variables and storage layouts times bounded histories, run on the real code and compared with the run without them",
 "All settings documented for the commands used, each with all of its values (thorough: common ones in pairs), in the repository and the common ones in each other configuration file; all stated environment variables; all stated storage layouts. The git in the sandbox.")
prop("C21", "Long histories give the same results, in one run and in several",
 "However long a branch is and however long ago it left the main line, blame is right when it is merged. The checkpoint of a run keeps what is needed to continue from its last commit and from branches that left the history up to 1000 commits before it, or were there and wanted; for these the next runs report exactly what a single run reports. A branch that is older than that and new leads to an error or to right results, never to a crash or wrong ones.",
 ["histories"], "all distances between fork, work and merge of a branch, and between runs",
 "Test repositories have a few dozen commits, the limits that decide what is kept in memory and in a checkpoint (1000 commits) are never reached.",
 ["ripsrc/history3/process/process.go", "ripsrc/history3/process/repo/repo.go", "ripsrc/history3/process/repo/writer.go", "ripsrc/history3/process/repo/reader.go"],
 [("commits are unloaded from memory when all children were processed, the last 1000 stay", "ripsrc/history3/process/repo/repo.go Unloader"), ("childrenProcessed decides when", "ripsrc/history3/process/process.go trimGraphAfterCommitProcessed")],
 ["process.Process.Run with checkpoints"],
 "exhaustive enumeration of all distances around the limit in generated histories of thousands of commits, run on the real code and compared with reference attribution",
 "Distances 1 and 998 to 1003 (and 0 and 500 between runs) in all combinations of the stated shape, one branch, one or two files.")
prop("C22", "A repository that changes while it is processed never gives wrong results",
 "When HEAD or branches change (commits added, reset or rewritten, branches created, moved or removed, HEAD switched, detached or broken, unreachable objects dropped) between the git commands of a call, or between two calls on one object, each call returns an error or the results of a state the repository had, never a crash and never results of several states mixed. The branches call reads the name of the default branch, then its commit, then the other branches; its results are those for what it read. What is delivered before an error is a prefix of such results. A checkpoint written by such a call is continued correctly or refused.",
 ["schedules", "histories"], "all changes of HEAD and refs before each of the git commands of a call",
 "Tests run on repositories nobody touches; a push or a checkout between two particular git commands of a call cannot be timed by a test.",
 ["ripsrc/ripsrc.go", "ripsrc/code.go", "ripsrc/code_info.go", "ripsrc/commit_info.go", "ripsrc/branches.go", "ripsrc/branchmeta/default.go", "ripsrc/branches2/process.go", "ripsrc/branches2/name_hash.go", "ripsrc/history3/process/process.go"],
 [("commits that are not in the graph or in the metadata are errors", "ripsrc/history3/process/process.go Run, ripsrc/code.go CodeByCommit, ripsrc/branches2/process.go Run, processBranch"), ("the default branch is resolved once", "ripsrc/branchmeta/default.go GetDefault, ripsrc/branches2/name_hash.go")],
 ["ripsrc.Ripsrc.Code, CodeByCommit, BranchesSlice", "process.Process.Run", "commitmeta.Processor.Run, RunMap", "parentsgraph.Graph.Read", "branchmeta.Get, GetDefault"],
 "stateless exploration of the real code interleaved with a second actor: every change of the repository at every point between git commands, through a stand-in that makes the change and then runs the real git",
 "Six starting states, sixteen changes, one change per call in quick (and dropping unreachable objects after it for one of the states), all pairs of changes in thorough. One git command sees one state of the repository. The position of a commit in the metadata (Ordinal) may be that of an earlier state.")
prop("C23", "A call leaves nothing behind but its results and its checkpoint",
 "Whether it succeeds or fails (git failing at any point, missing git or repository, missing, damaged or unwritable checkpoint, incomplete graph), a call changes no file outside the checkpoint directory it was given (pp-git-cache in the repository if none was), neither in the repository nor in home, temporary or working directory; it leaves no process, goroutine or open file, does not change environment or working directory, and prints nothing when it was given a logger.",
 ["faults", "inputs"], "all calls times all ways they end, at every command and around every line of its output",
 "Tests look at results only, and the ways calls fail half way are not tested at all.",
 ["ripsrc/gitexec/gitexec.go", "ripsrc/gitexec/prepare.go", "ripsrc/history3/process/process.go", "ripsrc/history3/process/repo/reader.go", "ripsrc/history3/process/repo/writer.go", "ripsrc/history3/process/repo/msgp.go", "ripsrc/commitmeta/commitmeta.go", "ripsrc/parentsgraph/parents.go", "ripsrc/branches2/process.go", "ripsrc/code.go", "ripsrc/gitblame2/gitblame.go"],
 [("readers are drained or closed when processing ends early", "ripsrc/history3/process/process.go Run drainAndExit"), ("checkpoint files are closed on every path", "ripsrc/history3/process/repo/reader.go Read, writer.go Write")],
 ["the process and the file system before and after ripsrc.Ripsrc.Code, BranchesSlice, process.Process.Run, commitmeta, parentsgraph, branchmeta, gitblame2, gitexec calls"],
 "fault injection with exhaustive enumeration of failure points on the real code, state of the process and the file system compared before and after",
 "Every public call on three repositories (merges; binaries and links; a log larger than the pipe), ending in every listed way; git fails at the start and end of its output and around every line. Garbage collection is off while a call is measured, so that files closed only by the collector count as open.")
