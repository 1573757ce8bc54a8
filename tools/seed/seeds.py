H = "ripsrc/history3/"
seed("octopus-attribution", "C02",
 [(H+"incblame/apply_merge2.go", "for j := range parents {", "for j := 0; j < len(parents) && j < 3; j++ {")],
 r'''
printf 'a\nb\nc\nd\n' >"$R/f"; commit base >/dev/null; B=$(g rev-parse HEAD)
for i in 1 2 3 4; do
	g checkout -q -b s$i $B
	case $i in 1) printf 'A\nb\nc\nd\n' ;; 2) printf 'a\nB\nc\nd\n' ;; 3) printf 'a\nb\nC\nd\n' ;; 4) printf 'a\nb\nc\nD\n' ;; esac >"$R/f"
	commit s$i >/dev/null
done
g checkout -q --detach; printf 'A\nB\nC\nD\n' >"$R/f"; g add f; tick
M=$(g commit-tree $(g write-tree) -p s1 -p s2 -p s3 -p s4 -m merge); g reset -q --hard $M
got=$(show blame "$R" | sed -n "/^commit $M/,\$p")
check "attribution of the octopus merge" "$got" "commit $M
 \"f\" binary=false lines=4
  $(g rev-parse s1) \"A\"
  $(g rev-parse s2) \"B\"
  $(g rev-parse s3) \"C\"
  $(g rev-parse s4) \"D\""
''',
 "a merge of four parents where a line comes from the fourth parent only",
 "The line is attributed to the merge commit instead of the commit on the fourth parent that introduced it.")

seed("checkpoint-abbrev", "C06",
 [(H+"process/repo/reader.go", "if checkpointCommit != expectedCommit {", "if len(expectedCommit) < 7 || checkpointCommit[:7] != expectedCommit[:7] {")],
 r'''
echo a >"$R/f"; commit c1 >/dev/null; C1=$(g rev-parse HEAD)
export CKPT="$T/ck"; mkdir "$CKPT"
show blame "$R" >/dev/null || exit 1
echo b >"$R/f"; commit c2 >/dev/null
show blamefrom "$R" ${C1:0:10} >"$T/out"; rc=$?
check "resuming from an abbreviated commit is refused" "$rc" 3
show blamefrom "$R" $C1 >"$T/out"; rc=$?
check "resuming from the commit works" "$rc" 0
''',
 "an incremental run that names the commit differently from the checkpoint (abbreviated)",
 "Resuming is not refused although the checkpoint is not for the requested commit as given.")

seed("checkpoint-write-error", "C07",
 [(H+"process/repo/writer.go", "	err = linesWr.Finish()\n	if err != nil {\n		return err\n	}\n", "	_ = linesWr.Finish()\n")],
 r'''
for i in $(seq 400); do echo "line $i $RANDOM$RANDOM"; done >"$R/f"; commit c1 >/dev/null
export CKPT="$T/ck"; mkdir "$CKPT"
show blame "$R" >/dev/null || exit 1
before=$(cd "$CKPT" && find . -type f | sort | xargs cat | cksum)
echo b >>"$R/f"; commit c2 >/dev/null
# creating the finished file of the lines fails: a directory is in the way
mkdir -p "$T/w"
cat >"$T/w/main.go" <<'EOG'
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
	"github.com/pinpt/ripsrc/ripsrc/pkg/logger"
)

type lg struct{}

func (lg) Debug(string, ...interface{}) {}
func (lg) Info(msg string, args ...interface{}) {
	if msg == "preparing to write" {
		// when the unfinished file shows up, put a non-empty directory in the place of the finished one
		go func() {
			for {
				d := filepath.Join(os.Args[1], "tmp")
				if _, err := os.Stat(filepath.Join(d, "lines.tmp")); err == nil {
					os.MkdirAll(filepath.Join(d, "lines", "x"), 0777)
					ready <- true
					return
				}
				time.Sleep(time.Millisecond)
			}
		}()
	}
}

var ready = make(chan bool, 1)
var _ logger.Logger = lg{}

func main() {
	r := repo.New()
	for i := 0; i < 400; i++ {
		c := fmt.Sprintf("%040d", i)
		r.AddCommit(c)
		for j := 0; j < 1000; j++ {
			r[c][fmt.Sprint(j)] = &incblame.Blame{Commit: c, Lines: incblame.Lines{{Line: []byte(fmt.Sprint(i, j)), Commit: c}}}
		}
	}
	err := repo.NewCheckpointWriter(lg{}).Write(r, os.Args[1], "0123")
	select {
	case <-ready:
	default:
		os.Exit(0) // was too late: nothing shown
	}
	if err == nil {
		fmt.Println("no error was reported for a checkpoint that could not be written")
		os.Exit(1)
	}
}
EOG
printf '{"Replace":{"%s/zz_w/main.go":"%s/w/main.go"}}' "$REPO" "$T" >"$T/o2.json"
(cd "$REPO" && go build -tags no_license -overlay "$T/o2.json" -o "$T/wbin" ./zz_w) || exit 1
mkdir "$T/ck2"
timeout 100 "$T/wbin" "$T/ck2" || exit 1
''',
 "a failing call (disk full, rename) exactly while the lines file of a checkpoint is completed",
 "The writer replaces the good checkpoint by an incomplete one and returns no error.")


seed("fork-point-dedup", "C09",
 [("ripsrc/branches2/branch_commits.go", "				if r {\n					has = true\n				}\n			}\n			hasDeep[hash] = has", "				if r {\n					has = true\n					break\n				}\n			}\n			hasDeep[hash] = has")],
 r"""
# f forks from m1 and later merges m3 (which is on master too): only m1 is minimal
commit m1 >/dev/null; M1=$(g rev-parse HEAD)
commit m2 >/dev/null; M2=$(g rev-parse HEAD)
commit m3 >/dev/null; M3=$(g rev-parse HEAD)
tick; X=$(g commit-tree $(g write-tree) -p $M1 -m x)
tick; Y=$(g commit-tree $(g write-tree) -p $M2 -m y)
for shape in "$X $M3" "$M3 $X" "$Y $M1" "$M1 $Y" "$X $Y" "$Y $X"; do
	set -- $shape
	tick; F=$(g commit-tree $(g write-tree) -p $1 -p $2 -m f)
	g update-ref refs/heads/feature $F
	got=$(show branches "$R" | grep '^"feature"' | sed 's/.*from=\(\[[^]]*\]\).*/\1/')
	want="[$M1]"
	check "fork points of feature with parents $shape" "$got" "$want"
done
""",
 "a branch that reaches the default branch at two commits, one an ancestor of the other, by a merge with a certain order of parents",
 "A fork point is reported that is an ancestor-side duplicate: not minimal.")

seed("hunk-buffer-alias", "C01",
 [(H+"incblame/apply.go", "addLine(copyBytes(data))", "addLine(data)")],
 r"""
for i in $(seq 2000); do echo "this is line number $i of the file"; done >"$R/f"; commit c1 >/dev/null
got=$(show blame "$R" | sed -n 's/^  [0-9a-f]* "\(.*\)"$/\1/p' | cksum)
check "lines of a long new file" "$got" "$(cksum <"$R/f")"
""",
 "a single hunk of more than 4 KB of added lines",
 "Lines of a long hunk are overwritten by later ones: the reported content is not the file's.")

seed("binary-rename-chain", "C04",
 [(H+"process/process.go", "				if pb.IsBinary {\n					s.repo[commit.Hash][diff.Path] = pb\n					res.Files[diff.Path] = pb\n", "				if pb.IsBinary {\n					res.Files[diff.Path] = pb\n")],
 r"""
head -c 4000 /dev/zero >"$R/a"; commit c1 >/dev/null
g mv a b; commit c2 >/dev/null
g mv b c; commit c3 >/dev/null
chmod +x "$R/c"; commit c4 >/dev/null
out=$(show blame "$R") || { echo "run failed: $out"; exit 1; }
check "binary entries" "$(echo "$out" | grep -c 'binary=true')" 4
""",
 "a binary file renamed without changes at least twice in a row",
 "The second rename fails the whole run: the file is missing in the parent.")

seed("merge-head-not-saved", "C05",
 [(H+"process/process.go", "func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {\n	s.lastProcessedCommitHash = commitHash\n", "func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {\n	if s.lastProcessedCommitHash == \"\" {\n		s.lastProcessedCommitHash = commitHash\n	}\n")],
 r"""
echo a >"$R/f"; commit c1 >/dev/null
g checkout -q -b side; echo s >"$R/s"; commit s1 >/dev/null
g checkout -q master; echo b >"$R/f"; commit c2 >/dev/null
tick; g merge -q --no-ff -m m side; M=$(g rev-parse HEAD)
export CKPT="$T/ck"; mkdir "$CKPT"
show blame "$R" >/dev/null || exit 1
echo c >"$R/f"; commit c3 >/dev/null
out=$(show blamefrom "$R" $M); rc=$?
check "resuming after a run that ended in a merge ($out)" "$rc" 0
check "commits reported" "$(echo "$out" | sed -n 's/^commit //p')" "$(g rev-parse HEAD)"
""",
 "a run whose last commit is a merge, followed by an incremental run from it",
 "The checkpoint is labelled with another commit than the last one processed, so the next run is refused.")

seed("line-pointer-by-content", "C08",
 [(H+"process/repo/writer.go", "linePointers := map[*incblame.Line]uint64{}", "linePointers := map[string]uint64{}"),
  (H+"process/repo/writer.go", "if lp, ok := linePointers[l]; ok {", "if lp, ok := linePointers[string(l.Line)]; ok && len(l.Line) < 3 {"),
  (H+"process/repo/writer.go", "				linePointers[l] = lp\n", "				linePointers[string(l.Line)] = lp\n")],
 r"""
printf '}\none\n' >"$R/f"; commit c1 >/dev/null; C1=$(g rev-parse HEAD)
printf '}\ntwo\n' >"$R/h"; commit c2 >/dev/null; C2=$(g rev-parse HEAD)
export CKPT="$T/ck"; mkdir "$CKPT"
show blame "$R" >/dev/null || exit 1
printf '}\none\nx\n' >"$R/f"; printf '}\ntwo\nx\n' >"$R/h"; commit c3 >/dev/null; C3=$(g rev-parse HEAD)
out=$(show blamefrom "$R" $C2) || exit 1
check "resumed lines" "$(echo "$out" | grep '^  ')" "  $C1 \"}\"
  $C1 \"one\"
  $C3 \"x\"
  $C2 \"}\"
  $C2 \"two\"
  $C3 \"x\""
""",
 "two short lines with the same content from different commits in one checkpoint",
 "After a save and restore one of the lines has the other's origin.")

seed("default-branch-suffix", "C10",
 [("ripsrc/branchmeta/branchmeta.go", "if !opts.IncludeDefault && b.Name == defaultBranch {", "if !opts.IncludeDefault && strings.HasSuffix(\"/\"+b.Name, \"/\"+defaultBranch) {")],
 r"""
commit c1 >/dev/null
g branch feature/master; g branch masterpiece
got=$(show otherlist "$R" | sed 's/^\("[^"]*"\).*/\1/' | tr '\n' ' ')
check "branches" "$got" '"feature/master" "masterpiece" '
""",
 "a branch whose last path component is the default branch's name",
 "That branch is left out of the listing.")

seed("all-means-branches", "C11",
 [("ripsrc/commitmeta/commitmeta.go", 'args = append(args, "--all")', 'args = append(args, "--branches", "--remotes", "--tags", "HEAD")')],
 r"""
commit c1 >/dev/null
tick; X=$(g commit-tree $(g write-tree) -p HEAD -m pr); g update-ref refs/pull/1/head $X
got=$(show metaall "$R" | grep -c '^commit ')
check "commits in metadata" "$got" 2
""",
 "a commit that is referenced only outside of branches, remotes and tags (a pull request ref)",
 "The commit is missing in metadata although blame and graph have it, so processing all branches fails.")

seed("numstat-16bit", "C12",
 [("ripsrc/commitmeta/commitmeta.go", "adds, _ := strconv.ParseInt(tok[0], 10, 32)", "adds, _ := strconv.ParseInt(tok[0], 10, 16)")],
 r"""
seq 40000 >"$R/f"; commit c1 >/dev/null
got=$(show meta "$R" | grep '^ "f"')
check "counts" "$got" ' "f" "f" added renamed=false "" "" +40000 -0 binary=false'
""",
 "a commit that adds more than 32767 lines to one file",
 "The number of added lines is capped.")

seed("message-diff-line", "C13",
 [(H+"process/parser/parser.go", "		if b[0] == ' ' {\n			// commit message\n			return\n		}\n		if s.isDiffStart(b) {", "		b = []byte(strings.TrimLeft(string(b), \" \"))\n		if !s.isDiffStart(b) && !startsWith(b, \"commit \") {\n			// commit message\n			return\n		}\n		if s.isDiffStart(b) {")],
 r"""
echo a >"$R/f"; commit c1 >/dev/null; C1=$(g rev-parse HEAD)
echo b >"$R/f"; g add f; tick; g commit -q -m "commit message that names what it is"; C2=$(g rev-parse HEAD)
echo c >"$R/f"; commit c3 >/dev/null; C3=$(g rev-parse HEAD)
out=$(show blame "$R" 2>&1) || { echo "run failed: $out"; exit 1; }
check "commits" "$(echo "$out" | sed -n 's/^commit //p' | tr '\n' ' ')" "$C1 $C2 $C3 "
""",
 "a subject line that starts with the word commit (or diff)",
 "A message line is taken for the start of a commit or patch.")

seed("quoted-octal-sign", "C14",
 [(H+"incblame/parse_utils.go", "	if len(data) < 7 || len(data)%2 != 1 ||", "	if len(data) < 9 || len(data)%2 != 1 ||")],
 r"""
printf 'a\n' >"$R/ "; commit c1 >/dev/null
printf 'b\n' >"$R/ "; commit c2 >/dev/null
out=$(show blame "$R" 2>&1) || { echo "run failed: $out"; exit 1; }
check "file entries" "$(echo "$out" | grep -c '^ " " binary=false lines=1')" 2
""",
 "a file whose name is a single space",
 "The name is not recognised, so the file is lost or processing fails.")

seed("filepath-cache-base", "C16",
 [("ripsrc/fileinfo/fileinfo.go", "	if res, ok := s.checkFilePathCache[filePath]; ok {\n		return res\n	}", "	key := filePath\n	if i := strings.LastIndex(key, \"/\"); i > 0 && strings.HasPrefix(key, \"src/\") {\n		key = key[len(\"src/\"):]\n	}\n	if res, ok := s.checkFilePathCache[key]; ok {\n		return res\n	}"),
  ("ripsrc/fileinfo/fileinfo.go", "	s.checkFilePathCache[filePath] = res\n", "	s.checkFilePathCache[key] = res\n")],
 r"""
mkdir -p "$R/cache" "$R/src/cache"
printf 'package a\n\nvar A = 1\n' >"$R/cache/a.go"; commit c1 >/dev/null
printf 'package a\n\nvar A = 1\nvar B = 2\n' >"$R/src/cache/a.go"; commit c2 >/dev/null
printf 'package a\n\nvar A = 2\n' >"$R/cache/a.go"; commit c3 >/dev/null
got=$(show code "$R" | grep '^[0-9a-f]' | sed 's/^[0-9a-f]* //; s/size=.*//')
check "skip reasons" "$got" '"cache/a.go" added lang="" skipped="File was a vendored file" 
"src/cache/a.go" added lang="Go" skipped="" 
"cache/a.go" modified lang="" skipped="File was a vendored file" '
""",
 "a file under src/ and one of the same path outside of it, where one is vendored by path and the other is not",
 "The skip reason depends on which of the files was seen first.")

seed("merged-branch-cache", "C17",
 [("ripsrc/branches2/process.go", "	res.Commits, res.BranchedFromCommits = branchCommits(gr, defaultHead, s.reachableFromHead, nameAndHash.Commit)\n",
   "	if c, ok := s.done[nameAndHash.Commit]; ok {\n		// same head under another name\n		res.Commits, res.BranchedFromCommits = c.Commits, c.BranchedFromCommits\n	} else {\n		res.Commits, res.BranchedFromCommits = branchCommits(gr, defaultHead, s.reachableFromHead, nameAndHash.Commit)\n		s.done[nameAndHash.Commit] = res\n	}\n"),
  ("ripsrc/branches2/process.go", "	reachableFromHead reachableFromHead\n", "	reachableFromHead reachableFromHead\n\n	// finished branches by head\n	done map[string]Branch\n"),
  ("ripsrc/branches2/process.go", "	s.opts = opts\n	return s\n", "	s.opts = opts\n	s.done = map[string]Branch{}\n	return s\n")],
 r"""
commit c1 >/dev/null
for i in $(seq 12); do g checkout -q -b b$i master; commit b$i >/dev/null; done
g checkout -q master; commit c2 >/dev/null
# shared data without a lock
export GORACE="halt_on_error=0 exitcode=66"
out=$(show branches "$R" 2>"$T/err"); rc=$?
check "exit status under the race detector" "$rc" 0
check "races" "$(grep -c 'DATA RACE\|concurrent map' "$T/err")" 0
""",
 "several branch workers that use the cache of finished heads at the same time",
 "Concurrent map access without a lock: a data race that can crash the process.", env="RACE=1")

seed("no-drain-on-error", "C17",
 [(H+"process/process.go", "			err := s.initCheckpoints()\n			if err != nil {\n				drainAndExit()\n				return err\n			}", "			err := s.initCheckpoints()\n			if err != nil {\n				return err\n			}")],
 r"""
echo a >"$R/f"; commit c1 >/dev/null; C1=$(g rev-parse HEAD)
echo b >"$R/f"; commit c2 >/dev/null
export CKPT="$T/ck"; mkdir "$CKPT"
check "after a failed incremental run" "$(show leak "$R" $C1 2>&1)" "failed: true
goroutines: 1"
""",
 "an incremental run that fails because there is no checkpoint to resume from",
 "The goroutines that read git's output are left waiting for ever.")
FAULTY = r'''
# faulty PATTERN N: a git that fails after N bytes of the output of commands matching the pattern
faulty() {
	mkdir -p "$T/bin"; REAL=$(command -v git)
	cat >"$T/bin/git" <<X
#!/bin/bash
case "\$*" in
$1) "$REAL" "\$@" | head -c $2; exit 128 ;;
esac
exec "$REAL" "\$@"
X
	chmod +x "$T/bin/git"
}
'''
seed("graph-read-error", "C18",
 [("ripsrc/parentsgraph/parentsp/parser.go", "	if err := scanner.Err(); err != nil {\n		return res, err\n	}\n", "	if err := scanner.Err(); err == bufio.ErrTooLong {\n		return res, err\n	}\n")],
 FAULTY + r'''
echo a >"$R/f"; commit c1 >/dev/null
g checkout -q --detach
echo b >"$R/f"; commit c2 >/dev/null
echo c >"$R/f"; PR=$(commit c3)
g update-ref refs/pull/1/head "$PR"
g checkout -q master
faulty '*log*--pretty=format:%H@%P*' 100
PATH="$T/bin:$PATH" show branches "$R" "$PR" >"$T/out" 2>/dev/null; rc=$?
check "status when git fails: 3 for an error" "$rc" 3
''',
 "git log that lists the parents of commits fails after writing some of them",
 "The error is dropped, branches are reported from an incomplete graph of commits.")

seed("unload-in-batches", "C21",
 [(H+"process/repo/repo.go", "		last := s.toUnload.Back()\n		s.toUnload.Remove(last)\n		delete(s.repo, last.Value.(string))\n", "		// more than one at once\n		for i := 0; i < 50; i++ {\n			last := s.toUnload.Back()\n			s.toUnload.Remove(last)\n			delete(s.repo, last.Value.(string))\n		}\n")],
 r'''
# linear history of 1005 commits
{
	for i in $(seq 1 1005); do
		echo "commit refs/heads/master"; echo "mark :$i"
		echo "committer C <c@example.com> $((1500000000 + i*60)) +0000"
		echo "data 1"; echo c
		[ $i = 1 ] || echo "from :$((i-1))"
		echo "M 100644 inline f"; echo "data <<E"; echo "$i"; echo E
		echo
	done
} | g fast-import --quiet || exit 1
g reset -q --hard master
LAST=$(g rev-parse HEAD); OLD=$(g rev-parse HEAD~970)
export CKPT="$T/ck"; mkdir "$CKPT"
show blame "$R" >/dev/null || exit 1
N=2000
g checkout -q -b side $OLD; echo s >"$R/s"; S=$(commit side)
g checkout -q master; tick; g merge -q --no-ff -m m side
out=$(show blamefrom "$R" $LAST); rc=$?
check "a branch that left 970 commits before the end of the last run" "$rc" 0
check "commits reported" "$(echo "$out" | sed -n 's/^commit //p' | head -1)" "$S"
''',
 "a history of more than 1000 commits and a later branch that starts shortly before the oldest of them that have to be kept",
 "The commits that the new branch starts from are gone from the checkpoint.")

seed("abbreviated-hashes", "C20",
 [(H+"process/process.go", '		"--no-abbrev-commit",\n', '')],
 r'''
echo a >"$R/f"; commit c1 >/dev/null
echo b >>"$R/f"; commit c2 >/dev/null
want=$(show blame "$R") || exit 1
g config log.abbrevCommit true
got=$(show blame "$R")
check "results with log.abbrevCommit" "$got" "$want"
''',
 "a user or repository with log.abbrevCommit set",
 "The hashes of git log are abbreviated: the run fails.")

seed("code-stats-cache", "C15",
 [("ripsrc/code_info.go", "	res, err := s.codeStats(filePath, bl, fileBytes, lines, res)\n	if err != nil {\n		return res, err\n	}\n", "	// the same content often comes back, in reverts for example\n	key := filePath + \":\" + string(fileBytes)\n	if prev, ok := s.codeStatsCache[key]; ok {\n		prev.Commit, prev.Status, prev.License = res.Commit, res.Status, res.License\n		return prev, nil\n	}\n	res, err := s.codeStats(filePath, bl, fileBytes, lines, res)\n	if err != nil {\n		return res, err\n	}\n	if s.codeStatsCache == nil {\n		s.codeStatsCache = map[string]BlameResult{}\n	}\n	s.codeStatsCache[key] = res\n"),
  ("ripsrc/ripsrc.go", "	fileInfo *fileinfo.Process\n", "	fileInfo *fileinfo.Process\n\n	codeStatsCache map[string]BlameResult\n")],
 r'''
printf 'package a\n\nvar A = 1\n' >"$R/a.go"; C1=$(commit c1)
rm "$R/a.go"; commit c2 >/dev/null
printf 'package a\n\nvar A = 1\n' >"$R/a.go"; C3=$(commit c3)
out=$(show code "$R") || exit 1
check "commits of the lines" "$(echo "$out" | sed -n 's/^  \([0-9a-f]*\) .*/\1/p')" "$C1
$C1
$C1
$C3
$C3
$C3"
''',
 "a file that is removed and added again with the same content",
 "Its lines are reported with the author and commit that wrote them the first time.")

seed("hidden-dirs-skipped", "C19",
 [("ripsrc/pkg/gitrepos/gitrepos.go", "		if !sub.IsDir() {\n", "		if !sub.IsDir() || strings.HasPrefix(sub.Name(), \".\") {\n"),
  ("ripsrc/pkg/gitrepos/gitrepos.go", '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
 r'''
echo a >"$R/f"; C=$(commit c1)
mkdir "$T/all"; mv "$R" "$T/all/.dotfiles"
(cd "$REPO" && go build -tags no_license -o "$T/ripsrc" .) || exit 1
out=$(cd "$T" && ./ripsrc code "$T/all"); rc=$?
check "exit status" "$rc" 0
check "commit listed" "$(echo "$out" | grep "^$C " | head -n 1 | wc -l)" 1
''',
 "a repository in a directory whose name starts with a dot",
 "The repository is not found.")

seed("head-resolved-again", "C22",
 [("ripsrc/branches2/process.go", "	res.HeadSHA = nameAndHash.Commit\n	res.Name = name\n", "	res.HeadSHA = nameAndHash.Commit\n	res.Name = name\n	if name != \"\" && !s.opts.UseOrigin {\n		// full hash of the commit\n		buf, err := execCommand(\"git\", s.opts.RepoDir, []string{\"rev-parse\", \"--verify\", \"--quiet\", \"refs/heads/\" + name})\n		if err == nil {\n			res.HeadSHA = strings.TrimSpace(string(buf))\n		}\n	}\n")],
 r'''
commit c1 >/dev/null
g branch side; g checkout -q side; S=$(commit s1); tick; S2=$(g commit-tree $(g write-tree) -p $S -m s2); g checkout -q master
# git that adds a commit to the branch after branches were listed
mkdir -p "$T/bin"; REAL=$(command -v git)
cat >"$T/bin/git" <<X
#!/bin/bash
"$REAL" "\$@"; rc=\$?
case "\$*" in *for-each-ref*|branch*|*" branch "*) "$REAL" -C "$R" update-ref refs/heads/side $S2 ;; esac
exit \$rc
X
chmod +x "$T/bin/git"
out=$(PATH="$T/bin:$PATH" show branches "$R"); rc=$?
[ $rc = 3 ] && exit 0
check "head and commits of the branch that got a commit" "$(echo "$out" | grep '^"side"' | sed 's/.*head=\([0-9a-f]*\).* commits=\(\[[^]]*\]\).*/\1 \2/')" "$S [$S]"
''',
 "a commit added to a branch between the listing of branches and the processing of that branch",
 "The head that is reported is of a later state than the commits of the branch.")

seed("stderr-temp-file", "C23",
 [("ripsrc/gitexec/gitexec.go", "	c.Stderr = os.Stderr\n	c.Stdout = wr\n	if err := c.Run(); err != nil {\n		return fmt.Errorf(\"failed executing git command %v\", err)\n	}\n	return nil\n", "	c.Stdout = wr\n	errOut, err := ioutil.TempFile(\"\", \"ripsrc-git-stderr\")\n	if err != nil {\n		return err\n	}\n	defer errOut.Close()\n	c.Stderr = errOut\n	if err := c.Run(); err != nil {\n		msg, _ := ioutil.ReadFile(errOut.Name())\n		return fmt.Errorf(\"failed executing git command %v: %s\", err, msg)\n	}\n	return os.Remove(errOut.Name())\n"),
  ("ripsrc/gitexec/gitexec.go", '	"io"\n', '	"io"\n	"io/ioutil"\n')],
 FAULTY + r'''
echo a >"$R/f"; commit c1 >/dev/null
echo b >"$R/f"; commit c2 >/dev/null
mkdir "$T/tmp"; export TMPDIR="$T/tmp"
show blame "$R" >/dev/null || exit 1
check "files left after success" "$(ls "$T/tmp")" ""
faulty '*log*' 50
PATH="$T/bin:$PATH" show blame "$R" >/dev/null
check "files left after git failed" "$(ls "$T/tmp")" ""
''',
 "a git command that fails",
 "A temporary file with git's error output stays behind.")
