From a6f9be72cea02cf3312795eacaba001d67168463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 01/34] fix: merge with a file type change does not report the
 file as removed

---
 ripsrc/history3/process/process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index ebdc1be..704eba1 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -557,6 +557,10 @@ EACHFILE:
 		if isDelete {
 			// only showing deletes and files changed in merge comparent to at least one parent
 			pathPrev := k[len(deletedPrefix):]
+			if files[pathPrev] {
+				// type change (for example file to symlink), which git shows as delete and create of the same path, the file still exists
+				continue
+			}
 			res.Files[pathPrev] = &incblame.Blame{Commit: commitHash}
 			continue
 		}
-- 
2.43.0


From 797db0883dc7f7a2e554565f4693a94f4548a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 02/34] fix: mode change of a binary file keeps the file binary

---
 ripsrc/history3/process/process.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 704eba1..b96e38c 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -1,6 +1,7 @@
 package process
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"io"
@@ -446,6 +447,10 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 					return res, err
 				}
 				blame = bl
+				if len(diff.Hunks) == 0 && isBinaryContent(bl) {
+					// content did not change (mode change), file is still binary
+					blame = *incblame.BlameBinaryFile(commit.Hash)
+				}
 			} else {
 				blame = incblame.Apply(*parentBlame, diff, commit.Hash, diff.PathOrPrev())
 			}
@@ -782,6 +787,26 @@ func (s *Process) slowGitBlame(commitHash string, filePath string) (res incblame
 	return
 }
 
+// isBinaryContent checks for zero byte at the start of the file, same as git does.
+func isBinaryContent(bl incblame.Blame) bool {
+	const firstFewBytes = 8000
+	checked := 0
+	for _, l := range bl.Lines {
+		data := l.Line
+		if len(data) > firstFewBytes-checked {
+			data = data[:firstFewBytes-checked]
+		}
+		if bytes.IndexByte(data, 0) != -1 {
+			return true
+		}
+		checked += len(data) + 1
+		if checked >= firstFewBytes {
+			break
+		}
+	}
+	return false
+}
+
 func (s *Process) RunGetAll() (_ []Result, err error) {
 	res := make(chan Result)
 	done := make(chan bool)
-- 
2.43.0


From d35a9ca63d789cd5b398683ba580297811f761cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 03/34] fix: file names quoted by git are unquoted in blame

---
 ripsrc/history3/incblame/parse.go       |  4 +-
 ripsrc/history3/incblame/parse_utils.go | 77 +++++++++++++++++++++++++
 2 files changed, 79 insertions(+), 2 deletions(-)

diff --git a/ripsrc/history3/incblame/parse.go b/ripsrc/history3/incblame/parse.go
index 08b95ff..35d1af9 100644
--- a/ripsrc/history3/incblame/parse.go
+++ b/ripsrc/history3/incblame/parse.go
@@ -122,11 +122,11 @@ func (p *parser) Parse() (res Diff) {
 	}
 
 	if p.preMeta[metaRenameFrom] != "" {
-		p.diff.PathPrev = p.preMeta[metaRenameFrom]
+		p.diff.PathPrev = unquotePath(p.preMeta[metaRenameFrom])
 		if p.preMeta[metaRenameTo] == "" {
 			panic("has rename from, but not rename to")
 		}
-		p.diff.Path = p.preMeta[metaRenameTo]
+		p.diff.Path = unquotePath(p.preMeta[metaRenameTo])
 	}
 
 	if p.preMeta[metaBinaryFiles] != "" {
diff --git a/ripsrc/history3/incblame/parse_utils.go b/ripsrc/history3/incblame/parse_utils.go
index 465e6da..811f4ba 100644
--- a/ripsrc/history3/incblame/parse_utils.go
+++ b/ripsrc/history3/incblame/parse_utils.go
@@ -106,6 +106,9 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 	if spaceCount == 0 {
 		return "", "", fmt.Errorf("invalid format for diff decl, no space sep %s", diff)
 	}
+	if data[0] == '"' || data[len(data)-1] == '"' {
+		return parseDiffDeclQuoted(diff, data)
+	}
 	remPrefix := func(data []byte, pr string) (string, error) {
 		d2 := data
 		if len(d2) >= 2 && d2[0] == '"' && d2[len(d2)-1] == '"' {
@@ -149,6 +152,80 @@ func parseDiffDecl(diff []byte) (fromPath string, toPath string, _ error) {
 	return
 }
 
+// parseDiffDeclQuoted parses declaration where at least one of the names is quoted by git, happens when name has special characters.
+func parseDiffDeclQuoted(diff []byte, data []byte) (fromPath string, toPath string, _ error) {
+	invalid := fmt.Errorf("invalid format for diff decl, quoted name %s", diff)
+	var from, to []byte
+	if data[0] == '"' {
+		end := 1
+		for end < len(data) && data[end] != '"' {
+			if data[end] == '\\' {
+				end++
+			}
+			end++
+		}
+		if end+2 >= len(data) {
+			return "", "", invalid
+		}
+		from, to = data[:end+1], data[end+2:]
+	} else {
+		i := bytes.Index(data, []byte(" \""))
+		if i == -1 {
+			return "", "", invalid
+		}
+		from, to = data[:i], data[i+1:]
+	}
+	fromPath = unquotePath(string(from))
+	toPath = unquotePath(string(to))
+	if !strings.HasPrefix(fromPath, "a/") || !strings.HasPrefix(toPath, "b/") {
+		return "", "", invalid
+	}
+	return fromPath[2:], toPath[2:], nil
+}
+
+// unquotePath returns actual file name for the name that was quoted by git. Names that are not quoted are returned as is.
+func unquotePath(name string) string {
+	if len(name) < 2 || name[0] != '"' || name[len(name)-1] != '"' {
+		return name
+	}
+	name = name[1 : len(name)-1]
+	var res []byte
+	for i := 0; i < len(name); i++ {
+		if name[i] != '\\' || i+1 == len(name) {
+			res = append(res, name[i])
+			continue
+		}
+		i++
+		if i+2 < len(name) && name[i] >= '0' && name[i] <= '3' {
+			v, err := strconv.ParseUint(name[i:i+3], 8, 8)
+			if err == nil {
+				res = append(res, byte(v))
+				i += 2
+				continue
+			}
+		}
+		switch name[i] {
+		case 'a':
+			res = append(res, '\a')
+		case 'b':
+			res = append(res, '\b')
+		case 'f':
+			res = append(res, '\f')
+		case 'n':
+			res = append(res, '\n')
+		case 'r':
+			res = append(res, '\r')
+		case 't':
+			res = append(res, '\t')
+		case 'v':
+			res = append(res, '\v')
+		default:
+			res = append(res, name[i])
+		}
+	}
+	return string(res)
+}
+
 func countByte(data []byte, b byte) (res int) {
 	for _, v := range data {
 		if v == b {
-- 
2.43.0


From 8930b8439107dc4000ea3928bf54910cefb0bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 04/34] fix: merges with files named as internal deleted marker

---
 ripsrc/history3/process/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index b96e38c..e9b1c35 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -484,7 +484,8 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	return
 }
 
-const deletedPrefix = "@@@del@@@"
+// deletedPrefix uses zero byte, which can not be a part of the file name
+const deletedPrefix = "\x00@@@del@@@"
 
 func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.Commit) (res Result, rerr error) {
 	s.lastProcessedCommitHash = commitHash
-- 
2.43.0


From 74c295b2c007bdf78e47d7ee014170407ace039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 05/34] fix: file names with special characters in commit meta

---
 ripsrc/commitmeta/commitmeta.go | 73 +++++++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 7 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fe7e689..fd23d95 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -230,6 +230,7 @@ var (
 	tab                 = []byte("\t")
 	removePrefix        = []byte("R")
 	copyPrefix          = []byte("C")
+	combinedPrefix      = []byte("::")
 	filenameMask        = regexp.MustCompile("^(100644|100755)$")
 	deletedMask         = []byte("000000")
 	renameRe            = regexp.MustCompile("(.*)\\{(.*) => (.*)\\}(.*)")
@@ -283,11 +284,55 @@ func getFilename(fn string) (string, string, bool) {
 	// straight rename without parts
 	s := strings.Split(fn, " => ")
 	if len(s) > 1 {
-		return s[1], s[0], true
+		return unquotePath(s[1]), unquotePath(s[0]), true
 	}
+	fn = unquotePath(fn)
 	return fn, fn, false
 }
 
+// unquotePath returns actual file name for the name that was quoted by git. Names that are not quoted are returned as is.
+func unquotePath(name string) string {
+	if len(name) < 2 || name[0] != '"' || name[len(name)-1] != '"' {
+		return name
+	}
+	name = name[1 : len(name)-1]
+	var res []byte
+	for i := 0; i < len(name); i++ {
+		if name[i] != '\\' || i+1 == len(name) {
+			res = append(res, name[i])
+			continue
+		}
+		i++
+		if i+2 < len(name) && name[i] >= '0' && name[i] <= '3' {
+			v, err := strconv.ParseUint(name[i:i+3], 8, 8)
+			if err == nil {
+				res = append(res, byte(v))
+				i += 2
+				continue
+			}
+		}
+		switch name[i] {
+		case 'a':
+			res = append(res, '\a')
+		case 'b':
+			res = append(res, '\b')
+		case 'f':
+			res = append(res, '\f')
+		case 'n':
+			res = append(res, '\n')
+		case 'r':
+			res = append(res, '\r')
+		case 't':
+			res = append(res, '\t')
+		case 'v':
+			res = append(res, '\v')
+		default:
+			res = append(res, name[i])
+		}
+	}
+	return string(res)
+}
+
 var (
 	tabSplitter        = regexp.MustCompile("\\t")
 	spaceSplitter      = regexp.MustCompile("[ ]")
@@ -327,6 +372,11 @@ type parser struct {
 	total    int
 	ordinal  int64
 	state    parserState
+
+	// rawNames are file names from the raw part of the current commit, numstat part has the same files in the same order
+	rawNames []string
+	// numstatIndex is the number of processed numstat lines for the current commit
+	numstatIndex int
 }
 
 func (p *parser) parse(line string) (bool, error) {
@@ -369,6 +419,8 @@ func (p *parser) parse(line string) (bool, error) {
 					//Previous: parentCommit,
 				}
 				p.total++
+				p.rawNames = nil
+				p.numstatIndex = 0
 				return true, nil
 			}
 			if bytes.HasPrefix(buf, parentsPrefix) {
@@ -410,6 +462,9 @@ func (p *parser) parse(line string) (bool, error) {
 		case parserStateFiles:
 			if buf[0] == ':' {
 				// :100644␠100644␠d1a02ae0...␠a452aaac...␠M␉·pandora/pom.xml
+				if !bytes.HasPrefix(buf, combinedPrefix) {
+					p.rawNames = append(p.rawNames, unquotePath(string(buf[bytes.LastIndexByte(buf, '\t')+1:])))
+				}
 				tok1 := bytes.Split(buf, space)
 				mask := tok1[1]
 				// fmt.Println(p.commit.SHA, line, string(mask))
@@ -421,7 +476,7 @@ func (p *parser) parse(line string) (bool, error) {
 				action := tok2[0]
 				paths := tok2[1:]
 				if len(action) == 1 {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := unquotePath(string(paths[0]))
 					cf := &CommitFile{
 						Filename: fn,
 						Status:   toCommitStatus(action),
@@ -430,8 +485,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, removePrefix) {
 					// rename
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := unquotePath(string(paths[0]))
+					toFn := unquotePath(string(paths[1]))
 					// panic("renaming [" + fromFn + "] => [" + toFn + "]")
 					p.commit.Files[fromFn] = &CommitFile{
 						Status:      GitFileCommitStatusRemoved,
@@ -451,8 +506,8 @@ func (p *parser) parse(line string) (bool, error) {
 					p.filejobs <- cf
 				} else if bytes.HasPrefix(action, copyPrefix) {
 					// copy a file into a new file ... it's basically a new file
-					fromFn := string(bytes.TrimLeft(paths[0], " "))
-					toFn := string(bytes.TrimLeft(paths[1], " "))
+					fromFn := unquotePath(string(paths[0]))
+					toFn := unquotePath(string(paths[1]))
 					cf := &CommitFile{
 						Status:     GitFileCommitStatusAdded,
 						Filename:   toFn,
@@ -462,7 +517,7 @@ func (p *parser) parse(line string) (bool, error) {
 					p.commit.Files[toFn] = cf
 					p.filejobs <- cf
 				} else {
-					fn := string(bytes.TrimLeft(paths[0], " "))
+					fn := unquotePath(string(paths[0]))
 					cf := &CommitFile{
 						Status:   toCommitStatus(action),
 						Filename: fn,
@@ -480,6 +535,10 @@ func (p *parser) parse(line string) (bool, error) {
 			if len(tok) == 3 {
 				tok := regSplit(string(buf), tabSplitter)
 				fn, _, _ := getFilename(tok[2])
+				if p.numstatIndex < len(p.rawNames) {
+					fn = p.rawNames[p.numstatIndex]
+				}
+				p.numstatIndex++
 				file := p.commit.Files[fn]
 				// fmt.Println("num stats", fn, "=>", oldfn, "renamed", renamed, "is nil?", file == nil)
 				if file == nil {
-- 
2.43.0


From 368417debb8b895be964dea20f866e92e0186e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 06/34] fix: long commit messages do not cut off commit meta

---
 ripsrc/commitmeta/commitmeta.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index fd23d95..83ca717 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -155,6 +155,7 @@ func (s *Processor) Run(res chan Commit) error {
 	parser.filejobs = fjChan
 
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, maxLine)
 	for scanner.Scan() {
 		ok, err := parser.parse(scanner.Text())
 		if err != nil {
@@ -164,6 +165,9 @@ func (s *Processor) Run(res chan Commit) error {
 			break
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return fmt.Errorf("error reading git log from %v. %v", s.repoDir, err)
+	}
 	if parser.commit != nil && parser.commit.SHA != "" { // because we send when we detect the next commit
 		res <- *parser.commit
 	}
@@ -171,6 +175,9 @@ func (s *Processor) Run(res chan Commit) error {
 	return nil
 }
 
+const mb = 1000 * 1000
+const maxLine = 100 * mb
+
 func (s *Processor) gitLog() (io.ReadCloser, error) {
 	// empty file at tem location to set an empty attributesFile
 	f, err := ioutil.TempFile("", "ripsrc")
-- 
2.43.0


From 5a9180d4387757ba5db25dfc5fd1685abc672548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/34] fix: git command failures are returned as errors
 instead of panics

---
 ripsrc/gitblame2/gitblame.go       |  3 ++-
 ripsrc/gitexec/gitexec.go          | 42 +++++++++++++++++++++++++-----
 ripsrc/history3/process/process.go | 33 +++++++++++++----------
 3 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 34d8da9..d49f895 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -1,6 +1,7 @@
 package gitblame2
 
 import (
+	"fmt"
 	"os"
 	"os/exec"
 	"strconv"
@@ -41,7 +42,7 @@ func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	cmd.Stderr = os.Stderr
 	b, err := cmd.Output()
 	if err != nil {
-		panic(err)
+		return res, fmt.Errorf("failed executing git blame %v", err)
 	}
 	res0 := parseOutput(string(b))
 	for _, l0 := range res0 {
diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index fe2d809..e55e0e3 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -122,19 +122,49 @@ func headCommit(ctx context.Context, gitCommand string, repoDir string) string {
 	return res
 }
 
+// ExecPiped runs git command and returns its output while the command is running. If the command fails reading returns an error instead of EOF, and the incomplete last line, if any, is not returned.
 func ExecPiped(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
 	r, wr := io.Pipe()
 	go func() {
-		err := ExecIntoWriter(ctx, wr, gitCommand, repoDir, args)
+		lw := &lineWriter{wr: wr}
+		err := ExecIntoWriter(ctx, lw, gitCommand, repoDir, args)
+		if err == nil {
+			err = lw.flush()
+		}
+		wr.CloseWithError(err)
+	}()
+	return r, nil
+}
+
+// lineWriter passes data to wr in complete lines. Last line without newline is passed on flush.
+type lineWriter struct {
+	wr  io.Writer
+	buf []byte
+}
+
+func (s *lineWriter) Write(b []byte) (int, error) {
+	i := bytes.LastIndexByte(b, '\n') + 1
+	if i > 0 {
+		err := s.flush()
 		if err != nil {
-			panic(err)
+			return 0, err
 		}
-		err = wr.Close()
+		_, err = s.wr.Write(b[:i])
 		if err != nil {
-			panic(err)
+			return 0, err
 		}
-	}()
-	return r, nil
+	}
+	s.buf = append(s.buf, b[i:]...)
+	return len(b), nil
+}
+
+func (s *lineWriter) flush() error {
+	if len(s.buf) == 0 {
+		return nil
+	}
+	_, err := s.wr.Write(s.buf)
+	s.buf = s.buf[:0]
+	return err
 }
 
 func Exec(ctx context.Context, gitCommand string, repoDir string, args []string) (io.ReadCloser, error) {
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index e9b1c35..50f12fb 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -160,15 +160,11 @@ func (s *Process) Run(resChan chan Result) error {
 	p := parser.New(r)
 
 	done := make(chan bool)
+	var parserErr error
 
 	go func() {
-		defer func() {
-			done <- true
-		}()
-		err := p.Run(commits)
-		if err != nil {
-			panic(err)
-		}
+		parserErr = p.Run(commits)
+		done <- true
 	}()
 
 	drainAndExit := func() {
@@ -195,27 +191,32 @@ func (s *Process) Run(resChan chan Result) error {
 		}
 	}
 
+	<-done
+	if parserErr != nil {
+		return fmt.Errorf("could not read git log: %v", parserErr)
+	}
+
 	if len(s.mergeParts) > 0 {
-		s.processGotMergeParts(resChan)
+		err := s.processGotMergeParts(resChan)
+		if err != nil {
+			return err
+		}
 	}
 
 	if i == 0 {
 		// there were no items in log, happens when last processed commit was in a branch that is no longer recent and is skipped in incremental
 		// no need to write checkpoints
-		<-done
 		return nil
 	}
 
 	writer := repo.NewCheckpointWriter(s.opts.Logger)
 	err = writer.Write(s.repo, s.checkpointsDir, s.lastProcessedCommitHash)
 	if err != nil {
-		<-done
 		return err
 	}
 
 	//fmt.Println("max len of stored tree", s.maxLenOfStoredTree)
 	//fmt.Println("repo len", len(s.repo))
-	<-done
 	return nil
 }
 
@@ -245,7 +246,10 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 			return nil
 		} else {
 			// finished
-			s.processGotMergeParts(resChan)
+			err := s.processGotMergeParts(resChan)
+			if err != nil {
+				return err
+			}
 			// new commit
 			// continue below
 		}
@@ -267,14 +271,15 @@ func (s *Process) processCommit(resChan chan Result, commit parser.Commit) error
 	return nil
 }
 
-func (s *Process) processGotMergeParts(resChan chan Result) {
+func (s *Process) processGotMergeParts(resChan chan Result) error {
 	res, err := s.processMergeCommit(s.mergePartsCommit, s.mergeParts)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	s.trimGraphAfterCommitProcessed(s.mergePartsCommit)
 	s.mergeParts = nil
 	resChan <- res
+	return nil
 }
 
 type Timing struct {
-- 
2.43.0


From d7a723b7c63a31ad578fc7547ac5992c447e515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 08/34] fix: incremental processing can start from the root
 commit

---
 ripsrc/commitmeta/commitmeta.go    | 9 ++++-----
 ripsrc/history3/process/process.go | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 83ca717..9c61741 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -207,12 +207,11 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 			}
 		}
 		pf := ""
-		if s.opts.CommitFromMakeNonIncl {
-			pf = "..HEAD"
-		} else {
-			pf = "^..HEAD"
+		if !s.opts.CommitFromMakeNonIncl {
+			// exclude parents of the commit instead of commit itself, root commit does not have any
+			pf = "^@"
 		}
-		args = append(args, s.opts.CommitFromIncl+pf)
+		args = append(args, "HEAD", "^"+s.opts.CommitFromIncl+pf, "--")
 	} else {
 		if s.opts.AllBranches {
 			args = append(args, "--all")
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 50f12fb..3235320 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -858,12 +858,11 @@ func (s *Process) gitLogPatches() (io.ReadCloser, error) {
 			}
 		}
 		pf := ""
-		if s.opts.CommitFromMakeNonIncl {
-			pf = "..HEAD"
-		} else {
-			pf = "^..HEAD"
+		if !s.opts.CommitFromMakeNonIncl {
+			// exclude parents of the commit instead of commit itself, root commit does not have any
+			pf = "^@"
 		}
-		args = append(args, s.opts.CommitFromIncl+pf)
+		args = append(args, "HEAD", "^"+s.opts.CommitFromIncl+pf, "--")
 	} else {
 		if s.opts.AllBranches {
 			args = append(args, "--all")
-- 
2.43.0


From 062988854ec84bce1ff76a775aa72517bb3f73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 09/34] fix: checkpoint keeps commits without files

---
 ripsrc/history3/process/repo/reader.go | 10 +++++++---
 ripsrc/history3/process/repo/writer.go |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 82b2f96..52b2e91 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -143,13 +143,17 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 				}
 				return nil, err
 			}
+			if _, ok := repo[obj.Commit]; !ok {
+				repo[obj.Commit] = map[string]*incblame.Blame{}
+			}
+			if obj.BlamePointer == 0 {
+				// commit without files
+				continue
+			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
 				panic("blame")
 			}
-			if _, ok := repo[obj.Commit]; !ok {
-				repo[obj.Commit] = map[string]*incblame.Blame{}
-			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
 		}
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 61657be..5fa87f0 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -84,6 +84,11 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	for ch, commit := range repo {
 
+		if len(commit) == 0 {
+			// note that commit exists, it does not have any files
+			writeRepoRow(ch, "", 0)
+		}
+
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
 				writeRepoRow(ch, fp, blp)
-- 
2.43.0


From 1d99866697b8665c7bf2b7081a32e9ee3a199aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 10/34] fix: checkpoint does not mix up lines with the same
 hash

---
 ripsrc/history3/process/repo/writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 5fa87f0..5075358 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -1,6 +1,7 @@
 package repo
 
 import (
+	"bytes"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -69,7 +70,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	linePointerC := uint64(0)
 	linePointers := map[*incblame.Line]uint64{}
 
-	lineData := map[uint64]bool{}
+	lineData := map[uint64][]byte{}
 
 	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
 		r := &disk.DataRow{}
@@ -115,7 +116,13 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 				// line data
 				dp := xxhash.Sum64(l.Line)
-				if ok := lineData[dp]; !ok {
+				prev, ok := lineData[dp]
+				for ok && !bytes.Equal(prev, l.Line) {
+					// different line with the same hash
+					dp++
+					prev, ok = lineData[dp]
+				}
+				if !ok {
 					ld := &sLineData{
 						Pointer: dp,
 						Data:    l.Line}
@@ -123,7 +130,7 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 					if err != nil {
 						return err
 					}
-					lineData[dp] = true
+					lineData[dp] = l.Line
 				}
 
 				l2 := &sLine{}
-- 
2.43.0


From 51a928627eb4da96a30379a60bfaaa5b6eea54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 11/34] fix: incomplete checkpoint files are detected

---
 ripsrc/history3/process/repo/msgp.go   |  8 +++++++-
 ripsrc/history3/process/repo/reader.go | 13 ++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/ripsrc/history3/process/repo/msgp.go b/ripsrc/history3/process/repo/msgp.go
index f34b944..83d9bbf 100644
--- a/ripsrc/history3/process/repo/msgp.go
+++ b/ripsrc/history3/process/repo/msgp.go
@@ -41,7 +41,8 @@ func (s *msgWriter) Finish() error {
 	if err != nil {
 		return err
 	}
-	err = s.gw.Flush()
+	// writes the checksum, which is needed to detect incomplete files
+	err = s.gw.Close()
 	if err != nil {
 		return err
 	}
@@ -75,7 +76,12 @@ func newMsgReader(dir string, kind string) (*msgReader, error) {
 	return s, nil
 }
 
+// Read decodes the next object. Returns io.EOF only if there are no more objects and the file is complete.
 func (s *msgReader) Read(obj msgp.Decodable) error {
+	_, err := s.r.R.Peek(1)
+	if err != nil {
+		return err
+	}
 	return obj.DecodeMsg(s.r)
 }
 
diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index 52b2e91..db08631 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -1,7 +1,9 @@
 package repo
 
 import (
+	"errors"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"path/filepath"
 	"time"
@@ -100,7 +102,7 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 			line.Commit = obj.Commit
 			v, ok := lineData[obj.LineDataPointer]
 			if !ok {
-				panic("line data")
+				return nil, errors.New("invalid checkpoint: line data not found")
 			}
 			line.Line = v
 			lines[obj.Pointer] = line
@@ -124,7 +126,7 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 			for _, lp := range obj.LinePointers {
 				line, ok := lines[lp]
 				if !ok {
-					panic("line")
+					return nil, errors.New("invalid checkpoint: line not found")
 				}
 				bl.Lines = append(bl.Lines, line)
 			}
@@ -152,7 +154,7 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 			}
 			bl, ok := blames[obj.BlamePointer]
 			if !ok {
-				panic("blame")
+				return nil, errors.New("invalid checkpoint: blame not found")
 			}
 			repo[obj.Commit][obj.Path] = bl
 			i++
@@ -181,8 +183,5 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 }
 
 func msgIsEOF(err error) bool {
-	if err.Error() == "unexpected EOF" {
-		return true
-	}
-	return false
+	return err == io.EOF
 }
-- 
2.43.0


From 4fbd6c3e2ceca1900d6925476c8b4df86229325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 12/34] fix: commits with unusual dates and time zones do not
 fail processing

---
 ripsrc/commitmeta/commitmeta.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 9c61741..12b40c7 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -197,7 +197,8 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"--raw",
 		"--reverse",
 		"--numstat",
-		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %aI%n!Message: %s%n",
+		"--date=raw",
+		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %ad%n!Message: %s%n",
 	}
 
 	if s.opts.CommitFromIncl != "" {
@@ -254,12 +255,19 @@ func toCommitStatus(name []byte) CommitStatus {
 	panic("unknown commit status: " + string(name))
 }
 
+// parseDate parses git raw date format, which is seconds since epoch and time zone, for example 1500000000 +0100. Unlike in formatted dates any time zone is allowed.
 func parseDate(d string) (time.Time, error) {
-	t, err := time.Parse(time.RFC3339, d)
+	if d == "" {
+		// commit with invalid author line
+		return time.Time{}, nil
+	}
+	var sec, zone int64
+	_, err := fmt.Sscanf(d, "%d %d", &sec, &zone)
 	if err != nil {
 		return time.Now(), fmt.Errorf("error parsing commit date `%v`. %v", d, err)
 	}
-	return t, nil
+	offset := int(zone/100*60+zone%100) * 60
+	return time.Unix(sec, 0).In(time.FixedZone("", offset)), nil
 }
 
 func parseEmail(email string) string {
-- 
2.43.0


From c64f4320b7f7985d48eb611de2dea943b2830564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 13/34] fix: results do not depend on git configuration of the
 user

---
 ripsrc/commitmeta/commitmeta.go    | 21 ++++------------
 ripsrc/gitblame2/gitblame.go       |  8 ++++--
 ripsrc/gitexec/config.go           | 39 ++++++++++++++++++++++++++++++
 ripsrc/history3/process/process.go | 20 +++------------
 ripsrc/parentsgraph/parents.go     |  4 +--
 5 files changed, 56 insertions(+), 36 deletions(-)
 create mode 100644 ripsrc/gitexec/config.go

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index 12b40c7..cdfb63b 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -6,7 +6,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os/exec"
 	"path"
 	"regexp"
@@ -147,6 +146,7 @@ func (s *Processor) Run(res chan Commit) error {
 
 	// we don't need this in new code. TODO: check and remove
 	fjChan := make(chan *CommitFile, 100)
+	defer close(fjChan)
 	go func() {
 		for range fjChan {
 
@@ -179,27 +179,16 @@ const mb = 1000 * 1000
 const maxLine = 100 * mb
 
 func (s *Processor) gitLog() (io.ReadCloser, error) {
-	// empty file at tem location to set an empty attributesFile
-	f, err := ioutil.TempFile("", "ripsrc")
-	if err != nil {
-		return nil, err
-	}
-	err = f.Close()
-	if err != nil {
-		return nil, err
-	}
-
-	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
-		"-c", "diff.renameLimit=10000",
-		"log",
+	args := append(gitexec.ConfigArgs(), "log")
+	args = append(args, gitexec.PatchArgs()...)
+	args = append(args,
 		"-c",
 		"--raw",
 		"--reverse",
 		"--numstat",
 		"--date=raw",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %ad%n!Message: %s%n",
-	}
+	)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index d49f895..1c32fb1 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -6,6 +6,8 @@ import (
 	"os/exec"
 	"strconv"
 	"strings"
+
+	"github.com/pinpt/ripsrc/ripsrc/gitexec"
 )
 
 type Line struct {
@@ -30,13 +32,15 @@ func (r Result) String() string {
 }
 
 func Run(repoDir, commitHash, file string) (res Result, _ error) {
-	args := []string{
+	args := append(gitexec.ConfigArgs(),
+		"-c", "blame.ignoreRevsFile=",
 		"blame",
+		"--no-textconv",
 		commitHash,
 		"--porcelain",
 		"--",
 		file,
-	}
+	)
 	cmd := exec.Command("git", args...)
 	cmd.Dir = repoDir
 	cmd.Stderr = os.Stderr
diff --git a/ripsrc/gitexec/config.go b/ripsrc/gitexec/config.go
new file mode 100644
index 0000000..ab94f14
--- /dev/null
+++ b/ripsrc/gitexec/config.go
@@ -0,0 +1,39 @@
+package gitexec
+
+// ConfigArgs returns args that have to be passed to git before the command name. The output that is parsed should not depend on git configuration of the user.
+func ConfigArgs() (res []string) {
+	config := []string{
+		// do not use user attributes
+		"core.attributesFile=",
+		"diff.algorithm=default",
+		"diff.context=3",
+		"diff.indentHeuristic=true",
+		"diff.interHunkContext=0",
+		"diff.relative=false",
+		"diff.renames=true",
+		"diff.renameLimit=10000",
+		"diff.suppressBlankEmpty=false",
+		"i18n.logOutputEncoding=UTF-8",
+		"log.diffMerges=separate",
+		"log.showRoot=true",
+		"log.showSignature=false",
+	}
+	for _, c := range config {
+		res = append(res, "-c", c)
+	}
+	return
+}
+
+// PatchArgs returns args for log command with patches. See ConfigArgs.
+func PatchArgs() []string {
+	return []string{
+		"--no-color",
+		"--no-decorate",
+		"--no-ext-diff",
+		"--no-textconv",
+		"--ignore-submodules=none",
+		"--submodule=short",
+		"--src-prefix=a/",
+		"--dst-prefix=b/",
+	}
+}
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 3235320..5acb914 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
@@ -829,27 +828,16 @@ func (s *Process) RunGetAll() (_ []Result, err error) {
 }
 
 func (s *Process) gitLogPatches() (io.ReadCloser, error) {
-	// empty file at temp location to set an empty attributesFile
-	f, err := ioutil.TempFile("", "ripsrc")
-	if err != nil {
-		return nil, err
-	}
-	err = f.Close()
-	if err != nil {
-		return nil, err
-	}
-
-	args := []string{
-		"-c", "core.attributesFile=" + f.Name(),
-		"-c", "diff.renameLimit=10000",
-		"log",
+	args := append(gitexec.ConfigArgs(), "log")
+	args = append(args, gitexec.PatchArgs()...)
+	args = append(args,
 		"-p",
 		"-m",
 		"--date-order",
 		"--reverse",
 		"--no-abbrev-commit",
 		"--pretty=short",
-	}
+	)
 
 	if s.opts.CommitFromIncl != "" {
 		if s.opts.AllBranches {
diff --git a/ripsrc/parentsgraph/parents.go b/ripsrc/parentsgraph/parents.go
index 2040872..2c61d13 100644
--- a/ripsrc/parentsgraph/parents.go
+++ b/ripsrc/parentsgraph/parents.go
@@ -84,13 +84,13 @@ func (s *Graph) retrieveParents() error {
 }
 
 func (s *Graph) gitLogParents() (io.ReadCloser, error) {
-	args := []string{
+	args := append(gitexec.ConfigArgs(),
 		"log",
 		"-m",
 		"--reverse",
 		"--no-abbrev-commit",
 		"--pretty=format:%H@%P",
-	}
+	)
 
 	if s.opts.AllBranches {
 		args = append(args, "--all")
-- 
2.43.0


From f6743929f0eb99a18630d4e83c542e43fb329e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 14/34] fix: branches with ambiguous names and origin/HEAD are
 listed correctly

---
 ripsrc/branchmeta/branchmeta.go | 57 ++++++++++++---------------------
 ripsrc/branchmeta/default.go    | 13 ++++----
 ripsrc/commitmeta/commitmeta.go | 12 ++-----
 ripsrc/gittime/gittime.go       | 21 +++++++++++-
 4 files changed, 50 insertions(+), 53 deletions(-)

diff --git a/ripsrc/branchmeta/branchmeta.go b/ripsrc/branchmeta/branchmeta.go
index a1bcdb0..fba5fea 100644
--- a/ripsrc/branchmeta/branchmeta.go
+++ b/ripsrc/branchmeta/branchmeta.go
@@ -3,7 +3,7 @@ package branchmeta
 import (
 	"bytes"
 	"context"
-	"errors"
+	"fmt"
 	"os/exec"
 	"sort"
 	"strings"
@@ -35,13 +35,14 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 	args := []string{
 		"for-each-ref",
 		"--format",
-		"%(objectname)@@@%(refname:short)@@@%(committerdate)",
+		// using full names, short names are different for ambiguous names and origin/HEAD
+		"%(objectname) %(refname) %(committerdate:raw)",
 	}
+	prefix := "refs/heads/"
 	if opts.UseOrigin {
-		args = append(args, "refs/remotes/origin")
-	} else {
-		args = append(args, "refs/heads")
+		prefix = "refs/remotes/origin/"
 	}
+	args = append(args, strings.TrimSuffix(prefix, "/"))
 	data, err := execCommand("git", opts.RepoDir, args)
 	if err != nil {
 		return nil, err
@@ -53,30 +54,25 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 		if len(line) == 0 {
 			continue
 		}
-		if line[0] == '(' {
-			// not a branch, but a entry for detached head
-			// (HEAD detached at faeab7d)
-			continue
-		}
-		parts := strings.SplitN(line, "@@@", 3)
-		if len(parts) != 3 {
-			panic("unexpected format")
+		parts := strings.SplitN(line, " ", 3)
+		if len(parts) < 2 {
+			return nil, fmt.Errorf("unexpected format of the ref: %v", line)
 		}
 		b := BranchWithCommitTime{}
 		b.Commit = parts[0]
-		b.Name = parts[1]
-		date, err := gittime.Parse(parts[2])
-		if err != nil {
-			panic("invalid date format")
+		if !strings.HasPrefix(parts[1], prefix) {
+			return nil, fmt.Errorf("branch name does not have %v prefix: %v", prefix, line)
 		}
-		b.CommitCommitterTime = date
-		if opts.UseOrigin {
-			if !strings.HasPrefix(b.Name, "origin/") {
-				panic("branch name does not have origin/ prefix")
+		b.Name = strings.TrimPrefix(parts[1], prefix)
+		if len(parts) == 3 {
+			date, err := gittime.ParseRaw(parts[2])
+			if err != nil {
+				return nil, fmt.Errorf("invalid date format: %v", line)
 			}
-			b.Name = strings.TrimPrefix(b.Name, "origin/")
+			b.CommitCommitterTime = date
 		}
-		if b.Name == "HEAD" {
+		if opts.UseOrigin && b.Name == "HEAD" {
+			// not a branch, but a reference to the default branch
 			continue
 		}
 		if !opts.IncludeDefault && b.Name == defaultBranch {
@@ -93,20 +89,7 @@ func Get(ctx context.Context, opts Opts) (res []BranchWithCommitTime, _ error) {
 }
 
 func getDefaultBranch(opts Opts) (string, error) {
-	args := []string{
-		"symbolic-ref",
-		"--short",
-		"HEAD",
-	}
-	data, err := execCommand("git", opts.RepoDir, args)
-	if err != nil {
-		return "", err
-	}
-	res := strings.TrimSpace(string(data))
-	if len(res) == 0 {
-		return "", errors.New("could not get the default branch name")
-	}
-	return res, nil
+	return headBranch("git", opts.RepoDir)
 }
 
 func execCommand(command string, dir string, args []string) ([]byte, error) {
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index 72a7e31..ab37f3f 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -13,7 +13,7 @@ type Branch struct {
 
 func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 
-	name, err := headBranch(ctx, "git", repoDir)
+	name, err := headBranch("git", repoDir)
 	if err != nil {
 		return res, err
 	}
@@ -26,14 +26,15 @@ func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 	return res, nil
 }
 
-func headBranch(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "--abbrev-ref", "HEAD"})
+func headBranch(gitCommand string, repoDir string) (string, error) {
+	// using full name, short name is different when there is a tag with the same name
+	data, err := execCommand(gitCommand, repoDir, []string{"symbolic-ref", "HEAD"})
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimSpace(string(data))
-	if res == "HEAD" {
-		return "", errors.New("cound not retrieve the name of the default branch")
+	res := strings.TrimPrefix(strings.TrimSpace(string(data)), "refs/heads/")
+	if res == "" {
+		return "", errors.New("could not retrieve the name of the default branch")
 	}
 	return res, nil
 }
diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index cdfb63b..d18c0c7 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -14,6 +14,7 @@ import (
 	"time"
 
 	"github.com/pinpt/ripsrc/ripsrc/gitexec"
+	"github.com/pinpt/ripsrc/ripsrc/gittime"
 )
 
 type Opts struct {
@@ -244,19 +245,12 @@ func toCommitStatus(name []byte) CommitStatus {
 	panic("unknown commit status: " + string(name))
 }
 
-// parseDate parses git raw date format, which is seconds since epoch and time zone, for example 1500000000 +0100. Unlike in formatted dates any time zone is allowed.
 func parseDate(d string) (time.Time, error) {
-	if d == "" {
-		// commit with invalid author line
-		return time.Time{}, nil
-	}
-	var sec, zone int64
-	_, err := fmt.Sscanf(d, "%d %d", &sec, &zone)
+	t, err := gittime.ParseRaw(d)
 	if err != nil {
 		return time.Now(), fmt.Errorf("error parsing commit date `%v`. %v", d, err)
 	}
-	offset := int(zone/100*60+zone%100) * 60
-	return time.Unix(sec, 0).In(time.FixedZone("", offset)), nil
+	return t, nil
 }
 
 func parseEmail(email string) string {
diff --git a/ripsrc/gittime/gittime.go b/ripsrc/gittime/gittime.go
index e8d4bee..f918c14 100644
--- a/ripsrc/gittime/gittime.go
+++ b/ripsrc/gittime/gittime.go
@@ -1,9 +1,28 @@
 package gittime
 
-import "time"
+import (
+	"fmt"
+	"time"
+)
 
 // Parse parses timestamp in default git format.
 func Parse(d string) (time.Time, error) {
 	//Tue Nov 27 21:55:36 2018 +0100
 	return time.Parse("Mon Jan 2 15:04:05 2006 -0700", d)
 }
+
+// ParseRaw parses timestamp in raw git format, which is seconds since epoch and time zone. Unlike in the formatted dates any time zone is allowed.
+func ParseRaw(d string) (time.Time, error) {
+	if d == "" {
+		// invalid author or committer line
+		return time.Time{}, nil
+	}
+	//1500000000 +0100
+	var sec, zone int64
+	_, err := fmt.Sscanf(d, "%d %d", &sec, &zone)
+	if err != nil {
+		return time.Time{}, err
+	}
+	offset := int(zone/100*60+zone%100) * 60
+	return time.Unix(sec, 0).In(time.FixedZone("", offset)), nil
+}
-- 
2.43.0


From a02975edfd3bda2ea1bdb67c11b01ce7d23492d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 15/34] fix: behind count does not include commits that are in
 the branch

---
 ripsrc/branches2/behind_branch.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/ripsrc/branches2/behind_branch.go b/ripsrc/branches2/behind_branch.go
index ed49bde..d77c392 100644
--- a/ripsrc/branches2/behind_branch.go
+++ b/ripsrc/branches2/behind_branch.go
@@ -2,34 +2,14 @@ package branches2
 
 import "github.com/pinpt/ripsrc/ripsrc/parentsgraph"
 
-func reachableFromBranchStopOnDefault(gr *parentsgraph.Graph, reachableFromDefault reachableFromHead, branchHead string) map[string]bool {
-	res := map[string]bool{}
-	done := map[string]bool{}
-	var rec func(string)
-	rec = func(hash string) {
-		if done[hash] {
-			return
-		}
-		done[hash] = true
-		res[hash] = true
-		if reachableFromDefault[hash] {
-			return
-		}
-		for _, p := range gr.Parents[hash] {
-			rec(p)
-		}
-	}
-	rec(branchHead)
-	return res
-}
-
 func behindBranch(
 	gr *parentsgraph.Graph,
 	reachableFromDefault reachableFromHead,
 	branchHead string,
 	defaultHead string) (res int) {
 
-	rfb := reachableFromBranchStopOnDefault(gr, reachableFromDefault, branchHead)
+	// need all commits of the branch, as commits before the branch point could be reachable from default branch using another path
+	rfb := newReachableFromHead(gr, branchHead)
 
 	done := map[string]bool{}
 	var rec func(string)
-- 
2.43.0


From 2e65ff55cb8a8f0072ed9020bfb029a113340051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 16/34] fix: first commit of the default branch with more than
 one root

---
 ripsrc/branches2/process.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 3897fcf..e7c3fbd 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"errors"
 	"runtime"
 	"strings"
 	"sync"
@@ -107,7 +108,12 @@ func (s *Process) getFirstCommit() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return strings.TrimSpace(string(buf)), nil
+	// there could be more than one root, using the oldest one
+	roots := strings.Fields(string(buf))
+	if len(roots) == 0 {
+		return "", errors.New("could not get the first commit of the default branch")
+	}
+	return roots[len(roots)-1], nil
 }
 
 func (s *Process) Run(ctx context.Context, res chan Branch) error {
-- 
2.43.0


From 4f2aa11f3b8450ea3d10864bf570f2ee9ec1808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 17/34] fix: command line tool exits with non-zero status on
 errors

---
 ripsrc/cmd/cmdutils/errors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/cmd/cmdutils/errors.go b/ripsrc/cmd/cmdutils/errors.go
index cebec84..03116e4 100644
--- a/ripsrc/cmd/cmdutils/errors.go
+++ b/ripsrc/cmd/cmdutils/errors.go
@@ -9,6 +9,7 @@ import (
 
 func ExitWithErr(err error) {
 	fmt.Fprintln(color.Output, color.RedString("failed with error: %v\n", err.Error()))
+	os.Exit(1)
 }
 
 func ExitWithErrs(errs []error) {
-- 
2.43.0


From 6974aa0ec12f8389189b81c5baad1a0880e1fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 18/34] fix: command line tool shows number of blank lines

---
 ripsrc/cmd/cmdcode/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ripsrc/cmd/cmdcode/cmd.go b/ripsrc/cmd/cmdcode/cmd.go
index 04f3b43..0d07b30 100644
--- a/ripsrc/cmd/cmdcode/cmd.go
+++ b/ripsrc/cmd/cmdcode/cmd.go
@@ -116,7 +116,7 @@ func runOnRepo(ctx context.Context, wr io.Writer, opts Opts, repoDir string, glo
 						license = fmt.Sprintf("%v (%.0f%%)", color.RedString(blame.License.Name), 100*blame.License.Confidence)
 					}
 					timeSinceStartMin := int(time.Since(globalStart).Minutes())
-					fmt.Fprintf(color.Output, "[%s][%s][%sm] %s language=%s,license=%v,loc=%v,sloc=%v,comments=%v,blanks=%v,complexity=%v,skipped=%v,status=%s,author=%s\n", color.YellowString("%v", repoDir), color.CyanString(blame.Commit.SHA[0:8]), color.YellowString("%v", timeSinceStartMin), color.GreenString(blame.Filename), color.MagentaString(blame.Language), license, blame.Loc, color.YellowString("%v", blame.Sloc), blame.Comments, blame.Comments, blame.Complexity, blame.Skipped, blame.Commit.Files[blame.Filename].Status, blame.Commit.Author())
+					fmt.Fprintf(color.Output, "[%s][%s][%sm] %s language=%s,license=%v,loc=%v,sloc=%v,comments=%v,blanks=%v,complexity=%v,skipped=%v,status=%s,author=%s\n", color.YellowString("%v", repoDir), color.CyanString(blame.Commit.SHA[0:8]), color.YellowString("%v", timeSinceStartMin), color.GreenString(blame.Filename), color.MagentaString(blame.Language), license, blame.Loc, color.YellowString("%v", blame.Sloc), blame.Comments, blame.Blanks, blame.Complexity, blame.Skipped, blame.Commit.Files[blame.Filename].Status, blame.Commit.Author())
 
 				}
 			}
-- 
2.43.0


From eafe90100f622a6ede5cc425cca6e093f0d0e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 19/34] fix: return an error instead of panicking when a
 checkpoint row can't be written

A full disk while writing repo rows crashed the process.
---
 ripsrc/history3/process/repo/writer.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 5075358..8105bbc 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -72,27 +72,28 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 
 	lineData := map[uint64][]byte{}
 
-	writeRepoRow := func(commit string, filePath string, blamePointer uint64) {
+	writeRepoRow := func(commit string, filePath string, blamePointer uint64) error {
 		r := &disk.DataRow{}
 		r.Commit = commit
 		r.Path = filePath
 		r.BlamePointer = blamePointer
-		err := repoWr.Write(r)
-		if err != nil {
-			panic(err)
-		}
+		return repoWr.Write(r)
 	}
 
 	for ch, commit := range repo {
 
 		if len(commit) == 0 {
 			// note that commit exists, it does not have any files
-			writeRepoRow(ch, "", 0)
+			if err := writeRepoRow(ch, "", 0); err != nil {
+				return err
+			}
 		}
 
 		for fp, file := range commit {
 			if blp, ok := blamePointers[file]; ok {
-				writeRepoRow(ch, fp, blp)
+				if err := writeRepoRow(ch, fp, blp); err != nil {
+					return err
+				}
 				continue
 			}
 			blamePointerC++
@@ -151,7 +152,9 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 				return err
 			}
 
-			writeRepoRow(ch, fp, blp)
+			if err := writeRepoRow(ch, fp, blp); err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 8085db516173d5ae3862677a99c330c0a216460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 20/34] fix: files removed in merges have removed status

Code returned them as modified files without lines.
---
 ripsrc/commitmeta/commitmeta.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index d18c0c7..a9877e4 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -187,6 +187,7 @@ func (s *Processor) gitLog() (io.ReadCloser, error) {
 		"--raw",
 		"--reverse",
 		"--numstat",
+		"--summary",
 		"--date=raw",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %ad%n!Message: %s%n",
 	)
@@ -228,6 +229,7 @@ var (
 	removePrefix        = []byte("R")
 	copyPrefix          = []byte("C")
 	combinedPrefix      = []byte("::")
+	summaryDeletePrefix = []byte(" delete mode ")
 	filenameMask        = regexp.MustCompile("^(100644|100755)$")
 	deletedMask         = []byte("000000")
 	renameRe            = regexp.MustCompile("(.*)\\{(.*) => (.*)\\}(.*)")
@@ -564,6 +566,16 @@ func (p *parser) parse(line string) (bool, error) {
 				continue
 			}
 		case parserStateDiff:
+			// files of merges do not have status in raw output, only in summary
+			// ␠delete mode 100644␠main.go
+			if len(p.commit.Parents) > 1 && bytes.HasPrefix(buf, summaryDeletePrefix) {
+				rest := buf[len(summaryDeletePrefix):]
+				fn := unquotePath(string(rest[bytes.IndexByte(rest, ' ')+1:]))
+				if file := p.commit.Files[fn]; file != nil {
+					file.Status = GitFileCommitStatusRemoved
+				}
+				return true, nil
+			}
 			if line[0:1] == "!" {
 				p.state = parserStateHeader
 				continue
-- 
2.43.0


From 849dba6ef8214d227eea6697c050839758ff96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:16 +0000
Subject: [PATCH 21/34] fix: authors of lines from commits before the
 incremental range

Name, email and date of lines were empty when the line was last changed before CommitFromIncl.
---
 ripsrc/commit_info.go           | 12 ++++++++++++
 ripsrc/commitmeta/commitmeta.go | 17 +++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/ripsrc/commit_info.go b/ripsrc/commit_info.go
index 6ab5bac..e648e27 100644
--- a/ripsrc/commit_info.go
+++ b/ripsrc/commit_info.go
@@ -17,6 +17,18 @@ func (s *Ripsrc) getCommitInfo(ctx context.Context, wantedBranchRefs []string) e
 	if err != nil {
 		return err
 	}
+	if s.opts.CommitFromIncl != "" {
+		// lines of processed files could be from commits before the requested range
+		all, err := commitmeta.New(s.opts.RepoDir, commitmeta.Opts{NoFiles: true}).RunMap()
+		if err != nil {
+			return err
+		}
+		for sha, c := range all {
+			if _, ok := res[sha]; !ok {
+				res[sha] = c
+			}
+		}
+	}
 	s.commitMeta = res
 	return nil
 }
diff --git a/ripsrc/commitmeta/commitmeta.go b/ripsrc/commitmeta/commitmeta.go
index a9877e4..987cf35 100644
--- a/ripsrc/commitmeta/commitmeta.go
+++ b/ripsrc/commitmeta/commitmeta.go
@@ -29,6 +29,9 @@ type Opts struct {
 
 	// AllBranches set to true to process all branches. If false, processes commits reachable from HEAD only.
 	AllBranches bool
+
+	// NoFiles set to true to skip retrieving changed files, which is faster.
+	NoFiles bool
 }
 
 type Processor struct {
@@ -182,12 +185,18 @@ const maxLine = 100 * mb
 func (s *Processor) gitLog() (io.ReadCloser, error) {
 	args := append(gitexec.ConfigArgs(), "log")
 	args = append(args, gitexec.PatchArgs()...)
+	if s.opts.NoFiles {
+		args = append(args, "--no-patch")
+	} else {
+		args = append(args,
+			"-c",
+			"--raw",
+			"--numstat",
+			"--summary",
+		)
+	}
 	args = append(args,
-		"-c",
-		"--raw",
 		"--reverse",
-		"--numstat",
-		"--summary",
 		"--date=raw",
 		"--pretty=format:!SHA: %H%n!Parents: %P%n!Committer: %ce%n!CName: %cn%n!Author: %ae%n!AName: %an%n!Date: %ad%n!Message: %s%n",
 	)
-- 
2.43.0


From bab594adff59a17ce8652c214d2a64de55a91bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 22/34] fix: same license name for the same text

Several SPDX names share one text, sort did not order those.
---
 ripsrc/fileinfo/license_enabled.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ripsrc/fileinfo/license_enabled.go b/ripsrc/fileinfo/license_enabled.go
index a985559..882aee4 100644
--- a/ripsrc/fileinfo/license_enabled.go
+++ b/ripsrc/fileinfo/license_enabled.go
@@ -56,7 +56,11 @@ func detect(filename string, buf []byte) (*License, error) {
 		}
 		if len(matches) > 0 {
 			sort.Slice(matches, func(i, j int) bool {
-				return matches[i].Confidence > matches[j].Confidence
+				if matches[i].Confidence != matches[j].Confidence {
+					return matches[i].Confidence > matches[j].Confidence
+				}
+				// same text for several names, for example -only and -or-later, always use the same one
+				return matches[i].Name < matches[j].Name
 			})
 			if matches[0].Confidence >= minConfidenceLevel {
 				return &matches[0], nil
-- 
2.43.0


From 87e76bc8d878f53be5d93e2cdf820572bfb191a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 23/34] fix: last pattern of the exclusion list was ignored

It has no newline at the end, generator dropped it.
---
 genignore.go                 | 11 ++++++-----
 ripsrc/fileinfo/gitignore.go |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/genignore.go b/genignore.go
index 86d8937..cc3253a 100644
--- a/genignore.go
+++ b/genignore.go
@@ -49,13 +49,14 @@ func parseFile(filename string) ([]string, error) {
 	matches := []string{}
 	for {
 		line, err := b.ReadString('\n')
-		if err != nil {
-			if err == io.EOF {
-				break
-			}
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
-		line = strings.TrimSpace(line[0 : len(line)-1])
+		if err == io.EOF && line == "" {
+			break
+		}
+		// last line could be missing the newline
+		line = strings.TrimSpace(strings.TrimSuffix(line, "\n"))
 		if line == "" || line == "\n" || line[0] == '#' || line[0] == '!' || line[0] == '\t' {
 			continue
 		}
diff --git a/ripsrc/fileinfo/gitignore.go b/ripsrc/fileinfo/gitignore.go
index 8121c0b..814cdb2 100644
--- a/ripsrc/fileinfo/gitignore.go
+++ b/ripsrc/fileinfo/gitignore.go
@@ -4,4 +4,4 @@ package fileinfo
 
 import "regexp"
 
-var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$)`)
+var ignorePatterns = regexp.MustCompile(`(Godeps|vendor/|Gopkg\.lock$|Gopkg\.toml$|glide\.lock$|glide\.yaml$|(^|/)go\.mod$|(^|/)go\.sum$|Cargo\.toml$|Gemfile$|\.gemspec$|node_modules|\.webpack|package\.json$|package-lock\.json$|yarn\.lock$|\.babelrc$|\.babelrc\.js$|babel\.config\.js$|\.flowconfig$|\.eslintrc(\.js|\.json)?$|\.eslintignore$|\.npmrc$|\.bowerrc$|\.jshintrc$|jsconfig\.json$|tsconfig\.json$|lerna\.json$|tslint\.(yaml|json)$|\.vscode/|\.angular-cli\.json$|gulpfile\.js$|\.jsbeautifyrc$|\.arc$|\.prettierignore$|mocha\.opts$|Gruntfile$|[-\.]min\.js$|[-\.]min\.css$|\.js\.map$|\.css\.map$|\.ipynb_checkpoints|proguard|\.class$|\.project$|\.jar$|^dexguard/|dexguard-project-(debug|release)\.txt$|__pycache__|\.pyc$|\.flake8$|\.pylintrc$|tox\.ini$|\.pydevproject$|\.circleci|circle\.yml$|\.github|\.travis\.yml$|vendor/bundle|vendor/cache|\.shippable\.yml$|\.codecov\.yml$|CMakeLists\.txt$|\.gitlab-ci\.yml$|\.drone\.yml$|\.codecov\.yml$|appveyor\.yml$|\.codeclimate\.yml$|\.dockerignore$|\.npmignore$|\.cmake\.in$|Makefile\.in$|Jenkinsfile$|^fastlane/Appfile$|^fastlane/Fastfile$|^build\.gradle$|^gradle\.properties$|LICENSE(\.md|\.txt|\.rst)?|README(\.md|\.txt|\.rst)?|AUTHORS(\.md|\.txt|\.rst)?|CHANGELOG(\.md|\.txt|\.rst)?|CHANGES(\.md|\.txt|\.rst)?|DCO(\.md|\.txt|\.rst)?|CONTRIBUTING(\.md|\.txt|\.rst)?|VERSION(\.md|\.txt|\.rst)?|CODE_OF_CONDUCT(\.md|\.txt|\.rst)?|COPYING(\.md|\.txt|\.rst)?|ISSUE_TEMPLATE(\.md|\.txt|\.rst)?|NOTICE(\.md|\.txt|\.rst)?|MAINTAINERS(\.md|\.txt|\.rst)?|\.ar$|\.zip$|\.gz$|\.gzip$|\.Z$|\.tar$|\.bz2$|\.cab$|\.crx$|\.lz$|\.7z$|\.bzip$|\.bson$|\.nupkg$|\.eps$|\.ps$|\.gif$|\.png$|\.jpg$|\.jpeg$|\.ttf$|\.svg$|\.webp$|\.bmp$|\.ico$|\.psd$|\.tif$|\.tiff$|\.xcf$|\.ico$|\.psd$|\.ai$|\.sketch$|\.icns$|\.icc$|\.[P]pdf$|\.doc$|\.xls$|\.docx$|\.docm$|\.dot$|\.dotm$|\.xlsx$|\.ppt$|\.pptx$|\.rtf$|\.mpg$|\.mp3$|\.mp4$|\.ogg$|\.avi$|\.mov$|\.fla$|\.flv$|\.midi$|\.wmf$|\.woff$|\.woff2$|\.eot$|\.otf$|\.a$|\.o$|\.dylib$|\.dll$|\.so$|\.pch$|\.tlb$|\.pdb$|\.ipdb$|\.nupkg$|\.ldf$|\.ndf$|\.plg$|\.h\.in$|\.lib$|\.la$|\.llblgenproj$|\.out$|\.app$|\.sqlite$|\.mdf$|\.sdf$|\.pem$|\.p12$|\.pfx$|\.asc$|\.pkcs12$|\.ipr$|\.iws$|\.iml$|\.sln$|\.csproj$|\.vbproj$|\.fsproj$|\.dbproj$|\.deb$|\.elf$|\.jxr$|\.bin$|\.swf$|\.bin$|\.example$|\.log$|\.mailmap$|\.editorconfig$|robots\.txt$|\.vscodeignore$|\.coveragerc$|\.settings$|\.project$|\.bak$|Screengrabfile$|\.orc$|\.parquet$)`)
-- 
2.43.0


From a7cbe829c997ae64b8d9fc3d9fe9c6a13be38bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 24/34] fix: commit graph that could not be read is not used
 again

---
 ripsrc/ripsrc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ripsrc/ripsrc.go b/ripsrc/ripsrc.go
index 9da0c47..f88a024 100644
--- a/ripsrc/ripsrc.go
+++ b/ripsrc/ripsrc.go
@@ -94,11 +94,15 @@ func (s *Ripsrc) buildCommitGraph(ctx context.Context) error {
 		return nil
 	}
 
-	s.commitGraph = parentsgraph.New(parentsgraph.Opts{
+	commitGraph := parentsgraph.New(parentsgraph.Opts{
 		RepoDir:     s.opts.RepoDir,
 		AllBranches: s.opts.AllBranches,
 		Logger:      s.opts.Logger,
 	})
-
-	return s.commitGraph.Read()
+	err := commitGraph.Read()
+	if err != nil {
+		return err
+	}
+	s.commitGraph = commitGraph
+	return nil
 }
-- 
2.43.0


From ea4accf3bd1e69fa3c67f545151a893341d93469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 25/34] fix: directories of a bare repo are not searched for
 repos

---
 ripsrc/pkg/gitrepos/gitrepos.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/pkg/gitrepos/gitrepos.go b/ripsrc/pkg/gitrepos/gitrepos.go
index ce2e7db..3600147 100644
--- a/ripsrc/pkg/gitrepos/gitrepos.go
+++ b/ripsrc/pkg/gitrepos/gitrepos.go
@@ -45,6 +45,7 @@ func IterDir(dir string, maxRecursion int, cb func(repo string) error) error {
 			if err != nil {
 				return err
 			}
+			return nil
 		}
 	}
 
-- 
2.43.0


From 98a7455ca51ed04a73242f82ca4ae6ada8cd88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 26/34] fix: log message is a single write

---
 ripsrc/pkg/logger/logger.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ripsrc/pkg/logger/logger.go b/ripsrc/pkg/logger/logger.go
index f717566..b902a70 100644
--- a/ripsrc/pkg/logger/logger.go
+++ b/ripsrc/pkg/logger/logger.go
@@ -35,15 +35,12 @@ func (s *DefaultLogger) log(kind string, msg string, args ...interface{}) {
 	write := func(format string, args ...interface{}) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		p := fmt.Sprintf(format, args...)
+		// the whole line in one write, wr could be shared with other writers
+		p := fmt.Sprintf(format, args...) + "\n"
 		_, err := s.wr.Write([]byte(p))
 		if err != nil {
 			panic(err)
 		}
-		_, err = s.wr.Write([]byte("\n"))
-		if err != nil {
-			panic(err)
-		}
 	}
 	kvs, err := formatArgs(args)
 	if err != nil {
-- 
2.43.0


From 16ef86daaf182a23e7a999c3889879cee44a4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 27/34] fix: results do not depend on core.bigFileThreshold

---
 ripsrc/gitexec/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ripsrc/gitexec/config.go b/ripsrc/gitexec/config.go
index ab94f14..a911edb 100644
--- a/ripsrc/gitexec/config.go
+++ b/ripsrc/gitexec/config.go
@@ -5,6 +5,7 @@ func ConfigArgs() (res []string) {
 	config := []string{
 		// do not use user attributes
 		"core.attributesFile=",
+		"core.bigFileThreshold=512m",
 		"diff.algorithm=default",
 		"diff.context=3",
 		"diff.indentHeuristic=true",
-- 
2.43.0


From 0a55715e299087e4886b31ea83c47a90eae479ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 28/34] fix: results do not depend on GIT_DIFF_OPTS

---
 ripsrc/gitexec/gitexec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ripsrc/gitexec/gitexec.go b/ripsrc/gitexec/gitexec.go
index e55e0e3..ace06ed 100644
--- a/ripsrc/gitexec/gitexec.go
+++ b/ripsrc/gitexec/gitexec.go
@@ -179,6 +179,8 @@ func Exec(ctx context.Context, gitCommand string, repoDir string, args []string)
 func ExecIntoWriter(ctx context.Context, wr io.Writer, gitCommand string, repoDir string, args []string) error {
 	c := exec.CommandContext(ctx, gitCommand, args...)
 	c.Dir = repoDir
+	// has precedence over diff.context
+	c.Env = append(os.Environ(), "GIT_DIFF_OPTS=")
 	c.Stderr = os.Stderr
 	c.Stdout = wr
 	if err := c.Run(); err != nil {
-- 
2.43.0


From 9e29d088fc536dccc7c9b501af619c18c9f7a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 29/34] fix: commit on top of a branch that is not in the
 checkpoint returns error instead of panic

---
 ripsrc/history3/process/process.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 5acb914..0dae0f1 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -281,6 +281,17 @@ func (s *Process) processGotMergeParts(resChan chan Result) error {
 	return nil
 }
 
+// checkParents returns an error when parent was not processed. Happens in incremental when the commit continues or merges a branch that is too old to be in the checkpoint.
+func (s *Process) checkParents(commitHash string, parents []string) error {
+	for _, p := range parents {
+		_, ok := s.repo[p]
+		if !ok {
+			return fmt.Errorf("commit: %v has parent that is not in the checkpoint: %v", commitHash, p)
+		}
+	}
+	return nil
+}
+
 type Timing struct {
 	RegularCommitsCount int
 	RegularCommitsTime  time.Duration
@@ -353,6 +364,10 @@ func (s *Process) processRegularCommit(commit parser.Commit) (res Result, rerr e
 	if len(commit.Parents) > 1 {
 		panic("not a regular commit")
 	}
+	rerr = s.checkParents(commit.Hash, commit.Parents)
+	if rerr != nil {
+		return
+	}
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commit.Hash)
 
@@ -502,12 +517,17 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 		s.timing.MergesCount++
 	}()
 
+	parentHashes := s.graph.Parents[commitHash]
+	rerr = s.checkParents(commitHash, parentHashes)
+	if rerr != nil {
+		return
+	}
+
 	// note that commit exists (important for empty commits)
 	s.repo.AddCommit(commitHash)
 
 	//fmt.Println("processing merge commit", commitHash)
 
-	parentHashes := s.graph.Parents[commitHash]
 	parentCount := len(parentHashes)
 
 	res.Commit = commitHash
-- 
2.43.0


From 267a3e6fd0ee9e7b702ee851b49b3b6383e6552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 30/34] fix: repo that is changed during processing returns
 error instead of panic

---
 ripsrc/branches2/process.go        | 13 ++++++++++++-
 ripsrc/code.go                     | 11 ++++++++++-
 ripsrc/history3/process/process.go |  7 ++++++-
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index e7c3fbd..79f19bf 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -5,6 +5,7 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"runtime"
 	"strings"
 	"sync"
@@ -124,6 +125,9 @@ func (s *Process) Run(ctx context.Context, res chan Branch) error {
 		return err
 	}
 	s.defaultBranch = nameAndHash{Name: defaultBranch.Name, Commit: defaultBranch.Commit}
+	if _, ok := s.opts.CommitGraph.Parents[s.defaultBranch.Commit]; !ok {
+		return errNotInGraph(s.defaultBranch)
+	}
 
 	if !s.opts.PullRequestsOnly && s.opts.IncludeDefaultBranch {
 		firstCommit, err := s.getFirstCommit()
@@ -168,7 +172,8 @@ func (s *Process) Run(ctx context.Context, res chan Branch) error {
 				err := lastErr
 				lastErrMu.Unlock()
 				if err != nil {
-					return
+					// reading remaining branches to let the sender finish
+					continue
 				}
 				err = s.processBranch(ctx, nameAndHash, res)
 				if err != nil {
@@ -183,6 +188,10 @@ func (s *Process) Run(ctx context.Context, res chan Branch) error {
 	return lastErr
 }
 
+func errNotInGraph(branch nameAndHash) error {
+	return fmt.Errorf("branch: %v commit: %v is not in the commit graph, repo was changed after reading the graph", branch.Name, branch.Commit)
+}
+
 func uniqueStrings(arr1 []string) (res []string) {
 	m := map[string]bool{}
 	for _, s := range arr1 {
@@ -248,6 +257,8 @@ func (s *Process) processBranch(ctx context.Context, nameAndHash nameAndHash, re
 		if _, ok := s.opts.CommitGraph.Parents[nameAndHash.Commit]; !ok {
 			return nil
 		}
+	} else if _, ok := gr.Parents[nameAndHash.Commit]; !ok {
+		return errNotInGraph(nameAndHash)
 	}
 	res.HeadSHA = nameAndHash.Commit
 	res.Name = name
diff --git a/ripsrc/code.go b/ripsrc/code.go
index 606e110..e4f2e86 100644
--- a/ripsrc/code.go
+++ b/ripsrc/code.go
@@ -142,15 +142,21 @@ func (s *Ripsrc) CodeByCommit(ctx context.Context, res chan CommitCode) error {
 
 	gitRes := make(chan process.Result)
 	done := make(chan bool)
+	var codeErr error
 	go func() {
 		for r1 := range gitRes {
+			if codeErr != nil {
+				// reading remaining commits to let the processor finish
+				continue
+			}
 			sha := r1.Commit
 
 			rc := CommitCode{}
 			rc.Blames = make(chan BlameResult)
 			commit, ok := s.commitMeta[sha]
 			if !ok {
-				panic(fmt.Errorf("commit not found in commit meta: %v", r1.Commit))
+				codeErr = fmt.Errorf("commit not found in commit meta: %v", r1.Commit)
+				continue
 			}
 			rc.Commit = commit
 
@@ -185,6 +191,9 @@ func (s *Ripsrc) CodeByCommit(ctx context.Context, res chan CommitCode) error {
 	if err != nil {
 		return err
 	}
+	if codeErr != nil {
+		return codeErr
+	}
 
 	s.GitProcessTimings = gitProcessor.Timing()
 
diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 0dae0f1..2df95fe 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -182,7 +182,12 @@ func (s *Process) Run(resChan chan Result) error {
 			}
 		}
 		i++
-		commit.Parents = s.graph.Parents[commit.Hash]
+		parents, ok := s.graph.Parents[commit.Hash]
+		if !ok {
+			drainAndExit()
+			return fmt.Errorf("commit: %v is not in the commit graph, repo was changed after reading the graph", commit.Hash)
+		}
+		commit.Parents = parents
 		err := s.processCommit(resChan, commit)
 		if err != nil {
 			drainAndExit()
-- 
2.43.0


From d5f2bbed53c86c8e26ced19306719a174234ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:07 +0000
Subject: [PATCH 31/34] fix: results of repo that is changed during processing
 do not mix several heads

---
 ripsrc/branches2/name_hash.go |  5 +++++
 ripsrc/branches2/process.go   |  2 +-
 ripsrc/branchmeta/default.go  | 29 +++++++++++++++++++++--------
 ripsrc/code_info.go           |  5 ++++-
 ripsrc/commit_info.go         | 22 ++++++++++------------
 ripsrc/ripsrc.go              |  2 ++
 6 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/ripsrc/branches2/name_hash.go b/ripsrc/branches2/name_hash.go
index eb95c13..87d8021 100644
--- a/ripsrc/branches2/name_hash.go
+++ b/ripsrc/branches2/name_hash.go
@@ -31,11 +31,16 @@ func (s *Process) getNamesAndHashes() (res namesAndHashes, _ error) {
 	opts.Logger = s.opts.Logger
 	opts.RepoDir = s.opts.RepoDir
 	opts.UseOrigin = s.opts.UseOrigin
+	// filtering by name below, the default branch could be switched after it was retrieved
+	opts.IncludeDefault = true
 	res0, err := branchmeta.Get(context.Background(), opts)
 	if err != nil {
 		return res, err
 	}
 	for _, item := range res0 {
+		if item.Name == s.defaultBranch.Name {
+			continue
+		}
 		res = append(res, nameAndHash{Name: item.Name, Commit: item.Commit})
 	}
 	return res, nil
diff --git a/ripsrc/branches2/process.go b/ripsrc/branches2/process.go
index 79f19bf..62bbb6d 100644
--- a/ripsrc/branches2/process.go
+++ b/ripsrc/branches2/process.go
@@ -105,7 +105,7 @@ func New(opts Opts) *Process {
 }
 
 func (s *Process) getFirstCommit() (string, error) {
-	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", "HEAD"})
+	buf, err := execCommand("git", s.opts.RepoDir, []string{"rev-list", "--max-parents=0", s.defaultBranch.Commit})
 	if err != nil {
 		return "", err
 	}
diff --git a/ripsrc/branchmeta/default.go b/ripsrc/branchmeta/default.go
index ab37f3f..35ff26e 100644
--- a/ripsrc/branchmeta/default.go
+++ b/ripsrc/branchmeta/default.go
@@ -13,40 +13,53 @@ type Branch struct {
 
 func GetDefault(ctx context.Context, repoDir string) (res Branch, _ error) {
 
-	name, err := headBranch("git", repoDir)
+	ref, err := headRef("git", repoDir)
 	if err != nil {
 		return res, err
 	}
-	commit, err := headCommit(ctx, "git", repoDir)
+	// not using HEAD again, it could be switched to another branch in the meantime
+	commit, err := refCommit(ctx, "git", repoDir, ref)
 	if err != nil {
 		return res, err
 	}
-	res.Name = name
+	res.Name = branchName(ref)
 	res.Commit = commit
 	return res, nil
 }
 
 func headBranch(gitCommand string, repoDir string) (string, error) {
+	ref, err := headRef(gitCommand, repoDir)
+	if err != nil {
+		return "", err
+	}
+	return branchName(ref), nil
+}
+
+func branchName(ref string) string {
+	return strings.TrimPrefix(ref, "refs/heads/")
+}
+
+func headRef(gitCommand string, repoDir string) (string, error) {
 	// using full name, short name is different when there is a tag with the same name
 	data, err := execCommand(gitCommand, repoDir, []string{"symbolic-ref", "HEAD"})
 	if err != nil {
 		return "", err
 	}
-	res := strings.TrimPrefix(strings.TrimSpace(string(data)), "refs/heads/")
-	if res == "" {
+	res := strings.TrimSpace(string(data))
+	if branchName(res) == "" {
 		return "", errors.New("could not retrieve the name of the default branch")
 	}
 	return res, nil
 }
 
-func headCommit(ctx context.Context, gitCommand string, repoDir string) (string, error) {
-	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", "HEAD"})
+func refCommit(ctx context.Context, gitCommand string, repoDir string, ref string) (string, error) {
+	data, err := execCommand(gitCommand, repoDir, []string{"rev-parse", ref})
 	if err != nil {
 		return "", err
 	}
 	res := strings.TrimSpace(string(data))
 	if len(res) != 40 {
-		return "", errors.New("unexpected output from git rev-parse HEAD")
+		return "", errors.New("unexpected output from git rev-parse")
 	}
 	return res, nil
 }
diff --git a/ripsrc/code_info.go b/ripsrc/code_info.go
index 064e4bb..a7b7aa9 100644
--- a/ripsrc/code_info.go
+++ b/ripsrc/code_info.go
@@ -119,7 +119,10 @@ func (s *Ripsrc) codeInfoFile(filePath string, bl *incblame.Blame, fileBytes []b
 
 	// assign lines to result
 	for _, line := range bl.Lines {
-		meta := s.commitMeta[line.Commit]
+		meta, ok := s.commitMeta[line.Commit]
+		if !ok {
+			meta = s.lineMeta[line.Commit]
+		}
 		line2 := &statsLine{}
 		line2.BlameLine = &BlameLine{}
 		line2.Name = meta.AuthorName
diff --git a/ripsrc/commit_info.go b/ripsrc/commit_info.go
index e648e27..f12fa4b 100644
--- a/ripsrc/commit_info.go
+++ b/ripsrc/commit_info.go
@@ -7,6 +7,15 @@ import (
 )
 
 func (s *Ripsrc) getCommitInfo(ctx context.Context, wantedBranchRefs []string) error {
+	var all map[string]commitmeta.Commit
+	if s.opts.CommitFromIncl != "" {
+		// lines of processed files could be from commits before the requested range
+		var err error
+		all, err = commitmeta.New(s.opts.RepoDir, commitmeta.Opts{NoFiles: true}).RunMap()
+		if err != nil {
+			return err
+		}
+	}
 	copts := commitmeta.Opts{}
 	copts.CommitFromIncl = s.opts.CommitFromIncl
 	copts.CommitFromMakeNonIncl = s.opts.CommitFromMakeNonIncl
@@ -17,18 +26,7 @@ func (s *Ripsrc) getCommitInfo(ctx context.Context, wantedBranchRefs []string) e
 	if err != nil {
 		return err
 	}
-	if s.opts.CommitFromIncl != "" {
-		// lines of processed files could be from commits before the requested range
-		all, err := commitmeta.New(s.opts.RepoDir, commitmeta.Opts{NoFiles: true}).RunMap()
-		if err != nil {
-			return err
-		}
-		for sha, c := range all {
-			if _, ok := res[sha]; !ok {
-				res[sha] = c
-			}
-		}
-	}
 	s.commitMeta = res
+	s.lineMeta = all
 	return nil
 }
diff --git a/ripsrc/ripsrc.go b/ripsrc/ripsrc.go
index f88a024..28924e7 100644
--- a/ripsrc/ripsrc.go
+++ b/ripsrc/ripsrc.go
@@ -61,6 +61,8 @@ type Ripsrc struct {
 	gitExecPrepared bool
 
 	commitMeta map[string]commitmeta.Commit
+	// lineMeta has commits from before the requested range, without files, set when CommitFromIncl is used
+	lineMeta map[string]commitmeta.Commit
 
 	fileInfo *fileinfo.Process
 
-- 
2.43.0


From 1186270f64a19c19a15c64734dc949e897914bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:26 +0000
Subject: [PATCH 32/34] fix: checkpoint files are closed when reading or
 writing the checkpoint fails

---
 ripsrc/history3/process/repo/msgp.go   | 11 +++++++++++
 ripsrc/history3/process/repo/reader.go |  4 ++++
 ripsrc/history3/process/repo/writer.go |  4 ++++
 3 files changed, 19 insertions(+)

diff --git a/ripsrc/history3/process/repo/msgp.go b/ripsrc/history3/process/repo/msgp.go
index 83d9bbf..7b54d0e 100644
--- a/ripsrc/history3/process/repo/msgp.go
+++ b/ripsrc/history3/process/repo/msgp.go
@@ -53,6 +53,11 @@ func (s *msgWriter) Finish() error {
 	return os.Rename(s.loc+".tmp", s.loc)
 }
 
+// Close closes the file if it was not finished because of an error.
+func (s *msgWriter) Close() {
+	s.f.Close()
+}
+
 type msgReader struct {
 	loc string
 	f   *os.File
@@ -70,6 +75,7 @@ func newMsgReader(dir string, kind string) (*msgReader, error) {
 	s.f = f
 	s.gr, err = gzip.NewReader(f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	s.r = msgp.NewReader(s.gr)
@@ -92,3 +98,8 @@ func (s *msgReader) Finish() error {
 	}
 	return nil
 }
+
+// Close closes the file if it was not finished because of an error.
+func (s *msgReader) Close() {
+	s.f.Close()
+}
diff --git a/ripsrc/history3/process/repo/reader.go b/ripsrc/history3/process/repo/reader.go
index db08631..a95ba9c 100644
--- a/ripsrc/history3/process/repo/reader.go
+++ b/ripsrc/history3/process/repo/reader.go
@@ -60,18 +60,22 @@ func (s *CheckpointReader) Read(dir string, expectedCommit string) (Repo, error)
 	if err != nil {
 		return nil, err
 	}
+	defer repoR.Close()
 	blamesR, err := newMsgReader(dir, "blames")
 	if err != nil {
 		return nil, err
 	}
+	defer blamesR.Close()
 	linesR, err := newMsgReader(dir, "lines")
 	if err != nil {
 		return nil, err
 	}
+	defer linesR.Close()
 	lineDataR, err := newMsgReader(dir, "line-data")
 	if err != nil {
 		return nil, err
 	}
+	defer lineDataR.Close()
 	lineData := map[uint64][]byte{}
 	{
 		for {
diff --git a/ripsrc/history3/process/repo/writer.go b/ripsrc/history3/process/repo/writer.go
index 8105bbc..1b40694 100644
--- a/ripsrc/history3/process/repo/writer.go
+++ b/ripsrc/history3/process/repo/writer.go
@@ -51,18 +51,22 @@ func (s *CheckpointWriter) Write(repo Repo, dir string, lastCommit string) error
 	if err != nil {
 		return err
 	}
+	defer repoWr.Close()
 	blamesWr, err := newMsgWriter(tmpDir, "blames")
 	if err != nil {
 		return err
 	}
+	defer blamesWr.Close()
 	linesWr, err := newMsgWriter(tmpDir, "lines")
 	if err != nil {
 		return err
 	}
+	defer linesWr.Close()
 	lineDataWr, err := newMsgWriter(tmpDir, "line-data")
 	if err != nil {
 		return err
 	}
+	defer lineDataWr.Close()
 
 	blamePointerC := uint64(0)
 	blamePointers := map[*incblame.Blame]uint64{}
-- 
2.43.0


From 7418d8d2ed97fd678686c029e5bb6cb0c83f267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:25 +0000
Subject: [PATCH 33/34] fix: blame does not use the list of ignored revisions
 of the user

---
 ripsrc/gitblame2/gitblame.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ripsrc/gitblame2/gitblame.go b/ripsrc/gitblame2/gitblame.go
index 1c32fb1..0220879 100644
--- a/ripsrc/gitblame2/gitblame.go
+++ b/ripsrc/gitblame2/gitblame.go
@@ -33,8 +33,9 @@ func (r Result) String() string {
 
 func Run(repoDir, commitHash, file string) (res Result, _ error) {
 	args := append(gitexec.ConfigArgs(),
-		"-c", "blame.ignoreRevsFile=",
 		"blame",
+		// empty name resets the list from blame.ignoreRevsFile config
+		"--ignore-revs-file=",
 		"--no-textconv",
 		commitHash,
 		"--porcelain",
-- 
2.43.0


From bf924b7f73afe4912e84bd3a612fb2057e4b1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:38 +0000
Subject: [PATCH 34/34] fix: merges that have the same commit as a parent twice

Only the last of the equal parents got the diff, the others counted as
having the same content as the merge.
---
 ripsrc/history3/process/process.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ripsrc/history3/process/process.go b/ripsrc/history3/process/process.go
index 2df95fe..297e7b4 100644
--- a/ripsrc/history3/process/process.go
+++ b/ripsrc/history3/process/process.go
@@ -541,11 +541,6 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 	// parse and organize all diffs for access
 	diffs := map[string][]*incblame.Diff{}
 
-	hashToParOrd := map[string]int{}
-	for i, h := range parentHashes {
-		hashToParOrd[h] = i
-	}
-
 	for parHash, part := range parts {
 		for _, ch := range part.Changes {
 			diff := incblame.Parse(ch.Diff)
@@ -560,8 +555,12 @@ func (s *Process) processMergeCommit(commitHash string, parts map[string]parser.
 				par = make([]*incblame.Diff, parentCount, parentCount)
 				diffs[key] = par
 			}
-			parInd := hashToParOrd[parHash]
-			par[parInd] = &diff
+			// the same commit could be a parent more than once
+			for i, h := range parentHashes {
+				if h == parHash {
+					par[i] = &diff
+				}
+			}
 		}
 	}
 
-- 
2.43.0

