From 087d1eaf4380dc3911c39ee3eb93c06830f04ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 01/19] fix: MatchStandaloneJSON should not modify the Config
 it is called on

---
 snaps/matchStandaloneJSON.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..a97ee70 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,6 +12,10 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
+	// default the extension only for this call, the user's config should not change
+	callConfig := *c
+	c = &callConfig
+
 	if c.extension == "" {
 		c.extension = ".json"
 	}
-- 
2.43.0


From a15a68974df180892d5826319f8bb6e1bc9bea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 02/19] fix: JSON matchers should not modify the bytes passed
 by the caller

---
 match/any.go    | 3 +++
 match/custom.go | 2 ++
 match/type.go   | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/match/any.go b/match/any.go
index 8947ed6..93efdea 100644
--- a/match/any.go
+++ b/match/any.go
@@ -93,6 +93,9 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
+	// sjson replaces values in place, so work on a copy of the caller's bytes
+	b = bytes.Clone(b)
+
 	json := b
 	for _, path := range a.paths {
 		r := gjson.GetBytes(json, path)
diff --git a/match/custom.go b/match/custom.go
index bef2a6c..fa5e1ff 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -123,6 +123,8 @@ func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
+	// sjson replaces values in place, so work on a copy of the caller's bytes
+	b = bytes.Clone(b)
 	b, err = sjson.SetBytesOptions(b, c.path, value, setJSONOptions)
 	if err != nil {
 		return nil, c.matcherError(err)
diff --git a/match/type.go b/match/type.go
index 5f532e7..e618b7d 100644
--- a/match/type.go
+++ b/match/type.go
@@ -100,6 +100,9 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 // JSON is intended to be called internally on snaps.MatchJSON for applying Type matchers
 func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
+
+	// sjson replaces values in place, so work on a copy of the caller's bytes
+	b = bytes.Clone(b)
 	json := b
 
 	for _, path := range t.paths {
-- 
2.43.0


From 9e01f0fb853a795420b641353eec4d97950923cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 03/19] fix: report differences in invalid UTF-8 bytes on
 single line diffs

---
 snaps/diff.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..3ab1567 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -155,6 +155,14 @@ func singlelineDiff(expected, received string) (string, int, int) {
 		dmp.DiffMain(expected, received, false),
 	)
 	if len(diffs) == 1 && diffs[0].Type == diffEqual {
+		// diffs are computed on runes, so texts that differ only in invalid UTF-8 bytes look equal
+		if expected != received {
+			var s strings.Builder
+			colors.FprintDelete(&s, strings.TrimSuffix(expected, "\n")+"\n")
+			colors.FprintInsert(&s, strings.TrimSuffix(received, "\n")+"\n")
+			return s.String(), 1, 1
+		}
+
 		return "", -1, -1
 	}
 
-- 
2.43.0


From 1bd056b02ccd6c882ba61d139834d80f41c66bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 04/19] fix: hold the file lock when adding a new snapshot

---
 snaps/snapshot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..aa092b9 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -245,6 +245,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	// When t.Parallel another test can be rewriting the file we append to
+	_m.Lock()
+	defer _m.Unlock()
+
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From 232cbb502650c61e8b00f7a541486486b29db605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 05/19] fix: don't confuse lines of a snapshot with the header
 of another snapshot

---
 snaps/snapshot.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index aa092b9..20d5138 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -222,6 +222,15 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 		l := s.Bytes()
 		if !bytes.Equal(l, tid) {
 			lineNumber++
+			// skip the snapshots of other tests, as they can contain lines equal to testID
+			if _, isID := getTestID(l); isID {
+				for s.Scan() {
+					lineNumber++
+					if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
+						break
+					}
+				}
+			}
 			continue
 		}
 		var snapshot strings.Builder
@@ -287,6 +296,16 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
 		if !bytes.Equal(b, tid) {
+			// keep the snapshots of other tests as is, as they can contain lines equal to testID
+			if _, isID := getTestID(b); isID {
+				for s.Scan() {
+					updatedSnapFile.Write(s.Bytes())
+					updatedSnapFile.WriteByte('\n')
+					if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
+						break
+					}
+				}
+			}
 			continue
 		}
 
-- 
2.43.0


From 1e84e3deb8dde4659b84773dbc8ee92c5b13ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 06/19] fix: Clean should handle snapshots of fuzz tests and
 benchmarks

---
 snaps/clean.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..ebc1a17 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -117,14 +117,14 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [<test name> - number]
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ], test names can start with Test, Fuzz or Benchmark
+	if !bytes.HasPrefix(b, []byte("[")) || b[len(b)-1] != ']' {
 		return "", false
 	}
 
-- 
2.43.0


From 617fb0715c3c32623fcfce96902be5c47ff5754e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 07/19] fix: sorting snapshots should not remove obsolete ones

---
 snaps/clean.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index ebc1a17..00e20ed 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -251,8 +251,11 @@ func examineSnaps(
 				obsoleteTests = append(obsoleteTests, testID)
 				hasDiffs = true
 
-				removeSnapshot(s)
-				continue
+				// obsolete tests are removed only when cleaning, sorting should preserve them
+				if update {
+					removeSnapshot(s)
+					continue
+				}
 			}
 
 			for s.Scan() {
-- 
2.43.0


From 00e9e4c2b6946584c611fb959f408a5fc5982cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 08/19] fix: Clean should keep the values of snapshots sharing
 the same id

---
 snaps/clean.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 00e20ed..abab991 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -223,7 +223,7 @@ func examineSnaps(
 	sort bool,
 ) ([]string, error) {
 	obsoleteTests := []string{}
-	tests := map[string]string{}
+	tests := map[string][]string{}
 	data := bytes.Buffer{}
 	testIDs := []string{}
 
@@ -262,7 +262,7 @@ func examineSnaps(
 				line := s.Bytes()
 
 				if bytes.Equal(line, endSequenceByteSlice) {
-					tests[testID] = data.String()
+					tests[testID] = append(tests[testID], data.String())
 
 					data.Reset()
 					break
@@ -302,11 +302,13 @@ func examineSnaps(
 
 		for _, id := range testIDs {
 			test, ok := tests[id]
-			if !ok {
+			if !ok || len(test) == 0 {
 				continue
 			}
+			// the same id can exist more than once in a file
+			tests[id] = test[1:]
 
-			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test, endSequence)
+			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test[0], endSequence)
 		}
 		f.Close()
 
-- 
2.43.0


From 7d293858806507a853c4696f8f34c033530718cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 09/19] fix: Clean should not assume that all executions of a
 test create the same snapshots

---
 snaps/clean.go    | 9 +++++----
 snaps/snapshot.go | 9 +++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index abab991..1f6f740 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,9 +79,11 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
+	// executions of a test (e.g. -count, -cpu or -failfast) can create different number of snapshots,
+	// so we rely on the execution that created the most instead of the average of them
+	count := 1
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
+		standaloneTestsRegistry.peak,
 		count,
 		standaloneOccurrenceFMT,
 	)
@@ -94,7 +95,7 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.peak,
 		usedFiles,
 		runOnly,
 		count,
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 20d5138..41a0675 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -134,6 +134,8 @@ func handleError(t testingT, err any) {
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	// most snapshots a test created in a single execution
+	peak map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +147,13 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.peak[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	s.peak[snapPath][testName] = max(s.peak[snapPath][testName], c)
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -166,6 +170,7 @@ func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
+		peak:    make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -173,6 +178,8 @@ func newRegistry() *syncRegistry {
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	// most snapshots a test created in a single execution
+	peak map[string]int
 	sync.Mutex
 }
 
@@ -180,6 +187,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
+		peak:    make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -190,6 +198,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	s.peak[snapPath] = max(s.peak[snapPath], c)
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From 6550b4fd9e14d90d841ee1c48b8d12e8f9736f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 10/19] fix: standalone snapshots paths can contain percent
 signs

---
 snaps/snapshot.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 41a0675..c0defad 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -394,9 +394,25 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
 	}
 
+	if isStandalone {
+		snapPath = escapeFormat(snapPath, c.extension)
+		snapPathRel = escapeFormat(snapPathRel, c.extension)
+	}
+
 	return snapPath, snapPathRel
 }
 
+// escapeFormat makes sure that the integer (_%d) is the only verb of a standalone snapshot path.
+func escapeFormat(path, extension string) string {
+	suffix := "_%d" + snapsExt + extension
+	if !strings.HasSuffix(path, suffix) {
+		return path
+	}
+
+	escape := strings.NewReplacer("%", "%%")
+	return escape.Replace(strings.TrimSuffix(path, suffix)) + "_%d" + escape.Replace(snapsExt+extension)
+}
+
 func constructFilename(c *Config, callerFilename, tName string, isStandalone bool) string {
 	filename := c.filename
 	if filename == "" {
-- 
2.43.0


From 94a1d730d3989732bf8824c4eaa7e7011cd7f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 11/19] fix: match tests with -run pattern the same way as the
 testing package

---
 snaps/skip.go | 60 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..ef82ee9 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -76,8 +76,64 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !isSelected(testName, runOnly)
+}
+
+// isSelected checks if a test is selected from `-run`.
+//
+// As in testing package, the pattern consists of alternatives separated by '|' and each one of them has
+// a regular expression per level ( test, subtest etc. ) separated by '/'.
+func isSelected(testName, runOnly string) bool {
+	names := strings.Split(testName, "/")
+
+	for _, alternative := range splitPattern(runOnly, '|') {
+		selected := true
+
+		for i, pattern := range splitPattern(alternative, '/') {
+			if i >= len(names) {
+				break
+			}
+
+			// testing package replaces spaces on subtests' names
+			pattern = strings.ReplaceAll(pattern, " ", "_")
+			if matched, _ := regexp.MatchString(pattern, names[i]); !matched {
+				selected = false
+				break
+			}
+		}
+
+		if selected {
+			return true
+		}
+	}
+
+	return false
+}
+
+// splitPattern splits a pattern on the separators that are not inside brackets, parentheses or escaped.
+func splitPattern(pattern string, separator byte) []string {
+	var parts []string
+	var brackets, parens, start int
+
+	for i := 0; i < len(pattern); i++ {
+		switch c := pattern[i]; {
+		case c == '\\':
+			i++
+		case c == '[':
+			brackets++
+		case c == ']':
+			brackets = max(brackets-1, 0)
+		case c == '(' && brackets == 0:
+			parens++
+		case c == ')' && brackets == 0:
+			parens--
+		case c == separator && brackets == 0 && parens == 0:
+			parts = append(parts, pattern[start:i])
+			start = i + 1
+		}
+	}
+
+	return append(parts, pattern[start:])
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
-- 
2.43.0


From 9d2e892c9ce1de800223862ca1f6a0a94649658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 12/19] fix: Clean should keep files of tests that were skipped
 or not selected

---
 snaps/clean.go |  4 ++++
 snaps/skip.go  | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+)

diff --git a/snaps/clean.go b/snaps/clean.go
index 1f6f740..bb3e070 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -200,6 +200,10 @@ func examineFiles(
 				continue
 			}
 
+			if isUsedFromSkippedTest(snapPath, runOnly) {
+				continue
+			}
+
 			obsolete = append(obsolete, snapPath)
 
 			if !shouldUpdate {
diff --git a/snaps/skip.go b/snaps/skip.go
index ef82ee9..b682809 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -1,11 +1,15 @@
 package snaps
 
 import (
+	"bytes"
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"os"
 	"path"
+	"path/filepath"
 	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/gkampitakis/go-snaps/internal/colors"
@@ -165,3 +169,56 @@ func isFileSkipped(dir, filename, runOnly string) bool {
 
 	return true
 }
+
+// isUsedFromSkippedTest checks if a file, that was not used on this run, has snapshots from tests
+// that didn't run either because they are skipped or not selected from `-run`.
+func isUsedFromSkippedTest(snapPath, runOnly string) bool {
+	if testIDs := fileTestIDs(snapPath); len(testIDs) > 0 {
+		return slices.ContainsFunc(testIDs, func(testID string) bool {
+			return testSkipped(testID, runOnly)
+		})
+	}
+
+	// standalone snapshots don't contain the test name, so we can't tell if the test was selected
+	if runOnly != "" {
+		return true
+	}
+
+	for _, name := range skippedTests.values {
+		filename := regexp.QuoteMeta(strings.ReplaceAll(name, "/", "_"))
+		matched, _ := regexp.MatchString(
+			"^"+filename+"_(.+_)?[0-9]+"+regexp.QuoteMeta(snapsExt),
+			filepath.Base(snapPath),
+		)
+		if matched {
+			return true
+		}
+	}
+
+	return false
+}
+
+// fileTestIDs returns the ids of the snapshots inside a file or nil if the file contains anything else.
+func fileTestIDs(snapPath string) (testIDs []string) {
+	data, err := os.ReadFile(snapPath)
+	if err != nil {
+		return nil
+	}
+
+	s := snapshotScanner(bytes.NewReader(data))
+	for s.Scan() {
+		if len(s.Bytes()) == 0 {
+			continue
+		}
+
+		testID, match := getTestID(s.Bytes())
+		if !match {
+			return nil
+		}
+
+		testIDs = append(testIDs, testID)
+		removeSnapshot(s)
+	}
+
+	return testIDs
+}
-- 
2.43.0


From d583573b0dd03afb67596ef6b71ca788ade85172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 13/19] fix: snapshot location should not depend on the working
 directory with -trimpath

---
 snaps/snapshot.go | 5 +++++
 snaps/utils.go    | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index c0defad..3822627 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -394,6 +394,11 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
 	}
 
+	// the caller's directory is not known, don't depend on the current working directory
+	if isTrimBathBuild && !filepath.IsAbs(snapPath) && startDir != "" {
+		snapPath = filepath.Join(startDir, snapPath)
+	}
+
 	if isStandalone {
 		snapPath = escapeFormat(snapPath, c.extension)
 		snapPathRel = escapeFormat(snapPathRel, c.extension)
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..d1ec5f1 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,8 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// tests start running from the directory of their package
+	startDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From d2d00683f99b275b97dd4e631ae75703801f8385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 14/19] fix: don't mix up escaped snapshot terminators with
 text looking like one

---
 snaps/snapshot.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 3822627..9ab42cf 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -442,6 +442,8 @@ func unescapeEndChars(s string) string {
 	for idx, s := range ss {
 		if s == "/-/-/-/" {
 			ss[idx] = endSequence
+		} else if isEscapeSequence(s) {
+			ss[idx] = strings.TrimPrefix(s, "/-/-/-/")
 		}
 	}
 	return strings.Join(ss, "\n")
@@ -452,7 +454,15 @@ func escapeEndChars(s string) string {
 	for idx, s := range ss {
 		if s == endSequence {
 			ss[idx] = "/-/-/-/"
+		} else if isEscapeSequence(s) {
+			ss[idx] = "/-/-/-/" + s
 		}
 	}
 	return strings.Join(ss, "\n")
 }
+
+// isEscapeSequence checks if a line looks like an escaped endSequence, those lines
+// are escaped as well so they are not mixed up with endSequence when unescaping.
+func isEscapeSequence(s string) bool {
+	return s != "" && strings.ReplaceAll(s, "/-/-/-/", "") == ""
+}
-- 
2.43.0


From a7ebf0fa4f18e59e3ac82de652a11889b938fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 15/19] fix: JSON matchers should replace exactly the value of
 the path

A placeholder that needs escaping and is shorter than the value was not applied at all,
keys starting with ':' ended up adding a new member and NaN/Inf produced invalid json.
---
 match/any.go    |  6 +-----
 match/custom.go |  5 +----
 match/type.go   | 10 +---------
 match/utils.go  | 53 ++++++++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/match/any.go b/match/any.go
index 93efdea..067ee48 100644
--- a/match/any.go
+++ b/match/any.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type anyMatcher struct {
@@ -93,9 +92,6 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
-	// sjson replaces values in place, so work on a copy of the caller's bytes
-	b = bytes.Clone(b)
-
 	json := b
 	for _, path := range a.paths {
 		r := gjson.GetBytes(json, path)
@@ -107,7 +103,7 @@ func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(json, path, a.placeholder, setJSONOptions)
+		j, err := setJSON(json, path, a.placeholder)
 		if err != nil {
 			errs = append(errs, a.matcherError(err, path))
 
diff --git a/match/custom.go b/match/custom.go
index fa5e1ff..ffd4238 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type customMatcher struct {
@@ -123,9 +122,7 @@ func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	// sjson replaces values in place, so work on a copy of the caller's bytes
-	b = bytes.Clone(b)
-	b, err = sjson.SetBytesOptions(b, c.path, value, setJSONOptions)
+	b, err = setJSON(b, c.path, value)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/type.go b/match/type.go
index e618b7d..7adf73f 100644
--- a/match/type.go
+++ b/match/type.go
@@ -7,7 +7,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type typeMatcher[ExpectedType any] struct {
@@ -101,8 +100,6 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
-	// sjson replaces values in place, so work on a copy of the caller's bytes
-	b = bytes.Clone(b)
 	json := b
 
 	for _, path := range t.paths {
@@ -121,12 +118,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(
-			json,
-			path,
-			typePlaceholder(r.Value()),
-			setJSONOptions,
-		)
+		j, err := setJSON(json, path, typePlaceholder(r.Value()))
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
diff --git a/match/utils.go b/match/utils.go
index a1cabb2..ae0e8e1 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -1,17 +1,18 @@
 package match
 
 import (
+	"bytes"
 	"errors"
+	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 )
 
 var (
-	errPathNotFound = errors.New("path does not exist")
-	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
-	}
+	errPathNotFound   = errors.New("path does not exist")
+	errPathReadOnly   = errors.New("path does not point to a value that can be replaced")
+	errInvalidReplace = errors.New("path can't be replaced with a value that is not valid json")
 )
 
 type JSONMatcher interface {
@@ -28,3 +29,45 @@ type MatcherError struct {
 	Matcher string
 	Path    string
 }
+
+// setJSON returns a new document where the value of the path is replaced.
+//
+// It replaces the exact value gjson resolved the path to, as sjson can resolve the same path differently
+// and end up adding a new value or not replacing anything.
+func setJSON(json []byte, path string, value any) ([]byte, error) {
+	encoded, err := sjson.SetBytes([]byte("[0]"), "0", value)
+	if err != nil {
+		return nil, err
+	}
+	if !gjson.ValidBytes(encoded) {
+		return nil, errInvalidReplace
+	}
+	encoded = encoded[1 : len(encoded)-1]
+
+	r := gjson.GetBytes(json, path)
+	if r.Raw == string(encoded) || r.Raw == "[]" && strings.Contains(path, "#") {
+		// nothing to replace
+		return json, nil
+	}
+
+	targets := []gjson.Result{r}
+	if len(r.Indexes) > 0 {
+		// path targets many values e.g. `users.#.name`
+		targets = r.Array()
+	}
+
+	result := make([]byte, 0, len(json)+len(encoded)*len(targets))
+	end := 0
+	for _, t := range targets {
+		// the value is not part of the document e.g. number of elements or the result of a modifier
+		if t.Index == 0 || t.Index < end || !bytes.HasPrefix(json[t.Index:], []byte(t.Raw)) {
+			return nil, errPathReadOnly
+		}
+
+		result = append(result, json[end:t.Index]...)
+		result = append(result, encoded...)
+		end = t.Index + len(t.Raw)
+	}
+
+	return append(result, json[end:]...), nil
+}
-- 
2.43.0


From a63ec7fda4774aad2e09b07732e0c94146720e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 16/19] fix: YAML matchers should replace exactly the value of
 the path or report an error

Some placeholders were encoded as a different value, matchers could silently
not replace the value, alter the rest of the document, yield invalid YAML or
panic. Paths going through a scalar or out of a list are missing paths, and
documents no matcher changes are kept as they are.
---
 match/any.go                |  12 +-
 match/custom.go             |   5 +-
 match/internal/yaml/yaml.go | 315 ++++++++++++++++++++++++++++++++++--
 match/type.go               |  12 +-
 4 files changed, 324 insertions(+), 20 deletions(-)

diff --git a/match/any.go b/match/any.go
index 067ee48..fe48c13 100644
--- a/match/any.go
+++ b/match/any.go
@@ -58,6 +58,8 @@ func (a *anyMatcher) ErrOnMissingPath(e bool) *anyMatcher {
 func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
+	updated, newLine := false, bytes.HasSuffix(b, []byte("\n"))
+
 	f, err := parser.ParseBytes(b, parser.ParseComments)
 	if err != nil {
 		return b, []MatcherError{a.matcherError(err, "*")}
@@ -78,14 +80,20 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, a.placeholder); err != nil {
+		if err := yaml.Update(f, path, a.placeholder, newLine); err != nil {
 			errs = append(errs, a.matcherError(err, p))
 
 			continue
 		}
+
+		updated = true
+	}
+
+	if !updated {
+		return b, errs
 	}
 
-	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
+	return yaml.MarshalFile(f, newLine), errs
 }
 
 // JSON is intended to be called internally on snaps.MatchJSON for applying Any matchers
diff --git a/match/custom.go b/match/custom.go
index ffd4238..1a3b74d 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -99,11 +99,12 @@ func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	if err := yaml.Update(f, path, result); err != nil {
+	newLine := bytes.HasSuffix(b, []byte("\n"))
+	if err := yaml.Update(f, path, result, newLine); err != nil {
 		return nil, c.matcherError(err)
 	}
 
-	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), nil
+	return yaml.MarshalFile(f, newLine), nil
 }
 
 // JSON is intended to be called internally on snaps.MatchJSON for applying Custom matcher
diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..caa9431 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,21 +3,21 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"strings"
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
+	"github.com/goccy/go-yaml/parser"
+	"github.com/goccy/go-yaml/token"
 )
 
+var errInvalidReplace = errors.New("value can't be replaced")
+
 // GetValue returns the value of the node.
 func GetValue(node ast.Node) (interface{}, error) {
-	data, err := node.MarshalYAML()
-	if err != nil {
-		return nil, err
-	}
-
 	var value interface{}
-	if err := yaml.Unmarshal(data, &value); err != nil {
+	if err := yaml.NodeToValue(node, &value); err != nil {
 		return nil, err
 	}
 
@@ -27,31 +27,302 @@ func GetValue(node ast.Node) (interface{}, error) {
 // Get takes an ast.File and a string representing a path
 // and returns the yaml.Path, the node and a bool indicating if the node exists.
 func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
-	path, err := yaml.PathString(p)
+	path, err := parsePath(p)
 	if err != nil {
 		return nil, nil, false, err
 	}
 
-	node, err := path.FilterFile(f)
+	for _, doc := range f.Docs {
+		node, err := filter(path, doc)
+		if err != nil {
+			return path, nil, false, err
+		}
+		if node != nil {
+			return path, node, true, nil
+		}
+	}
+
+	return path, nil, false, nil
+}
+
+func parsePath(p string) (path *yaml.Path, err error) {
+	if p == "" {
+		return nil, yaml.ErrInvalidPath
+	}
+
+	// go-yaml panics on incomplete paths
+	defer func() {
+		if recover() != nil {
+			path, err = nil, yaml.ErrInvalidPathString
+		}
+	}()
+
+	return yaml.PathString(p)
+}
+
+// filter returns the node of the document at the path, or nil if there is none.
+func filter(path *yaml.Path, doc *ast.DocumentNode) (ast.Node, error) {
+	if doc.Body == nil {
+		return nil, nil
+	}
+
+	node, err := path.FilterNode(doc.Body)
+	// e.g. an index out of range or the member of a scalar
+	if errors.Is(err, yaml.ErrInvalidQuery) && !strings.Contains(path.String(), "[*]") && isPlain(doc) {
+		return nil, nil
+	}
 	if err != nil {
-		if errors.Is(err, yaml.ErrNotFoundNode) {
-			return path, nil, false, nil
+		return nil, err
+	}
+
+	// paths with .. or [*] return a sequence with what they matched
+	seq, ok := node.(*ast.SequenceNode)
+	if ok && (strings.HasSuffix(path.String(), "[*]") || !contains(doc.Body, node)) {
+		matched := make([]ast.Node, 0, len(seq.Values))
+		for _, v := range seq.Values {
+			if v != nil {
+				matched = append(matched, v)
+			}
+		}
+		if len(matched) == 0 {
+			return nil, nil
 		}
 
-		return path, nil, false, err
+		c := *seq
+		c.Values = matched
+		node = &c
 	}
 
-	return path, node, true, nil
+	return node, nil
+}
+
+// isPlain reports if the document has no nodes that paths can't go through.
+func isPlain(doc *ast.DocumentNode) bool {
+	plain := true
+
+	ast.Walk(visitor(func(n ast.Node) {
+		switch n.(type) {
+		case *ast.AnchorNode, *ast.AliasNode, *ast.TagNode:
+			plain = false
+		}
+	}), doc.Body)
+
+	return plain
 }
 
 // Update marshals the value and replaces the file at the path provided with the new value.
-func Update(f *ast.File, path *yaml.Path, value interface{}) error {
+//
+// It returns an error if the file can't be represented with the new value.
+func Update(f *ast.File, path *yaml.Path, value interface{}, addNewLine bool) error {
 	b, err := yaml.Marshal(value)
 	if err != nil {
 		return err
 	}
+	// flow style is safe to use where block style is not, e.g. inside of a flow mapping
+	flow, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
+		return err
+	}
+
+	text := MarshalFile(f, addNewLine)
+
+	for i, v := range [][]byte{b, flow} {
+		if i == 0 && (!sameValue(v, flow) || (!isInline(v) && isInFlow(f, path))) {
+			continue
+		}
+
+		// try it on a copy, as a failed attempt leaves nodes that can't be printed
+		c, err := parser.ParseBytes(text, parser.ParseComments)
+		if err != nil {
+			return err
+		}
+
+		replaced, err := replace(c, path, v)
+		if err != nil {
+			return err
+		}
+		if replaced && isConsistent(c, addNewLine) {
+			if _, err := replace(f, path, v); err != nil || !isConsistent(f, addNewLine) {
+				*f = *c
+			}
+
+			return nil
+		}
+	}
+
+	return errInvalidReplace
+}
 
-	return path.ReplaceWithReader(f, bytes.NewReader(b))
+// replace replaces the path in all the documents that have it and reports if there was any.
+func replace(f *ast.File, path *yaml.Path, value []byte) (bool, error) {
+	replaced := false
+
+	for _, doc := range f.Docs {
+		node, err := filter(path, doc)
+		if err != nil {
+			return false, err
+		}
+		if node == nil {
+			continue
+		}
+
+		v, err := parser.ParseBytes(value, 0)
+		if err != nil {
+			return false, err
+		}
+
+		err = path.ReplaceWithNode(&ast.File{Docs: []*ast.DocumentNode{doc}}, v.Docs[0].Body)
+		if err != nil {
+			return false, err
+		}
+
+		replaced = replaced || contains(doc.Body, v.Docs[0].Body)
+	}
+
+	return replaced, nil
+}
+
+type visitor func(ast.Node)
+
+func (v visitor) Visit(n ast.Node) ast.Visitor {
+	v(n)
+	return v
+}
+
+// sameValue reports if a and b represent the same value.
+func sameValue(a, b []byte) bool {
+	fa, err := parser.ParseBytes(a, 0)
+	if err != nil || len(fa.Docs) != 1 || fa.Docs[0].Body == nil {
+		return false
+	}
+
+	fb, err := parser.ParseBytes(b, 0)
+	if err != nil || len(fb.Docs) != 1 || fb.Docs[0].Body == nil {
+		return false
+	}
+
+	return sameDocs(fa, fb)
+}
+
+// isInline reports if the value is a scalar on a single line.
+func isInline(value []byte) bool {
+	f, err := parser.ParseBytes(value, 0)
+	if err != nil || len(f.Docs) != 1 {
+		return false
+	}
+
+	_, isScalar := f.Docs[0].Body.(ast.ScalarNode)
+
+	return isScalar && !bytes.Contains(bytes.TrimSpace(value), []byte("\n"))
+}
+
+// isInFlow reports if the path is inside of a flow mapping or sequence.
+func isInFlow(f *ast.File, path *yaml.Path) bool {
+	inFlow := false
+
+	for _, doc := range f.Docs {
+		node, err := filter(path, doc)
+		if err != nil || node == nil {
+			continue
+		}
+
+		targets := []ast.Node{node}
+		if seq, ok := node.(*ast.SequenceNode); ok && !contains(doc.Body, node) {
+			targets = seq.Values
+		}
+
+		ast.Walk(visitor(func(n ast.Node) {
+			m, isMap := n.(*ast.MappingNode)
+			s, isSeq := n.(*ast.SequenceNode)
+
+			for _, target := range targets {
+				if n != target && (isMap && m.IsFlowStyle || isSeq && s.IsFlowStyle) {
+					inFlow = inFlow || contains(n, target)
+				}
+			}
+		}), doc.Body)
+	}
+
+	return inFlow
+}
+
+func contains(root, node ast.Node) bool {
+	found := false
+
+	ast.Walk(visitor(func(n ast.Node) {
+		found = found || n == node
+	}), root)
+
+	return found
+}
+
+// isConsistent reports if the text of the file represents the values of the file.
+func isConsistent(f *ast.File, addNewLine bool) (ok bool) {
+	// the nodes can be at columns where they can't be printed
+	defer func() {
+		if recover() != nil {
+			ok = false
+		}
+	}()
+
+	text, err := parser.ParseBytes(MarshalFile(f, addNewLine), 0)
+
+	return err == nil && sameDocs(f, text) && !hasDanglingAlias(f)
+}
+
+// hasDanglingAlias reports if the anchor of an alias is missing.
+func hasDanglingAlias(f *ast.File) bool {
+	dangling := false
+
+	for _, doc := range f.Docs {
+		if doc.Body == nil {
+			continue
+		}
+
+		anchors := map[string]bool{}
+		ast.Walk(visitor(func(n ast.Node) {
+			switch n := n.(type) {
+			case *ast.AnchorNode:
+				anchors[n.Name.String()] = true
+			case *ast.AliasNode:
+				dangling = dangling || !anchors[n.Value.String()]
+			}
+		}), doc.Body)
+	}
+
+	return dangling
+}
+
+func sameDocs(a, b *ast.File) bool {
+	if len(a.Docs) != len(b.Docs) {
+		return false
+	}
+
+	for i := range a.Docs {
+		x, err := docValue(a.Docs[i])
+		if err != nil {
+			return false
+		}
+
+		y, err := docValue(b.Docs[i])
+		if err != nil || x != y {
+			return false
+		}
+	}
+
+	return true
+}
+
+func docValue(doc *ast.DocumentNode) (string, error) {
+	var v interface{}
+	if doc.Body == nil {
+		return "", nil
+	}
+	if err := yaml.NodeToValue(doc.Body, &v, yaml.UseOrderedMap()); err != nil {
+		return "", err
+	}
+
+	return fmt.Sprintf("%#v", v), nil
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
@@ -59,6 +330,11 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
 
 	for _, doc := range f.Docs {
+		if doc.Body == nil {
+			docs = append(docs, emptyDoc(doc)...)
+
+			continue
+		}
 		docs = append(docs, doc.String())
 	}
 
@@ -68,3 +344,14 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 
 	return []byte(strings.Join(docs, "\n"))
 }
+
+// emptyDoc returns the lines of a document without content.
+func emptyDoc(doc *ast.DocumentNode) (lines []string) {
+	for _, t := range []*token.Token{doc.Start, doc.End} {
+		if t != nil {
+			lines = append(lines, t.Value)
+		}
+	}
+
+	return lines
+}
diff --git a/match/type.go b/match/type.go
index 7adf73f..93c1df6 100644
--- a/match/type.go
+++ b/match/type.go
@@ -53,6 +53,8 @@ func (t *typeMatcher[T]) ErrOnMissingPath(e bool) *typeMatcher[T] {
 func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
+	updated, newLine := false, bytes.HasSuffix(b, []byte("\n"))
+
 	f, err := parser.ParseBytes(b, parser.ParseComments)
 	if err != nil {
 		return b, []MatcherError{t.matcherError(err, "*")}
@@ -86,14 +88,20 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, typePlaceholder(value)); err != nil {
+		if err := yaml.Update(f, path, typePlaceholder(value), newLine); err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
 		}
+
+		updated = true
+	}
+
+	if !updated {
+		return b, errs
 	}
 
-	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
+	return yaml.MarshalFile(f, newLine), errs
 }
 
 // JSON is intended to be called internally on snaps.MatchJSON for applying Type matchers
-- 
2.43.0


From 5f55fa93b474f5d84420dfd9c30ba45e32e977ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:50 +0000
Subject: [PATCH 17/19] fix: placeholder of Type matcher should not depend on
 the value

For interface types, e.g. match.Type[any], the placeholder was the type of the
value.
---
 match/type.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/match/type.go b/match/type.go
index 93c1df6..2847c9f 100644
--- a/match/type.go
+++ b/match/type.go
@@ -3,6 +3,7 @@ package match
 import (
 	"bytes"
 	"fmt"
+	"reflect"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
@@ -88,7 +89,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, typePlaceholder(value), newLine); err != nil {
+		if err := yaml.Update(f, path, typePlaceholder[ExpectedType](), newLine); err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
@@ -126,7 +127,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := setJSON(json, path, typePlaceholder(r.Value()))
+		j, err := setJSON(json, path, typePlaceholder[ExpectedType]())
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
@@ -147,6 +148,7 @@ func typeCheck[ExpectedType any](value interface{}) error {
 	return nil
 }
 
-func typePlaceholder(value interface{}) string {
-	return fmt.Sprintf("<Type:%T>", value)
+func typePlaceholder[ExpectedType any]() string {
+	// *new(ExpectedType) has no type for interfaces
+	return fmt.Sprintf("<Type:%s>", reflect.TypeOf((*ExpectedType)(nil)).Elem())
 }
-- 
2.43.0


From 6f2fffce571f04722603555abb745eab0579eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 18/19] fix: an unreadable snapshot is not a missing one

Only a file that does not exist means that there is no snapshot yet. Any other
error of reading it was treated alike: without update mode a standalone snapshot
was overwritten and an entry was stored a second time.
---
 snaps/snapshot.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 9ab42cf..9f5f09e 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -3,6 +3,7 @@ package snaps
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -219,9 +220,12 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 	defer _m.RUnlock()
 
 	f, err := os.ReadFile(snapPath)
-	if err != nil {
+	if errors.Is(err, os.ErrNotExist) {
 		return "", -1, errSnapNotFound
 	}
+	if err != nil {
+		return "", -1, err
+	}
 
 	lineNumber := 1
 	tid := []byte(testID)
@@ -360,9 +364,12 @@ func upsertStandaloneSnapshot(snapshot, snapPath string) error {
 
 func getPrevStandaloneSnapshot(snapPath string) (string, error) {
 	f, err := os.ReadFile(snapPath)
-	if err != nil {
+	if errors.Is(err, os.ErrNotExist) {
 		return "", errSnapNotFound
 	}
+	if err != nil {
+		return "", err
+	}
 
 	return string(f), nil
 }
-- 
2.43.0


From a7b9f65281d780a27e7e701b793bcbb409d57641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 19/19] fix: a missing YAML path should be reported as missing
 also when the document has anchors, aliases or tags elsewhere

---
 match/internal/yaml/yaml.go | 43 +++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index caa9431..1419679 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -68,7 +68,7 @@ func filter(path *yaml.Path, doc *ast.DocumentNode) (ast.Node, error) {
 
 	node, err := path.FilterNode(doc.Body)
 	// e.g. an index out of range or the member of a scalar
-	if errors.Is(err, yaml.ErrInvalidQuery) && !strings.Contains(path.String(), "[*]") && isPlain(doc) {
+	if errors.Is(err, yaml.ErrInvalidQuery) && !strings.Contains(path.String(), "[*]") && isPlain(path, doc) {
 		return nil, nil
 	}
 	if err != nil {
@@ -96,20 +96,49 @@ func filter(path *yaml.Path, doc *ast.DocumentNode) (ast.Node, error) {
 	return node, nil
 }
 
-// isPlain reports if the document has no nodes that paths can't go through.
-func isPlain(doc *ast.DocumentNode) bool {
+// isPlain reports if the path doesn't stop at a node that paths can't go through.
+func isPlain(path *yaml.Path, doc *ast.DocumentNode) bool {
+	if s := path.String(); !strings.Contains(s, "..") {
+		return !isOpaque(lastNode(s, doc))
+	}
+
 	plain := true
 
 	ast.Walk(visitor(func(n ast.Node) {
-		switch n.(type) {
-		case *ast.AnchorNode, *ast.AliasNode, *ast.TagNode:
-			plain = false
-		}
+		plain = plain && !isOpaque(n)
 	}), doc.Body)
 
 	return plain
 }
 
+func isOpaque(n ast.Node) bool {
+	switch n.(type) {
+	case *ast.AnchorNode, *ast.AliasNode, *ast.TagNode:
+		return true
+	}
+
+	return false
+}
+
+// lastNode returns the node of the longest part of the path that exists.
+func lastNode(path string, doc *ast.DocumentNode) ast.Node {
+	for i := len(path) - 1; i > 0; i-- {
+		if path[i] != '.' && path[i] != '[' {
+			continue
+		}
+
+		p, err := parsePath(path[:i])
+		if err != nil {
+			continue
+		}
+		if node, err := p.FilterNode(doc.Body); err == nil && node != nil {
+			return node
+		}
+	}
+
+	return doc.Body
+}
+
 // Update marshals the value and replaces the file at the path provided with the new value.
 //
 // It returns an error if the file can't be represented with the new value.
-- 
2.43.0

