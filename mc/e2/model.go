package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

func hash(s map[string]File) (out [32]byte) {
	keys := make([]string, 0, len(s))
	for k := range s {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	h := sha256.New()
	for _, k := range keys {
		fmt.Fprintf(h, "%d:%s%d:%s", len(k), k, len(s[k].Data), s[k].Data)
	}
	h.Sum(out[:0])
	return
}

func (c *CallLog) Outcome() string {
	if c.Panic != "" {
		return "panic: " + c.Panic
	}
	var e, l []string
	for _, x := range c.Events {
		if x.Kind == "error" {
			e = append(e, x.Text)
		} else {
			l = append(l, x.Text)
		}
	}
	switch {
	case len(e) == 0 && len(l) == 0:
		return "passed"
	case len(e) == 1 && len(l) == 0:
		return "failed"
	case len(e) == 0 && len(l) == 1 && strings.Contains(l[0], "added"):
		return "added"
	case len(e) == 0 && len(l) == 1 && strings.Contains(l[0], "updated"):
		return "updated"
	}
	return fmt.Sprintf("illegal signals %q", c.Events)
}

func (a Act) String() string {
	switch a.K {
	case "call":
		s := a.API
		if a.Bad {
			s += "!"
		}
		if a.Cfg != 0 {
			s += fmt.Sprintf("@%d", a.Cfg)
		}
		if a.N > 1 {
			s += fmt.Sprintf("*%d", a.N)
		}
		if v := strings.Join(a.Vals, ","); v != "" {
			if len(v) > 30 {
				v = v[:30] + "..."
			}
			s += fmt.Sprintf("%q", v)
		}
		return s
	case "sub":
		return fmt.Sprintf("sub %q%s", a.Name, a.Node)
	case "cleanup":
		return "cleanup" + a.Node.String()
	}
	return a.K + a.How
}

func (n *Node) String() string {
	if n == nil {
		return "{}"
	}
	var e []string
	for _, x := range n.Execs {
		var s []string
		for _, a := range x {
			s = append(s, a.String())
		}
		e = append(e, strings.Join(s, " "))
	}
	return "{" + strings.Join(e, " / ") + "}"
}

func (s Spec) Brief() string {
	var ks []string
	for k := range s.Tests {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var o []string
	for _, k := range ks {
		o = append(o, k+s.Tests[k].String())
	}
	return strings.Join(o, " ")
}

// entry of a multi-entry snapshot file.
type entry struct{ id, body string }

func isHeader(l string) bool {
	return len(l) > 2 && l[0] == '[' && l[len(l)-1] == ']' && strings.Contains(l, " - ")
}

func parseFile(data string) (es []entry, junk []string) {
	if data == "" {
		return
	}
	lines := strings.Split(strings.TrimSuffix(data, "\n"), "\n")
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if l == "" {
			continue
		}
		if !isHeader(l) {
			junk = append(junk, l)
			continue
		}
		var body []string
		end := false
		for i++; i < len(lines); i++ {
			if lines[i] == "---" {
				end = true
				break
			}
			body = append(body, lines[i])
		}
		if !end {
			junk = append(junk, "unterminated entry "+l)
		}
		es = append(es, entry{l[1 : len(l)-1], strings.Join(body, "\n")})
	}
	return
}

func unesc(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if l == "/-/-/-/" {
			ls[i] = "---"
		} else if l != "" && strings.ReplaceAll(l, "/-/-/-/", "") == "" {
			ls[i] = strings.TrimPrefix(l, "/-/-/-/")
		}
	}
	return strings.Join(ls, "\n")
}

func esc(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		if l == "---" {
			ls[i] = "/-/-/-/"
		} else if l != "" && strings.ReplaceAll(l, "/-/-/-/", "") == "" {
			ls[i] = "/-/-/-/" + l
		}
	}
	return strings.Join(ls, "\n")
}

func nameOf(id string) string {
	i := strings.LastIndex(id, " - ")
	if i < 0 {
		return id
	}
	return id[:i]
}

// entryText renders an entry the way snapshot files hold it.
func entryText(id, body string) string { return "\n[" + id + "]\n" + body + "\n---\n" }

func render(es []entry) string {
	s := ""
	for _, e := range es {
		s += entryText(e.id, e.body)
	}
	return s
}

var betaTests = map[string]bool{"TestB": true, "TestBA": true, "TestC": true, "FuzzB": true, "Test_A": true}

func sourceOf(test string) string {
	top := strings.Split(test, "/")[0]
	if betaTests[top] {
		return "beta_test"
	}
	return "alpha_test"
}

// locate is the documented location of a call; k is the ordinal of a standalone call.
func locate(c Cfg, api, test string, k int) string {
	dir := "__snapshots__"
	if c.Dir != "" && !c.Pkg {
		dir = strings.TrimPrefix(c.Dir, "{ROOT}/")
	}
	if c.Pkg {
		c = Cfg{}
	}
	alone := api == "ssnap" || api == "sjson"
	name := c.Filename
	if name == "" {
		name = sourceOf(test)
		if alone {
			name = strings.ReplaceAll(test, "/", "_")
		}
	}
	ext := c.Ext
	if api == "sjson" && ext == "" {
		ext = ".json"
	}
	if alone {
		name += fmt.Sprintf("_%d", k)
	}
	return path.Clean(dir + "/" + name + ".snap" + ext)
}

func isAlone(api string) bool { return api == "ssnap" || api == "sjson" }

type addr struct {
	file string
	id   string // "" for standalone
}

// model of one run: what every call addressed
type addresses struct {
	of    []addr // per call
	multi map[string]map[string]bool
	alone map[string]string // file -> test
	dirs  map[string]bool
}

func (o *Out) addresses() *addresses {
	a := &addresses{multi: map[string]map[string]bool{}, alone: map[string]string{}, dirs: map[string]bool{}}
	ord := map[string]int{}
	for _, c := range o.Log.Calls {
		cfg := o.Spec.Cfgs[c.Cfg]
		series := fmt.Sprintf("%d %s", c.Inst, locate(cfg, c.API, c.Test, 0))
		ord[series]++
		k := ord[series]
		f := locate(cfg, c.API, c.Test, k)
		x := addr{file: f}
		if isAlone(c.API) {
			a.alone[f] = c.Test
		} else {
			x.id = fmt.Sprintf("%s - %d", c.Test, k)
			if a.multi[f] == nil {
				a.multi[f] = map[string]bool{}
			}
			a.multi[f][x.id] = true
		}
		a.of = append(a.of, x)
		a.dirs[path.Dir(f)] = true
	}
	return a
}

// Prog is what is known about a program from an unfiltered, unskipped run of it.
type Prog struct {
	names map[string]bool
	alone map[string]string // standalone file -> owning test
	cust  map[string]bool   // standalone files with a custom Filename
}

func (o *Out) prog() *Prog {
	p := &Prog{names: map[string]bool{}, alone: map[string]string{}, cust: map[string]bool{}}
	for _, n := range o.Log.Ran {
		p.names[n] = true
	}
	a := o.addresses()
	for i, c := range o.Log.Calls {
		if isAlone(c.API) {
			p.alone[a.of[i].file] = c.Test
			if o.Spec.Cfgs[c.Cfg].Filename != "" && !o.Spec.Cfgs[c.Cfg].Pkg {
				p.cust[a.of[i].file] = true
			}
		}
	}
	return p
}

type summary struct {
	counts       map[string]int
	files, tests []string
	nFiles       int
	nTests       int
	word         map[string]bool // obsolete / removed
	odd          []string
	title        int
	hint         bool
}

var (
	ansi     = regexp.MustCompile("\x1b\\[[0-9;]*m")
	countRe  = regexp.MustCompile(`^\S+\s*(\d+) snapshots? (passed|failed|added|updated|skipped)$`)
	headRe   = regexp.MustCompile(`^\S+ (\d+) snapshot (file|test)s? (obsolete|removed)$`)
	bulletRe = regexp.MustCompile(`^\s*↳ *• (.*)$`)
)

func parseSummary(out string) *summary {
	s := &summary{counts: map[string]int{}, word: map[string]bool{}}
	cur := ""
	for _, l := range strings.Split(ansi.ReplaceAllString(out, ""), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if m := bulletRe.FindStringSubmatch(l); m != nil && cur != "" {
			if cur == "file" {
				s.files = append(s.files, m[1])
			} else {
				s.tests = append(s.tests, m[1])
			}
			continue
		}
		if l == "Snapshot Summary" {
			s.title++
			continue
		}
		if m := countRe.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			if _, dup := s.counts[m[2]]; dup {
				s.odd = append(s.odd, l)
			}
			s.counts[m[2]] = n
			continue
		}
		if m := headRe.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			cur = m[2]
			s.word[m[3]] = true
			if cur == "file" {
				s.nFiles += n
			} else {
				s.nTests += n
			}
			continue
		}
		if strings.HasPrefix(l, "To remove ") && strings.Contains(l, "UPDATE_SNAPS=clean") {
			s.hint = true
			continue
		}
		s.odd = append(s.odd, l)
	}
	return s
}

// natcmp is the natural order; total is false when it does not order the two ids.
func natcmp(a, b string) (c int, total bool) {
	if a == b {
		return 0, true
	}
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if digit(a[i]) && digit(b[j]) {
			x, y := i, j
			for x < len(a) && digit(a[x]) {
				x++
			}
			for y < len(b) && digit(b[y]) {
				y++
			}
			na, nb := a[i:x], b[j:y]
			ta, tb := strings.TrimLeft(na, "0"), strings.TrimLeft(nb, "0")
			if ta != tb {
				if len(ta) > 18 || len(tb) > 18 {
					return 0, false
				}
				if len(ta) != len(tb) {
					return sign(len(ta) - len(tb)), true
				}
				return strings.Compare(ta, tb), true
			}
			if na != nb {
				return 0, false // differ in width only
			}
			i, j = x, y
			continue
		}
		if a[i] != b[j] {
			if digit(a[i]) != digit(b[j]) || a[i] >= 0x80 || b[j] >= 0x80 {
				// a digit run against a character: plain byte order
			}
			return sign(int(a[i]) - int(b[j])), true
		}
		i++
		j++
	}
	return sign((len(a) - i) - (len(b) - j)), true
}

func digit(c byte) bool { return c >= '0' && c <= '9' }
func sign(x int) int {
	switch {
	case x < 0:
		return -1
	case x > 0:
		return 1
	}
	return 0
}

// sortedness: -1 some adjacent pair is out of order, 0 cannot tell, 1 sorted.
func sortedness(es []entry) int {
	r := 1
	for i := 1; i < len(es); i++ {
		c, total := natcmp(es[i-1].id, es[i].id)
		if !total {
			r = min(r, 0)
		} else if c > 0 {
			return -1
		}
	}
	return r
}

func covered(name string, skips []string) bool {
	for _, s := range skips {
		if name == s || strings.HasPrefix(name, s+"/") {
			return true
		}
	}
	return false
}

func q(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Simulate predicts the outcome of every call of a sequential program and
// checks it, together with the directory the tests left behind.
func (r *R) Simulate(o *Out) {
	type cell struct {
		body string
		val  string
	}
	a := o.addresses()
	multi := map[addr]cell{}
	alone := map[string]cell{}
	for f, d := range o.Before {
		if d.Dir || !strings.Contains(f, ".snap") {
			continue
		}
		alone[f] = cell{body: d.Data}
		es, _ := parseFile(d.Data)
		for _, e := range es {
			if _, dup := multi[addr{f, e.id}]; !dup {
				multi[addr{f, e.id}] = cell{body: unesc(e.body)}
			}
		}
	}
	for i, c := range o.Log.Calls {
		if c.Late && !o.LateOK {
			continue
		}
		x := a.of[i]
		cfg := o.Spec.Cfgs[c.Cfg]
		create, rewrite := !o.Env.CI, !o.Env.CI && o.Env.Update == "true"
		if cfg.Update != nil && !cfg.Pkg && !o.Env.CI {
			create, rewrite = *cfg.Update, *cfg.Update
		}
		val := strings.Join(c.Vals, "\n")
		var old cell
		var have bool
		if x.id == "" {
			old, have = alone[x.file]
		} else {
			old, have = multi[x]
		}
		same := old.body == val
		isJ := c.API == "json" || c.API == "sjson"
		if isJ {
			same = sameJSON(old.body, val)
		}
		want := "failed"
		switch {
		case c.Bad || isJ && !json.Valid([]byte(val)):
		case !have && create:
			want = "added"
		case have && same:
			want = "passed"
		case have && rewrite:
			want = "updated"
		}
		if got := c.Outcome(); got != want {
			r.Fail("outcome", "%s call %d (%s) of execution %d addressing %s [%s]: %s, want %s %v", c.Test, i, c.API, c.Inst, x.file, x.id, got, want, c.Events)
			return
		}
		if want == "added" || want == "updated" {
			if x.id == "" {
				alone[x.file] = cell{body: val}
			} else {
				multi[x] = cell{body: val}
			}
		}
	}
	// the directory after the tests
	for f, d := range o.Log.PreFS {
		if d.Dir || !strings.Contains(f, ".snap") {
			continue
		}
		if a.multi[f] == nil {
			if b, was := o.Before[f]; was && a.alone[f] == "" && b.Data != d.Data {
				r.Fail("slots", "tests changed %s, which they did not address", f)
			}
			continue
		}
		es, junk := parseFile(d.Data)
		bes, bjunk := parseFile(o.Before[f].Data)
		if len(junk) != len(bjunk) {
			r.Fail("slots", "%s holds %q outside entries", f, junk)
		}
		n := 0
		for _, e := range es {
			m, ok := multi[addr{f, e.id}]
			if !ok {
				r.Fail("slots", "%s holds the entry [%s] nobody wrote", f, e.id)
				return
			}
			if b := unesc(e.body); b != m.body && !sameJSON(b, m.body) {
				dup := false
				for _, x := range bes {
					dup = dup || x.id == e.id && x.body == e.body
				}
				if !dup {
					r.Fail("slots", "%s: entry [%s] holds %s, want %s", f, e.id, q(b), q(m.body))
					return
				}
			}
			n++
		}
		want := map[string]int{}
		for _, e := range bes {
			want[e.id]++
		}
		for k := range multi {
			if k.file == f && want[k.id] == 0 {
				want[k.id] = 1
			}
		}
		tot := 0
		for _, v := range want {
			tot += v
		}
		if n != tot {
			r.Fail("slots", "%s holds %d entries, want %d", f, n, tot)
		}
		// existing entries keep their order
		i := 0
		for _, e := range es {
			if i < len(bes) && bes[i].id == e.id {
				i++
			}
		}
		if i != len(bes) {
			r.Fail("slots", "%s: existing entries were reordered by the tests", f)
		}
	}
	for f, c := range alone {
		if _, isM := a.multi[f]; isM {
			continue
		}
		if got := o.Log.PreFS[f]; got.Data != c.body && !sameJSON(got.Data, c.body) {
			r.Fail("slots", "%s holds %s, want %s", f, q(got.Data), q(c.body))
		}
	}
}

func sameJSON(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	p, _ := json.Marshal(x)
	s, _ := json.Marshal(y)
	return string(p) == string(s)
}

const (
	keep    = iota // must survive and must not be listed
	list           // must be listed, removed in clean mode
	unknown        // not decided by the properties
)

// Judge compares every Clean of a run with the model.
func (r *R) Judge(o *Out, p *Prog) {
	a := o.addresses()
	filtered := o.Env.Run() != ""
	if p == nil {
		p = o.prog()
	}
	ran := map[string]bool{}
	for _, n := range o.Log.Ran {
		ran[n] = true
	}
	shouldClean := !o.Env.CI && (o.Env.Update == "true" || o.Env.Update == "clean")
	sorting := !o.Env.CI && o.Spec.Sort
	for _, n := range o.Log.GoesOn {
		r.Fail("protected-ran", "%s called snaps.Skip* and went on", n)
	}
	wantCounts := map[string]int{"skipped": len(o.Log.Skips)}
	for _, c := range o.Log.Calls {
		wantCounts[c.Outcome()]++
	}
	// protection of a test name: 1 protected, 0 not, -1 unknown
	prot := func(name string) int {
		if covered(name, o.Log.Skips) {
			if ran[name] && !in(o.Log.Skips, name) {
				return -1 // ran before its ancestor called Skip
			}
			return 1
		}
		if !filtered {
			return 0
		}
		if p.names[name] && !ran[name] {
			return 1
		}
		return -1
	}
	prev := o.Log.PreFS
	if o.Env.CI && len(o.Spec.Spoil) == 0 {
		for _, f := range o.Log.Touched {
			r.Fail("ci-write", "tests wrote %s on CI", f)
		}
		for f := range o.Before {
			if _, ok := prev[f]; !ok {
				r.Fail("ci-write", "tests removed %s on CI", f)
			}
		}
		for f := range prev {
			if _, ok := o.Before[f]; !ok {
				r.Fail("ci-write", "tests created %s on CI", f)
			}
		}
	}
	for n, c := range o.Log.Cleans {
		where := fmt.Sprintf("Clean %d", n+1)
		if c.Panic != "" {
			r.Fail("clean-panic", "%s panicked: %s", where, c.Panic)
			return
		}
		s := parseSummary(c.Out)
		// C20: totals
		for _, k := range []string{"passed", "failed", "added", "updated", "skipped"} {
			if s.counts[k] != wantCounts[k] {
				r.Fail("counts", "%s: summary says %d %s, want %d: %s", where, s.counts[k], k, wantCounts[k], q(c.Out))
			}
		}
		if len(s.odd) > 0 || s.title > 1 {
			r.Fail("summary-format", "%s: unexpected lines %q in %s", where, s.odd, q(c.Out))
		}
		if s.nFiles != len(s.files) || s.nTests != len(s.tests) {
			r.Fail("summary-count", "%s: summary announces %d files and %d tests, lists %q and %q", where, s.nFiles, s.nTests, s.files, s.tests)
		}
		if len(s.files)+len(s.tests) > 0 && (s.word["removed"] != shouldClean || s.word["obsolete"] == shouldClean) {
			r.Fail("summary-word", "%s: wrong verb: %s", where, q(c.Out))
		}
		listedFile := map[string]int{}
		for _, f := range s.files {
			rel, err := filepath.Rel(r.Root, f)
			if err != nil || !filepath.IsAbs(f) {
				rel = f
			}
			listedFile[rel]++
			if _, ok := prev[rel]; !ok {
				r.Fail("listed-missing", "%s: lists the file %s, which does not exist", where, f)
			}
			if listedFile[rel] > 1 {
				r.Fail("summary-count", "%s: lists %s twice", where, f)
			}
		}
		listedTest := map[string]int{}
		for _, t := range s.tests {
			listedTest[t]++
		}
		// classify the entries of addressed files
		files := make([]string, 0, len(prev))
		for f := range prev {
			files = append(files, f)
		}
		sort.Strings(files)
		entryKind := func(f, id string) int {
			if a.multi[f][id] {
				return keep
			}
			switch prot(nameOf(id)) {
			case 1:
				return keep
			case 0:
				return list
			}
			return unknown
		}
		wantTests := map[string]int{} // id -> how many stale
		mayTests := map[string]int{}
		for _, f := range files {
			if a.multi[f] == nil || prev[f].Dir {
				continue
			}
			es, _ := parseFile(prev[f].Data)
			for _, e := range es {
				switch entryKind(f, e.id) {
				case list:
					wantTests[e.id]++
					mayTests[e.id]++
				case unknown:
					mayTests[e.id]++
				}
			}
		}
		for id, k := range listedTest {
			if k > mayTests[id] {
				key, why := "overlisted", "is not stale"
				for f, m := range a.multi {
					if m[id] {
						key, why = "matched-listed", "was matched in "+f
					}
				}
				if key == "overlisted" && prot(nameOf(id)) == 1 {
					key, why = "protected-listed", "belongs to a test that did not run"
				}
				r.Fail(key, "%s: lists [%s] as obsolete, which %s", where, id, why)
			}
		}
		for id, k := range wantTests {
			if listedTest[id] == 0 || (k > listedTest[id] && listedTest[id] > 0 && !dupIn(prev, a, id)) {
				r.Fail("stale-unlisted", "%s: does not list the stale entry [%s]: %s", where, id, q(c.Out))
			}
		}
		// classify files
		for _, f := range files {
			d := prev[f]
			visited := a.dirs[path.Dir(f)] && !d.Dir && strings.Contains(path.Base(f), ".snap")
			kind, why := keep, "is outside what Clean examines"
			key := "foreign"
			switch {
			case a.multi[f] != nil && !d.Dir:
				kind, why, key = keep, "was matched", "matched"
			case a.alone[f] != "" && !d.Dir:
				kind, why, key = keep, "was matched", "matched"
			case visited:
				kind, why, key = r.fileKind(f, d.Data, prot, p, filtered, o)
			}
			listed := listedFile[f] > 0
			after, there := c.FS[f]
			switch {
			case kind == keep && listed:
				k := key + "-listed"
				if key == "known-standalone-filename-skip" {
					k = key
				}
				r.Fail(k, "%s: lists the file %s, which %s", where, f, why)
			case kind == list && !listed:
				r.Fail("stale-unlisted", "%s: does not list the stale file %s: %s", where, f, q(c.Out))
			}
			gone := listed && shouldClean
			if gone && there && (kind == list || kind == unknown) {
				r.Fail("listed-kept", "%s: reports %s as removed but it is there", where, f)
			}
			if !there && !(gone && kind != keep) {
				k := key + "-removed"
				if kind == list || kind == unknown {
					k = "stale-removed"
				}
				if key == "known-standalone-filename-skip" {
					k = key
				}
				r.Fail(k, "%s: removed %s, which %s", where, f, why)
			}
			if !there || d.Dir {
				if there != (d.Dir) && d.Dir {
					r.Fail("foreign-removed", "%s: removed the directory %s", where, f)
				}
				continue
			}
			if a.multi[f] == nil {
				if after.Data != d.Data {
					k := key + "-altered"
					r.Fail(k, "%s: changed %s from %s to %s", where, f, q(d.Data), q(after.Data))
				} else if in(c.Touched, f) {
					r.Fail("needless-write", "%s: rewrote %s", where, f)
				}
				continue
			}
			r.judgeFile(where, f, d.Data, after.Data, in(c.Touched, f), shouldClean, sorting, listedTest, a, entryKind, prot)
		}
		for f := range c.FS {
			if _, ok := prev[f]; !ok {
				r.Fail("created", "%s: created %s", where, f)
			}
		}
		if !shouldClean && !sorting {
			for _, f := range c.Touched {
				r.Fail("forbidden-write", "%s: wrote %s (CI=%v UPDATE_SNAPS=%q sort=%v)", where, f, o.Env.CI, o.Env.Update, o.Spec.Sort)
			}
			for f := range prev {
				if _, ok := c.FS[f]; !ok {
					r.Fail("forbidden-write", "%s: removed %s (CI=%v UPDATE_SNAPS=%q sort=%v)", where, f, o.Env.CI, o.Env.Update, o.Spec.Sort)
				}
			}
		}
		if n > 0 && (len(c.Touched) > 0 || len(c.FS) != len(prev)) {
			r.Fail("not-idempotent", "%s changed %q again", where, c.Touched)
		}
		prev = c.FS
	}
}

// dupIn: the id is stale more than once (in one file or several), where the number of mentions is free.
func dupIn(fs map[string]File, a *addresses, id string) bool {
	n := 0
	for f := range a.multi {
		es, _ := parseFile(fs[f].Data)
		k := 0
		for _, e := range es {
			if e.id == id {
				k++
			}
		}
		if k > 1 {
			return true
		}
		n += k
	}
	return false
}

func (r *R) fileKind(f, data string, prot func(string) int, p *Prog, filtered bool, o *Out) (int, string, string) {
	es, junk := parseFile(data)
	if owner, ok := p.alone[f]; ok {
		switch prot(owner) {
		case 1:
			key := "protected"
			if p.cust[f] && !filtered {
				key = "known-standalone-filename-skip"
			}
			return keep, "belongs to " + owner + ", which did not run", key
		case 0:
			if ambiguousName(f, o.Log.Skips) {
				return unknown, "", "unknown"
			}
			return list, "is stale", "stale"
		}
		return unknown, "", "unknown"
	}
	if len(es) > 0 && len(junk) == 0 {
		unk := false
		for _, e := range es {
			switch prot(nameOf(e.id)) {
			case 1:
				return keep, "holds [" + e.id + "] of a test that did not run", "protected"
			case -1:
				unk = true
			}
		}
		if unk {
			return unknown, "", "unknown"
		}
		return list, "is stale", "stale"
	}
	if filtered || ambiguousName(f, o.Log.Skips) {
		return unknown, "", "unknown"
	}
	return list, "is stale", "stale"
}

// ambiguousName: the standalone file name may belong to a descendant of a skipped test.
func ambiguousName(f string, skips []string) bool {
	b := path.Base(f)
	for _, s := range skips {
		n := strings.ReplaceAll(s, "/", "_") + "_"
		if strings.HasPrefix(b, n) {
			return true
		}
	}
	return false
}

func (r *R) judgeFile(where, f, before, after string, touched, shouldClean, sorting bool, listed map[string]int, a *addresses, kind func(f, id string) int, prot func(string) int) {
	b, bj := parseFile(before)
	e, ej := parseFile(after)
	if len(ej) > 0 && len(bj) == 0 {
		r.Fail("entry-junk", "%s: %s holds %q outside entries", where, f, ej)
	}
	// expected survivors, in order
	var want []entry
	pruned := false
	for _, x := range b {
		if shouldClean && listed[x.id] > 0 && kind(f, x.id) != keep {
			pruned = true
			continue
		}
		want = append(want, x)
	}
	bodies := map[string][]string{}
	for _, x := range e {
		bodies[x.id] = append(bodies[x.id], x.body)
	}
	wantBodies := map[string][]string{}
	for _, x := range want {
		wantBodies[x.id] = append(wantBodies[x.id], x.body)
	}
	ids := map[string]bool{}
	for k := range bodies {
		ids[k] = true
	}
	for k := range wantBodies {
		ids[k] = true
	}
	for id := range ids {
		g, w := bodies[id], wantBodies[id]
		if strings.Join(g, "\x00") == strings.Join(w, "\x00") && len(g) == len(w) {
			continue
		}
		switch {
		case len(g) < len(w):
			key := "stale-removed"
			if a.multi[f][id] {
				key = "matched-lost"
			} else if kind(f, id) == keep {
				key = "protected-lost"
			}
			if len(g) > 0 && key == "matched-lost" && g[0] == w[0] {
				key = "entry-lost"
			}
			r.Fail(key, "%s: %s lost the entry [%s] (%d of %d left)", where, f, id, len(g), len(w))
			if key != "stale-removed" {
				r.Fail("entry-lost", "%s: %s lost the entry [%s] (%d of %d left)", where, f, id, len(g), len(w))
			}
		case len(g) > len(w):
			key := "entry-extra"
			if len(w) == 0 && listed[id] > 0 {
				key = "listed-kept"
			}
			r.Fail(key, "%s: %s holds [%s] %d times, want %d", where, f, id, len(g), len(w))
		default:
			key := "entry-body"
			if a.multi[f][id] && g[0] != w[0] {
				r.Fail("matched-altered", "%s: %s changed the value of [%s] from %s to %s", where, f, id, q(w[0]), q(g[0]))
			}
			r.Fail(key, "%s: %s changed the value of [%s] from %q to %q", where, f, id, w, g)
		}
	}
	if sorting {
		if len(b) == len(e)+len(b)-len(want) && sortedness(e) == -1 {
			r.Fail("unsorted", "%s: %s is not in natural order: %q", where, f, idsOf(e))
		}
	} else if len(e) == len(want) {
		for i := range e {
			if e[i].id != want[i].id {
				r.Fail("reordered", "%s: %s was reordered without Sort: %q", where, f, idsOf(e))
				break
			}
		}
	}
	needs := pruned || sorting && sortedness(b) <= 0
	if touched && !needs {
		r.Fail("needless-write", "%s: rewrote %s, which needs neither pruning nor sorting", where, f)
	}
	if !touched && after != before {
		r.Fail("needless-write", "%s: %s changed without a new modification time", where, f)
	}
}

func idsOf(es []entry) (o []string) {
	for _, e := range es {
		o = append(o, e.id)
	}
	return
}
