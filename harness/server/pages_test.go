package server

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"html/template"
	"io"
	"net/url"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"golang.org/x/net/html"
	"golang.org/x/text/language"
	"golang.org/x/text/message"
	"pgregory.net/rapid"
)

// viewer compares pages with the site.
type viewer struct {
	c     kit.Failer
	s     *site
	p     *process
	bench *data.Benchmarks
	warns *data.Warnings
	print *message.Printer
	plain bool // numbers of US English
	links map[string]string
}

var keepersReady bool

// truth parses the site and computes the scores.
func (v *viewer) truth() {
	v.bench, v.warns = data.NewBenchmarks(), data.NewWarnings()
	err := v.bench.ParseBenchmarkData(strings.NewReader(v.s.bench))
	if err == nil {
		err = v.warns.ParseWarningData(bytes.NewReader(v.bench.WarningText()), "Bench", v.bench.HandlerLookup())
	}
	if err == nil {
		err = v.warns.ParseWarningData(strings.NewReader(v.s.verify), "Verify", v.bench.HandlerLookup())
	}
	if err == nil && !keepersReady {
		keepersReady = true
		err = scoring.Setup(v.bench, v.warns)
	}
	for _, tag := range score.Keepers() {
		if err == nil {
			err = score.GetKeeper(tag).Setup(v.bench, v.warns)
		}
	}
	if err != nil {
		v.c.Fatalf("setup fails: %v", err)
	}
	tag := "en-US"
	for _, l := range v.s.langs {
		if _, err := language.Parse(l); err == nil {
			tag = l
			break
		}
	}
	v.plain = tag == "en" || tag == "en-US" || tag == "en_US"
	v.print = message.NewPrinter(language.Make(tag))
}

func thousands(s string) string {
	s, frac, ok := strings.Cut(s, ".")
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	if ok {
		s += "." + frac
	}
	return s
}

func (v *viewer) whole(n uint64) string {
	if v.plain {
		return thousands(fmt.Sprint(n))
	}
	return tidy(v.print.Sprintf("%d", n))
}

func (v *viewer) decimal(f float64, digits int) string {
	if v.plain {
		return thousands(fmt.Sprintf("%.*f", digits, f))
	}
	return tidy(v.print.Sprintf("%.*f", digits, f))
}

// page fetches a page, checks what all have in common, and gathers its links.
func (v *viewer) page(at string, current [5]string) *html.Node {
	body := v.p.fetch(v.c, at)
	doc := parse(v.c, at, body)
	if len(findAll(doc, "verif-x")) > 0 || strings.Contains(body, "<script>alert") || strings.Contains(body, "ZgotmplZ") {
		v.c.Fatalf("%s: text from the data is taken for markup:\n%s", at, excerpt(body, "verif-x>", "<script>alert", "ZgotmplZ"))
	}
	if !strings.HasSuffix(strings.TrimSpace(body), "</html>") || strings.Contains(body, "<no value>") || strings.Contains(body, "%!") {
		v.c.Fatalf("%s isn't complete:\n%s", at, excerpt(body, "<no value>", "%!"))
	}
	v.buttons(at, doc)
	selects := findAll(doc, "select")
	if len(selects) != 5 {
		v.c.Fatalf("%s has %d menus, expected 5", at, len(selects))
	}
	var want [5][]string
	for _, h := range v.s.fromBench() {
		want[0] = append(want[0], h.tag+"="+tidy(h.shown()))
	}
	for _, t := range v.s.benchTests() {
		want[1] = append(want[1], t+"="+testName(t))
	}
	for _, t := range v.s.warned("Verify") {
		want[2] = append(want[2], t+"="+testName(t))
	}
	for _, k := range score.Keepers() {
		want[3] = append(want[3], string(k)+"="+string(k))
	}
	want[4] = []string{"index.html=Home", "warnings.html=Warnings", "guts.html=Guts"}
	for _, name := range []string{"bench.txt", "verify.txt", "tabular.txt"} {
		if v.s.texts[name] != "" {
			want[4] = append(want[4], "text/"+name+"/display.html="+name)
		}
	}
	for i, s := range selects {
		var got, chosen []string
		for _, o := range findAll(s, "option") {
			if hasAttr(o, "disabled") {
				continue
			}
			got = append(got, attr(o, "value")+"="+text(o))
			if hasAttr(o, "selected") {
				chosen = append(chosen, attr(o, "value"))
			}
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want[i]) {
			v.c.Fatalf("%s: menu %d offers %q, expected %q", at, i, got, want[i])
		}
		expect := ""
		for _, w := range want[i] {
			if current[i] != "" && strings.HasPrefix(w, current[i]+"=") {
				expect = current[i]
			}
		}
		if strings.Join(chosen, " ") != expect {
			v.c.Fatalf("%s: in menu %d %q are chosen, expected %q", at, i, chosen, expect)
		}
	}
	walk(doc, func(n *html.Node) bool {
		for _, a := range n.Attr {
			if a.Key == "href" || a.Key == "src" {
				if u, err := url.Parse(a.Val); err == nil && u.Host == "" && u.Path != "" {
					full := u.EscapedPath()
					if !strings.HasPrefix(full, "/") {
						full = path.Join(path.Dir(at), full)
					}
					v.links[full] = at
				}
			}
		}
		return true
	})
	return doc
}

func excerpt(body string, marks ...string) string {
	for _, m := range marks {
		if i := strings.Index(body, m); i >= 0 {
			return body[max(0, i-300):min(len(body), i+300)]
		}
	}
	return body[max(0, len(body)-600):]
}

func (v *viewer) title(doc *html.Node, at, want string) {
	h := find(doc, "h2.home")
	if h == nil || text(h) != tidy(want) {
		v.c.Fatalf("%s is titled %q, expected %q", at, text(h), want)
	}
}

func (v *viewer) same(at, what, got, want string) {
	if got != want {
		v.c.Fatalf("%s: %s:\n%s\nexpected:\n%s", at, what, got, want)
	}
}

func (v *viewer) home(at string) {
	doc := v.page(at, [5]string{4: "index.html"})
	v.title(doc, at, "Home")
	want := map[string][]string{}
	for _, h := range v.s.fromBench() {
		want["Handlers"] = append(want["Handlers"], "/go-slog/handler/"+h.tag+".html="+tidy(h.shown()))
	}
	for _, t := range v.s.benchTests() {
		want["Bench Tests"] = append(want["Bench Tests"], "/go-slog/test/"+t+".html="+testName(t))
	}
	for _, t := range v.s.warned("Verify") {
		want["Verify Tests"] = append(want["Verify Tests"], "/go-slog/test/"+t+".html="+testName(t))
	}
	for _, k := range score.Keepers() {
		want["Scoring"] = append(want["Scoring"], "/go-slog/scores/"+string(k)+"/summary.html="+string(k))
	}
	want["Other"] = []string{"/go-slog/warnings.html=Warnings", "/go-slog/guts.html=Guts"}
	for _, name := range []string{"bench.txt", "verify.txt", "tabular.txt"} {
		if v.s.texts[name] != "" {
			want["Other"] = append(want["Other"], "text/"+name+"/display.html="+name)
		}
	}
	got := map[string][]string{}
	for _, f := range findAll(doc, "fieldset") {
		legend := text(find(f, "legend"))
		for _, a := range findAll(f, "a") {
			href, err := url.PathUnescape(attr(a, "href"))
			harness(err)
			got[legend] = append(got[legend], href+"="+text(a))
		}
	}
	v.same(at, "links", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
}

// results compares a table of measurements.
func (v *viewer) results(at string, doc *html.Node, want [][]string) {
	var table *html.Node
	for _, t := range findAll(doc, "table.data") {
		table = t
	}
	if (table != nil) != (len(want) > 0) {
		v.c.Fatalf("%s: has results: %v, expected %q", at, table != nil, want)
	}
	if table != nil {
		v.same(at, "results", lines(cells(table)[1:]), lines(want))
	}
}

func (v *viewer) measures(name string, m measures) []string {
	return []string{tidy(name), v.whole(m.runs), v.decimal(m.nanos, 2), v.whole(m.allocs), v.whole(m.bytes), v.decimal(m.mbs, 2)}
}

// instance is one line of warnings as shown.
func shownText(lines []string) string {
	var out []string
	for _, l := range lines {
		if i := strings.LastIndex(l, " (/usr/local/go/src/"); i >= 0 {
			l = strings.Replace(l[:i], ":", " ", 1)
		}
		out = append(out, tidy(l))
	}
	return tidy(strings.Join(out, " "))
}

// warnings compares the part that shows warnings. name gives the heading of an instance.
func (v *viewer) warnings(at string, doc *html.Node, recs []record, expected bool, name func(record) string, source bool, who func(record) string) {
	table := find(doc, "table.warning")
	if (table != nil) != expected {
		v.c.Fatalf("%s: has warnings: %v, expected %v", at, table != nil, expected)
	}
	if table == nil {
		return
	}
	var got, want []string
	level, warn := "", ""
	seen := map[string]bool{}
	for _, row := range rows(table) {
		for i, cell := range row {
			switch {
			case hasClass(cell, "level"):
				level = text(cell)
				if seen[level] {
					v.c.Fatalf("%s: level %s is shown twice", at, level)
				}
				seen[level] = true
				got = append(got, fmt.Sprintf("level %s", level))
			case hasClass(cell, "warning"):
				warn = text(cell)
				if seen[warn] {
					v.c.Fatalf("%s: warning %s is shown twice", at, warn)
				}
				seen[warn] = true
				if i+2 >= len(row) {
					v.c.Fatalf("%s: warning %s lacks columns", at, warn)
				}
				described := v.target(at, doc, row[i+2])
				got = append(got, fmt.Sprintf("warning %s %s: %s, description %v", level, warn, text(row[i+1]), described != nil))
				if described != nil {
					got = append(got, fmt.Sprintf("description %s: %s", warn, text(described)))
				}
			}
			for _, inst := range findAll(cell, "table.instance") {
				for _, r := range rows(inst) {
					if len(r) == 3 && hasClass(r[0], "name") {
						line := fmt.Sprintf("instance %s %s: %s", warn, text(r[0]), text(r[1]))
						if log := v.target(at, doc, r[2]); log != nil {
							line += " log " + squash(raw(log))
						}
						for _, a := range findAll(r[1], "a") {
							line += " link " + attr(a, "href")
						}
						got = append(got, line)
					}
				}
			}
		}
	}
	levels := map[string]bool{}
	warned := map[string]bool{}
	for _, r := range recs {
		if l := r.warning.Level.String(); !levels[l] {
			levels[l] = true
			want = append(want, "level "+l)
		}
		if !warned[r.warning.Name] {
			warned[r.warning.Name] = true
			want = append(want, fmt.Sprintf("warning %s %s: %s, description %v", r.warning.Level, r.warning.Name, tidy(r.warning.Summary), r.warning.HasDescription()))
			if r.warning.HasDescription() {
				doc := parse(v.c, at, string(r.warning.Description()))
				want = append(want, fmt.Sprintf("description %s: %s", r.warning.Name, text(doc)))
			}
		}
		head := ""
		if source {
			head = r.source + ": "
		}
		line := fmt.Sprintf("instance %s %s: %s", r.warning.Name, tidy(head+name(r)), shownText(r.text))
		if r.log != "" {
			line += " log " + squash(r.log)
		}
		for _, l := range r.text {
			if _, place, ok := strings.Cut(l, " (/usr/local/go/src/"); ok {
				line += " link https://cs.opensource.google/go/go/+/master:src/" + strings.Replace(strings.TrimSuffix(place, ")"), ":", ";l=", 1)
			}
		}
		want = append(want, line)
	}
	sort.Strings(got)
	sort.Strings(want)
	v.same(at, "warnings", strings.Join(got, "\n"), strings.Join(want, "\n"))
}

func (v *viewer) handler(h *handler, at string) {
	doc := v.page(at, [5]string{0: h.tag})
	v.title(doc, at, "Handler "+h.shown())
	var want [][]string
	for _, t := range v.s.benchTests() {
		if m, ok := h.results[strings.TrimPrefix(t, "Bench.")]; ok {
			want = append(want, v.measures(testName(t), m))
		}
	}
	v.results(at, doc, want)
	reported := h.reported["Bench"] || h.reported["Verify"]
	v.warnings(at, doc, h.recs, reported, func(r record) string { return data.TestTag(r.test).Name() }, true, nil)
	summary := find(doc, "tr.summary")
	if (summary != nil) != (reported && strings.Join(h.summary, "\n") != "") {
		v.c.Fatalf("%s: has a summary: %v, expected %q", at, summary != nil, h.summary)
	}
	if summary != nil {
		got := text(find(summary, "td"))
		for _, l := range h.summary {
			for _, w := range strings.Fields(strings.NewReplacer("*", " ", "^", " ", "[", " ", "]", " ", "(https://example.com/d)", " ").Replace(l)) {
				if !strings.Contains(got, w) {
					v.c.Fatalf("%s: the summary is %q, expected %q", at, got, h.summary)
				}
			}
		}
		found := map[string]string{}
		for _, td := range findAll(summary, "td")[1:] {
			for _, a := range findAll(td, "a") {
				u, err := url.QueryUnescape(attr(a, "href"))
				harness(err)
				found[text(a)] = u
			}
		}
		expect := map[string]string{}
		for _, l := range h.links {
			expect[l.name] = l.url
		}
		v.same(at, "links", fmt.Sprintf("%q", found), fmt.Sprintf("%q", expect))
	}
	v.charts(at, doc, h.tag, len(h.results) > 0)
}

func (v *viewer) charts(at string, doc *html.Node, tag string, expected bool) {
	var got, want []string
	for _, img := range findAll(doc, "img.chart") {
		src, err := url.PathUnescape(attr(img, "src"))
		harness(err)
		got = append(got, src)
	}
	if expected {
		for _, item := range []string{"Nanos", "MemAllocs", "MemBytes", "GbPerSec"} {
			want = append(want, "/go-slog/chart/"+tag+"/"+item+".svg")
		}
	}
	v.same(at, "charts", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
}

func (v *viewer) test(tag, at string) {
	doc := v.page(at, [5]string{1: tag, 2: tag})
	v.title(doc, at, "Test "+testName(tag))
	source, name, _ := strings.Cut(tag, ".")
	var want [][]string
	var recs []record
	who := map[*warning.Warning][]*handler{}
	for _, h := range v.s.fromBench() {
		if m, ok := h.results[name]; ok && source == "Bench" {
			want = append(want, v.measures(h.shown(), m))
		}
	}
	for _, h := range v.s.handlers {
		for _, r := range h.recs {
			if r.source == source && r.test == name {
				r.source = h.tag
				recs = append(recs, r)
				who[r.warning] = append(who[r.warning], h)
			}
		}
	}
	v.results(at, doc, want)
	v.warnings(at, doc, recs, len(recs) > 0, func(r record) string { return data.HandlerTag(r.source).Name() }, false, nil)
	v.charts(at, doc, tag, len(want) > 0)
}

// usage lists the handlers and tests in a table.
func (v *viewer) usage(at, warn string, n *html.Node) string {
	found := map[string]bool{}
	for j, d := range findAll(n, "div.list") {
		for _, item := range split(d) {
			key := []string{"handler ", "test "}[j%2] + item
			if found[key] && j == 0 {
				v.c.Fatalf("%s: warning %s lists %s twice", at, warn, key)
			}
			found[key] = true
		}
	}
	return fmt.Sprintf("usage %s: %q", warn, kit.SortedKeys(found))
}

func (v *viewer) overview(at string) {
	doc := v.page(at, [5]string{4: "warnings.html"})
	v.title(doc, at, "Warnings")
	usage := map[string]map[string]bool{}
	counts := map[string]map[string]int{}
	var columns []*handler
	for _, h := range v.s.handlers {
		if h.reported["Bench"] || h.reported["Verify"] {
			columns = append(columns, h)
		}
		for _, r := range h.recs {
			if usage[r.warning.Name] == nil {
				usage[r.warning.Name], counts[r.warning.Name] = map[string]bool{}, map[string]int{}
			}
			usage[r.warning.Name]["handler "+data.HandlerTag(h.tag).Name()] = true
			usage[r.warning.Name]["test "+testName(r.source+"."+r.test)] = true
			counts[r.warning.Name][h.tag]++
		}
	}
	sort.Slice(columns, func(i, j int) bool { return columns[i].shown() < columns[j].shown() })
	var got, want []string
	warn := ""
	for _, row := range rows(find(doc, "table.warning")) {
		for i, cell := range row {
			switch {
			case hasClass(cell, "level"):
				got = append(got, "level "+text(cell))
			case hasClass(cell, "warning"):
				warn = text(cell)
				if i+2 >= len(row) {
					v.c.Fatalf("%s: warning %s lacks columns", at, warn)
				}
				used := v.target(at, doc, row[i+2])
				got = append(got, fmt.Sprintf("warning %s: %s usage %v", warn, text(row[i+1]), used != nil))
				if used != nil {
					got = append(got, v.usage(at, warn, used))
				}
			case hasClass(cell, "description"):
				got = append(got, fmt.Sprintf("description %s: %s", warn, text(cell)))
			}
		}
	}
	matrix := [][]string{{""}}
	for _, h := range columns {
		matrix[0] = append(matrix[0], tidy(h.shown()))
	}
	for _, l := range warning.LevelOrder {
		want = append(want, "level "+l.String())
		matrix = append(matrix, []string{l.String()})
		for _, w := range l.Warnings() {
			want = append(want, fmt.Sprintf("warning %s: %s usage %v", w.Name, tidy(w.Summary), usage[w.Name] != nil))
			if usage[w.Name] != nil {
				want = append(want, fmt.Sprintf("usage %s: %q", w.Name, kit.SortedKeys(usage[w.Name])))
			}
			if w.HasDescription() {
				want = append(want, fmt.Sprintf("description %s: %s", w.Name, text(parse(v.c, at, string(w.Description())))))
			}
			row := []string{"", w.Name}
			for _, h := range columns {
				n := ""
				if counts[w.Name][h.tag] > 0 {
					n = fmt.Sprint(counts[w.Name][h.tag])
				}
				row = append(row, n)
			}
			matrix = append(matrix, row)
		}
	}
	v.same(at, "warnings", strings.Join(got, "\n"), strings.Join(want, "\n"))
	v.same(at, "warnings of handlers", fmt.Sprintf("%q", cells(find(doc, "table.handler-v-warning"))), fmt.Sprintf("%q", matrix))
}

// split gives the lines between <br> elements.
func split(n *html.Node) (out []string) {
	line := ""
	for k := n.FirstChild; k != nil; k = k.NextSibling {
		if k.Type == html.ElementNode && k.Data == "br" {
			out = append(out, tidy(line))
			line = ""
		} else {
			line += raw(k)
		}
	}
	if tidy(line) != "" {
		out = append(out, tidy(line))
	}
	return out
}

func (v *viewer) guts(at string) {
	doc := v.page(at, [5]string{4: "guts.html"})
	v.title(doc, at, "Data and Warnings")
	tables := findAll(doc, "table.debug")
	if len(tables) != 4 {
		v.c.Fatalf("%s has %d tables, expected 4", at, len(tables))
	}
	want := [4][][]string{}
	for _, h := range v.s.handlers {
		if len(h.results) > 0 {
			want[0] = append(want[0], []string{h.tag, tidy(h.shown())})
		}
		if h.reported["Bench"] || h.reported["Verify"] {
			want[2] = append(want[2], []string{h.tag, tidy(h.shown())})
		}
	}
	for _, t := range v.s.benchTests() {
		want[1] = append(want[1], []string{t, testName(t)})
	}
	for _, t := range append(v.s.warned("Bench"), v.s.warned("Verify")...) {
		want[3] = append(want[3], []string{t, testName(t)})
	}
	for i, t := range tables {
		v.same(at, fmt.Sprintf("table %d", i), lines(cells(t)[1:]), lines(want[i]))
	}
}

func (v *viewer) textPage(name, at string) {
	doc := v.page(at, [5]string{4: "text/" + name + "/display.html"})
	v.title(doc, at, "Text File "+name)
	if got := raw(find(doc, "div.text")); !strings.Contains(got, v.s.texts[name]) || strings.TrimSpace(got) != strings.TrimSpace(v.s.texts[name]) {
		v.c.Fatalf("%s shows %q, expected %q", at, got, v.s.texts[name])
	}
}

func (v *viewer) scores(tag score.KeeperTag, at string) {
	doc := v.page(at, [5]string{3: string(tag)})
	v.title(doc, at, "Handler Scores")
	k := score.GetKeeper(tag)
	axes := []string{"X", "Y"}
	head := []string{"Handler"}
	var want [][]string
	for _, a := range axes {
		head = append(head, tidy("Check box to see details "+k.Axes()[a].Name()))
	}
	want = append(want, head)
	name := func(h data.HandlerTag) string {
		for _, x := range v.s.handlers {
			if x.tag == string(h) {
				return tidy(x.shown())
			}
		}
		return "?"
	}
	value := func(s score.Value) string { return v.decimal(float64(s), 2) }
	for _, h := range k.HandlerTags() {
		row := []string{name(h)}
		for _, a := range axes {
			row = append(row, value(k.Axes()[a].ScoreFor(h)))
		}
		want = append(want, row)
	}
	// shown compares a table.
	shown := func(id string, want [][]string) {
		table := find(doc, "table#"+id)
		if table == nil {
			v.c.Fatalf("%s lacks table %s", at, id)
		}
		v.same(at, id, fmt.Sprintf("%q", cells(table)), fmt.Sprintf("%q", want))
	}
	shown("score-table-scores", want)
	// columns are the headings of scores; the first one holds the box that shows the others.
	columns := func(list []score.Type) (out []string) {
		for i, t := range list {
			if i == 0 {
				out = append(out, "Check box to see detail score columns Score")
			} else {
				out = append(out, t.ColHeader())
			}
		}
		return out
	}
	for _, a := range axes {
		types := func(x score.Axis, h data.HandlerTag, list []score.Type) (out []string) {
			for _, t := range list {
				out = append(out, value(x.ScoreForType(h, t)))
			}
			return out
		}
		switch x := k.Axes()[a].(type) {
		case *axis.Benchmarks:
			byTest := score.List("Default", "ByTest", "ByData", "Original")
			byData := score.List("Default", "ByData", "ByTest", "Original")
			for _, kind := range []string{"details", "micros", "allocs", "bytes"} {
				list := byData
				if kind == "details" {
					list = byTest
				}
				var tests []string
				header := []string{"Tests → ↓Handlers"}
				for _, t := range v.s.benchTests() {
					if x.HasTest(data.TestTag(t)) {
						tests = append(tests, t)
						header = append(header, testName(t))
					}
				}
				header = append(header, columns(list)...)
				want := [][]string{header}
				for _, h := range k.HandlerTags() {
					row := []string{name(h)}
					for _, t := range tests {
						var m measures
						found := false
						for _, s := range v.s.handlers {
							if s.tag == string(h) {
								m, found = s.results[strings.TrimPrefix(t, "Bench.")]
							}
						}
						switch {
						case kind == "details":
							row = append(row, value(x.ScoreForTest(h, data.TestTag(t))))
						case !found:
							row = append(row, "")
						case kind == "micros":
							row = append(row, v.decimal(m.nanos/1000, 3))
						case kind == "allocs":
							row = append(row, v.whole(m.allocs))
						case kind == "bytes":
							row = append(row, v.whole(m.bytes))
						}
					}
					want = append(want, append(row, types(x, h, list)...))
				}
				shown("score-table-"+a+"-"+kind, want)
			}
		case *axis.Warnings:
			list := score.List("Default", "ByData", "Original")
			for _, kind := range []string{"details", "counts"} {
				header := []string{"Levels → ↓Handlers"}
				for _, l := range warning.LevelOrder {
					header = append(header, l.String())
				}
				header = append(header, columns(list)...)
				want := [][]string{header}
				for _, h := range k.HandlerTags() {
					row := []string{name(h)}
					for _, l := range warning.LevelOrder {
						distinct := map[string]bool{}
						for _, s := range v.s.handlers {
							for _, r := range s.recs {
								if s.tag == string(h) && r.warning.Level == l {
									distinct[r.warning.Name] = true
								}
							}
						}
						if kind == "details" {
							row = append(row, value(x.ScoreForLevel(h, l)))
						} else {
							row = append(row, v.whole(uint64(len(distinct))))
						}
					}
					want = append(want, append(row, types(x, h, list)...))
				}
				shown("warn-table-"+a+"-"+kind, want)
			}
		}
	}
	v.explained(at, doc, k)
	var charts []string
	for _, img := range findAll(doc, "img.chart") {
		src, err := url.PathUnescape(attr(img, "src"))
		harness(err)
		charts = append(charts, src)
	}
	var expected []string
	for i := 0; i < 4; i++ {
		expected = append(expected, fmt.Sprintf("/go-slog/scores/%s/%d/chart.svg", tag, i))
	}
	v.same(at, "charts", fmt.Sprintf("%q", charts), fmt.Sprintf("%q", expected))
}

// smallest is the size of the closest chart that shows all handlers.
func smallest(k *score.Keeper) int {
	smallest := 0
	for size, low := range []score.Value{0, 25, 50, 75} {
		all := true
		for _, h := range k.HandlerTags() {
			all = all && !(k.X().ScoreFor(h) < low || k.Y().ScoreFor(h) < low)
		}
		if all {
			smallest = size
		}
	}
	return smallest
}

// explained compares what describes a keeper: title, caption, documentation, and the weights and tests of its axes.
func (v *viewer) explained(at string, doc *html.Node, k *score.Keeper) {
	page := text(doc)
	says := func(what string, h template.HTML) {
		if want := text(parse(v.c, what, string(h))); want == "" || !strings.Contains(page, want) {
			v.c.Fatalf("%s lacks the %s: %s", at, what, want)
		}
	}
	says("title", k.ChartTitle())
	says("caption", k.ChartCaption())
	says("overview", k.Overview())
	says("summary", k.Summary())
	var got, want [][][]string
	for _, which := range []string{"X", "Y"} {
		a := k.Axes()[which]
		says(which+" axis", template.HTML(which+" Axis: <span>"+a.Name()+"</span>"))
		says("summary of "+which, a.Summary())
		says("documentation of "+which, a.Documentation())
		for _, e := range a.Exhibits() {
			switch e := e.(type) {
			case *exhibit.Table:
				want = append(want, append([][]string{e.Columns()}, e.Rows()...))
			case *exhibit.List:
				list := [][]string{{string(e.Caption())}}
				for _, t := range e.Items() {
					list = append(list, []string{t})
				}
				want = append(want, list)
			}
		}
	}
	walk(doc, func(n *html.Node) bool {
		if matches(n, "table.exhibit-table") || matches(n, "table.exhibit-list") {
			got = append(got, cells(n))
		}
		return true
	})
	v.same(at, "exhibits", fmt.Sprintf("%q", got), fmt.Sprintf("%q", want))
}

func escape(s string) string { return url.PathEscape(s) }

const siteRule = "benchmark output of up to five handlers and five tests and verification output with summaries, links and warnings from both, texts, names and files containing characters that matter in HTML, " +
	"number formats of several languages; the server program is started with them, "

// view starts a server for a site and fetches all its pages.
func view(c *kit.C, s *site, then func(v *viewer)) {
	recs := 0
	for _, h := range s.handlers {
		recs += len(h.recs)
	}
	c.Case(len(s.fromBench()) > 1 && recs > 0, "%s", s)
	c.Class(len(s.texts) > 0, "text files")
	c.Class(len(s.langs) > 0, "language")
	c.Class(recs > 0, "warnings")
	c.Logf("%s", s)
	v := &viewer{c: c, s: s, links: map[string]string{}}
	v.truth()
	p, out := s.start()
	if p == nil {
		c.Fatalf("the server ends:\n%s", out)
	}
	v.p = p
	defer p.stop()
	then(v)
}

func (v *viewer) visits() (visits []func()) {
	s := v.s
	visit := func(f func()) { visits = append(visits, f) }
	visit(func() { v.home("/go-slog/") })
	visit(func() { v.home("/go-slog/index.html") })
	visit(func() { v.overview("/go-slog/warnings.html") })
	visit(func() { v.overview("/go-slog/warnings.html") })
	visit(func() { v.guts("/go-slog/guts.html") })
	for _, h := range s.handlers {
		if !h.stray && (len(h.results) > 0 || len(h.reported) > 0) {
			visit(func() { v.handler(h, "/go-slog/handler/"+escape(h.tag)+".html") })
		}
	}
	for _, tag := range append(append(s.benchTests(), s.warned("Verify")...), s.warned("Bench")...) {
		visit(func() { v.test(tag, "/go-slog/test/"+escape(tag)+".html") })
	}
	for _, k := range score.Keepers() {
		visit(func() { v.scores(k, "/go-slog/scores/"+escape(string(k))+"/summary.html") })
	}
	for _, name := range kit.SortedKeys(s.texts) {
		visit(func() { v.textPage(name, "/go-slog/text/"+name+"/display.html") })
	}
	return visits
}

func TestP01_Pages(t *testing.T) {
	kit.Check(t, 360, 6000, siteRule+"all its pages are fetched in random order and read as HTML, and every menu, link, result, score, warning and text compared; "+
		"non-trivial: two handlers with results and a warning", func(c *kit.C) {
		view(c, genSite(c), func(v *viewer) {
			visits := v.visits()
			for _, i := range rapid.Permutation(indices(len(visits))).Draw(c.T, "order") {
				visits[i]()
			}
		})
	})
}

func indices(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func TestP01_Links(t *testing.T) {
	kit.Check(t, 120, 2000, siteRule+"all its pages are fetched and every local link, script, style and picture found there is followed; "+
		"non-trivial: two handlers with results and a warning", func(c *kit.C) {
		view(c, genSite(c), func(v *viewer) {
			for _, f := range v.visits() {
				f()
			}
			v.follow()
		})
	})
}

// follow fetches everything linked.
func (v *viewer) follow() {
	for _, at := range kit.SortedKeys(v.links) {
		r, err := get(at)
		if err != nil || r.status != 200 || r.body == "" {
			v.c.Fatalf("%s, linked from %s, gives %v, status %d and %d bytes\n%s", at, v.links[at], err, r.status, len(r.body), v.p.tail())
		}
		if kind := map[string]string{".svg": "image/svg+xml", ".html": "text/html"}[path.Ext(at)]; !strings.HasPrefix(r.kind, kind) {
			v.c.Fatalf("%s has content type %s", at, r.kind)
		}
		switch path.Ext(at) {
		case ".html":
			v.title0(at, r.body)
		case ".svg":
			v.picture(at, r.body)
		}
	}
}

// picture makes sure that a picture is well-formed and made of the elements of charts only.
func (v *viewer) picture(at, body string) {
	dec := xml.NewDecoder(strings.NewReader(body))
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			return
		}
		if err != nil {
			v.c.Fatalf("%s is no well-formed picture: %v\n%s", at, err, body)
		}
		if e, ok := tok.(xml.StartElement); ok && at != "/go-slog/home.svg" {
			switch n := e.Name.Local; n {
			case "svg", "path", "text", "circle", "g", "style":
			default:
				v.c.Fatalf("%s has an element %s\n%s", at, n, body)
			}
		}
	}
}

// title0 makes sure that a page isn't an error page.
func (v *viewer) title0(at, body string) {
	if t := find(parse(v.c, at, body), "title"); t == nil || text(t) == "Error" {
		v.c.Fatalf("%s is an error page:\n%s", at, body)
	}
}
