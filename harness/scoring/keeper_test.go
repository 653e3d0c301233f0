package scoring

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"html/template"
	"io"
	"math"
	"net/http/httptest"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
	"github.com/madkins23/go-slog/cmd/server/chart"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// fakeAxis has any scores.
type fakeAxis struct {
	score.AxisCore
	name   string
	scores map[data.HandlerTag]score.Value
	err    error
	setups []*data.Benchmarks
	warns  []*data.Warnings
}

func (a *fakeAxis) Setup(b *data.Benchmarks, w *data.Warnings) error {
	a.setups, a.warns = append(a.setups, b), append(a.warns, w)
	return a.err
}
func (a *fakeAxis) Name() string                           { return a.name }
func (a *fakeAxis) HasTest(data.TestTag) bool              { return true }
func (a *fakeAxis) ScoreFor(h data.HandlerTag) score.Value { return a.scores[h] }
func (a *fakeAxis) Documentation() template.HTML           { return "" }
func (a *fakeAxis) ScoreForTest(h data.HandlerTag, _ data.TestTag) score.Value {
	return a.scores[h]
}
func (a *fakeAxis) ScoreForType(h data.HandlerTag, _ score.Type) score.Value {
	return a.scores[h]
}

// named is a set of handlers with names and their tests.
type named struct {
	names map[string]string
	tests map[string][]string
}

func (n named) String() string {
	var b strings.Builder
	for _, h := range kit.SortedKeys(n.names) {
		fmt.Fprintf(&b, "%s=%q %v; ", h, n.names[h], n.tests[h])
	}
	return b.String()
}

func genNamed(c *kit.C, max, crowd int) named {
	n := named{map[string]string{}, map[string][]string{}}
	pool := []string{"Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta", "Eta", "Theta"}
	nn := []string{"slog/JSONHandler", "phsym/zeroslog", "b", "A", "zz top", "Madkins flash", "10", "9", "ä", "x.y", "samber (zap)", "a<b>c", "Tom & Jerry", "\"q\" 'r'", "<i>", "&lt;i&gt;", "]]>"}
	handlers := rapid.IntRange(0, max).Draw(c.T, "handlers")
	names := rapid.Permutation(nn).Draw(c.T, "names")
	for i, h := range pool[:handlers] {
		n.names[h] = names[i]
		if rapid.IntRange(0, 3).Draw(c.T, "unnamed") == 0 {
			n.names[h] = ""
		}
		n.tests[h] = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"Simple", "BigGroup", "Logging", "KeyValues", "Xyz", "Z"}), 1, 4, rapid.ID[string]).Draw(c.T, "tests")
	}
	for i := min(kit.Size(c.T, "crowd", 40, 3, 7, 12, 25), crowd); i > 0; i-- {
		h := "Crowd" + string(rune('a'+i))
		if i%2 == 0 {
			n.names[h] = fmt.Sprint("crowd/", i)
		} else {
			n.names[h] = ""
		}
		n.tests[h] = []string{"Simple", "Crowd"}
	}
	return n
}

// name is the displayed name.
func (n named) name(h string) string {
	if n.names[h] != "" {
		return n.names[h]
	}
	return h
}

func (n named) parsed(f kit.Failer) *data.Benchmarks {
	var b strings.Builder
	for _, h := range kit.SortedKeys(n.tests) {
		if n.names[h] != "" {
			fmt.Fprintf(&b, "# Handler[%s]=\"%s\"\n", h, n.names[h])
		}
		for _, t := range n.tests[h] {
			fmt.Fprintf(&b, "Benchmark%s/Benchmark%s-8 \t 100 \t 12.5 ns/op\t 1 B/op\t 1 allocs/op\n", h, t)
		}
	}
	bench := data.NewBenchmarks()
	if err := bench.ParseBenchmarkData(strings.NewReader(b.String())); err != nil {
		f.Fatalf("VERIF-HARNESS-ERROR %v", err)
	}
	return bench
}

// warnings has some warnings of some of the handlers, of others and of tests.
func (n named) warnings(c *kit.C, b *data.Benchmarks, all bool) *data.Warnings {
	w := data.NewWarnings()
	var out bytes.Buffer
	for _, h := range append(kit.SortedKeys(n.tests), "Nobody") {
		if all || rapid.Bool().Draw(c.T, "has warnings") {
			mgr := warning.NewWarningManager(n.name(h), "Test", "")
			mgr.AddWarningFnText(&warning.Warning{Level: rapid.SampledFrom(warning.LevelOrder).Draw(c.T, "level"), Name: "W" + rapid.SampledFrom([]string{"1", "2", "3"}).Draw(c.T, "warning"), Summary: "about"}, "TestKeyValues", "", "")
			mgr.ShowWarnings(&out)
		}
	}
	if err := w.ParseWarningData(&out, "Bench", b.HandlerLookup()); err != nil {
		c.Fatalf("VERIF-HARNESS-ERROR %v", err)
	}
	return w
}

func TestS04_Keeper(t *testing.T) {
	kit.Check(t, 5000, 200000, "results of up to eight named handlers in any order, with or without warnings, and no filter or an include or exclude filter over some of the names, the tests and others; "+
		"set up twice with different results, with failing axes too; non-trivial: the filter keeps some handlers and drops some", func(c *kit.C) {
		x, y := &fakeAxis{name: "x"}, &fakeAxis{name: "y"}
		kind := rapid.SampledFrom([]string{"", "include", "exclude"}).Draw(c.T, "filter")
		var filter score.Filter
		listed := map[string]bool{}
		var items []any
		for _, s := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"slog/JSONHandler", "phsym/zeroslog", "b", "A", "10", "ä", "Alpha", "Beta", "Gamma", "x.y", "samber (zap)", "Simple", "Logging", "KeyValues"}), 0, 10, rapid.ID[string]).Draw(c.T, "listed") {
			listed[s] = true
			items = append(items, s)
			switch s {
			case "Simple", "Logging":
				listed["Bench."+s] = true
				items = append(items, "Bench."+s)
			case "KeyValues":
				listed["Bench."+s], listed["Key Values"] = true, true
				items = append(items, "Bench."+s, "Key Values")
			}
		}
		switch kind {
		case "include":
			filter = score.NewIncludeFilter(items...)
		case "exclude":
			filter = score.NewExcludeFilter(items...)
		}
		keeps := func(names ...string) bool {
			for _, n := range names {
				if listed[n] {
					return kind != "exclude"
				}
			}
			return kind != "include"
		}
		var options *score.KeeperOptions
		if rapid.Bool().Draw(c.T, "options") {
			text := rapid.SampledFrom([]template.HTML{"", "some text", "<b>bold</b>"})
			options = &score.KeeperOptions{Title: text.Draw(c.T, "title"), ChartCaption: text.Draw(c.T, "caption")}
		}
		k := score.NewKeeper("tag", x, y, "doc", options, filter)
		if options != nil && (options.Title != "" && k.ChartTitle() != options.Title || options.ChartCaption != "" && k.ChartCaption() != options.ChartCaption) {
			c.Fatalf("the keeper has the title %q and caption %q, expected %+v", k.ChartTitle(), k.ChartCaption(), options)
		}
		var kept, dropped int
		for i := rapid.IntRange(1, 2).Draw(c.T, "setups"); i > 0; i-- {
			n := genNamed(c, 8, 25)
			b := n.parsed(c)
			w := n.warnings(c, b, false)
			x.err, y.err = nil, nil
			switch rapid.IntRange(0, 7).Draw(c.T, "failure") {
			case 0:
				x.err = errors.New("x fails")
			case 1:
				y.err = errors.New("y fails")
			}
			x.setups, y.setups = nil, nil
			if err := k.Setup(b, w); x.err != nil || y.err != nil {
				if err == nil || !errors.Is(err, x.err) && x.err != nil || !errors.Is(err, y.err) && y.err != nil {
					c.Fatalf("an axis fails (%v, %v), setup returns %v", x.err, y.err, err)
				}
				continue
			} else if err != nil {
				c.Fatalf("setup fails: %v", err)
			}
			for _, a := range []*fakeAxis{x, y} {
				if len(a.setups) != 1 || a.setups[0] != b || a.warns[len(a.warns)-1] != w {
					c.Fatalf("axis %s was set up %d times", a.name, len(a.setups))
				}
			}
			var handlers []string
			tests := map[string]bool{}
			for h := range n.tests {
				if keeps(n.name(h)) {
					handlers = append(handlers, h)
					kept++
				} else {
					dropped++
				}
				for _, t := range n.tests[h] {
					if keeps("Bench."+t, t) {
						tests["Bench."+t] = true
					}
				}
			}
			sort.Slice(handlers, func(i, j int) bool { return n.name(handlers[i]) < n.name(handlers[j]) })
			if got := fmt.Sprint(k.HandlerTags()); got != fmt.Sprint(handlers) {
				c.Fatalf("filter %s %v keeps %s of the handlers %s, expected %s", kind, items, got, n, handlers)
			}
			if got := fmt.Sprint(k.TestTags()); got != fmt.Sprint(kit.SortedKeys(tests)) {
				c.Fatalf("filter %s %v keeps %s of the tests of %s, expected %s", kind, items, got, n, kit.SortedKeys(tests))
			}
		}
		c.Case(kept > 0 && dropped > 0, "%s %v", kind, items)
		c.Class(kind == "", "no filter")
		if k.X() != score.Axis(x) || k.Y() != score.Axis(y) || k.Axes()["X"] != score.Axis(x) || k.Axes()["Y"] != score.Axis(y) || k.Tag() != "tag" || k.Summary() != "doc" || k.ChartTitle() == "" || k.ChartCaption() == "" {
			c.Fatalf("the keeper lost something")
		}
	})
}

func TestS04_Registry(t *testing.T) {
	special := func(tag score.KeeperTag) bool { return strings.HasPrefix(string(tag), "+") }
	all := map[score.KeeperTag]*score.Keeper{}
	listed := func(c kit.Failer, own func(score.KeeperTag) bool) {
		tags := score.Keepers()
		if len(tags) != len(all) {
			c.Fatalf("the number of keepers listed is wrong")
		}
		n := 0
		for i, tag := range tags {
			if score.GetKeeper(tag) != all[tag] || all[tag] == nil {
				c.Fatalf("a keeper is listed but not known")
			}
			if own(tag) {
				n++
			}
			if i > 0 && (special(tags[i-1]) && !special(tag) || special(tags[i-1]) == special(tag) && tags[i-1] >= tag) {
				c.Fatalf("a keeper is listed in the wrong place: ...%q before ...%q", suffix(tags[i-1]), suffix(tag))
			}
		}
	}
	serial := 0
	kit.Check(t, 400, 4000, "keepers with special and other tags, empty ones too, some of them added twice, listed and looked up in between, among all those of the previous cases; "+
		"non-trivial: special and other tags were added, and one of them twice", func(c *kit.C) {
		if serial == 0 {
			for _, tag := range []score.KeeperTag{"", "+", "++", "-"} {
				all[tag] = score.NewKeeper(tag, &fakeAxis{}, &fakeAxis{}, "", nil, nil)
				if err := score.AddKeeper(all[tag]); err != nil {
					c.Fatalf("adding %q fails", tag)
				}
			}
		}
		serial++
		mark := fmt.Sprintf("%07d|", serial)
		var added []score.KeeperTag
		own := func(tag score.KeeperTag) bool { return strings.Contains(string(tag), mark) }
		var twice, specials, others bool
		type described struct {
			*score.Keeper
			doc template.HTML
		}
		var docs []described
		for i := rapid.IntRange(1, 8).Draw(c.T, "keepers"); i > 0; i-- {
			end := rapid.StringMatching(`[a-c+]{0,2}`).Draw(c.T, "tag")
			tag := score.KeeperTag(mark + end)
			if rapid.Bool().Draw(c.T, "special") {
				tag = "+" + tag
			}
			doc := template.HTML(fmt.Sprint(serial, ".", i))
			k := score.NewKeeper(tag, &fakeAxis{}, &fakeAxis{}, doc, nil, nil)
			err := score.AddKeeper(k)
			docs = append(docs, described{k, doc})
			if _, found := all[tag]; found {
				twice = true
				if err == nil {
					c.Fatalf("a keeper ...%q was added twice", end)
				}
			} else {
				if err != nil {
					c.Fatalf("adding a new keeper ...%q fails", end)
				}
				all[tag] = k
				added = append(added, tag)
				specials, others = specials || special(tag), others || !special(tag)
			}
			if score.GetKeeper(tag) != all[tag] {
				c.Fatalf("another keeper is found for ...%q", end)
			}
			if rapid.Bool().Draw(c.T, "list") {
				listed(c, own)
			}
		}
		listed(c, own)
		for _, d := range docs {
			if d.Summary() != d.doc {
				c.Fatalf("the documentation of ...%q changes", suffix(d.Tag()))
			}
		}
		if score.GetKeeper(score.KeeperTag(mark+"unknown")) != nil {
			c.Fatalf("an unknown keeper is found")
		}
		c.Case(twice && specials && others, "%d tags", len(added))
	})
}

func suffix(tag score.KeeperTag) string {
	s := string(tag)
	return s[strings.LastIndex(s, "|")+1:]
}

// ----------------------------------------------------------------------------

var lows = []float64{0, 25, 50, 75}

// shown tells whether the chart of the size shows a handler with the scores.
func shown(x, y score.Value, size int) bool {
	return float64(x) >= lows[size] && float64(y) >= lows[size]
}

func genScore(c *kit.C, label string) score.Value {
	switch rapid.IntRange(0, 9).Draw(c.T, label+" kind") {
	case 0:
		return score.Value(math.NaN())
	case 1, 2, 3:
		return score.Value(rapid.SampledFrom([]float64{0, 25, 50, 75, 100}).Draw(c.T, label))
	case 4:
		return score.Value(rapid.SampledFrom([]float64{0.000001, 24.9999, 25.0001, 49.9999, 74.9999, 75.0001, 99.9999}).Draw(c.T, label))
	case 5, 6:
		return score.Value(rapid.Float64Range(75, 100).Draw(c.T, label))
	}
	return score.Value(rapid.Float64Range(0, 100).Draw(c.T, label))
}

func genScores(c *kit.C, n named, x, y *fakeAxis) {
	x.scores, y.scores = map[data.HandlerTag]score.Value{}, map[data.HandlerTag]score.Value{}
	for _, h := range kit.SortedKeys(n.tests) {
		x.scores[data.HandlerTag(h)], y.scores[data.HandlerTag(h)] = genScore(c, "x"), genScore(c, "y")
	}
}

// svgElement is an element in a chart.
type svgElement struct {
	name  string
	attrs map[string]string
	text  string
}

func parseSVG(c kit.Failer, svg []byte) []svgElement {
	dec := xml.NewDecoder(bytes.NewReader(svg))
	var out []svgElement
	var open []int
	ended := false
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Fatalf("the chart is no XML: %v:\n%s", err, svg)
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			e := svgElement{name: tok.Name.Local, attrs: map[string]string{}}
			for _, a := range tok.Attr {
				e.attrs[a.Name.Local] = a.Value
			}
			open = append(open, len(out))
			out = append(out, e)
		case xml.EndElement:
			open = open[:len(open)-1]
			ended = len(open) == 0
		case xml.CharData:
			if len(open) > 0 {
				out[open[len(open)-1]].text += string(tok)
			}
		}
	}
	if !ended || len(out) == 0 || out[0].name != "svg" {
		c.Fatalf("the chart is no SVG:\n%s", svg)
	}
	return out
}

var number = regexp.MustCompile(`-?\d+(?:\.\d+)?`)

// points returns the points of a path.
func (e svgElement) points() [][2]float64 {
	var out [][2]float64
	n := number.FindAllString(e.attrs["d"], -1)
	for i := 0; i+1 < len(n); i += 2 {
		x, _ := strconv.ParseFloat(n[i], 64)
		y, _ := strconv.ParseFloat(n[i+1], 64)
		out = append(out, [2]float64{x, y})
	}
	return out
}

func serve(route, path string, fn gin.HandlerFunc) *httptest.ResponseRecorder {
	gin.SetMode(gin.ReleaseMode)
	engine := gin.New()
	engine.UseRawPath = true
	engine.GET(route, fn)
	rec := httptest.NewRecorder()
	engine.ServeHTTP(rec, httptest.NewRequest("GET", path, nil))
	return rec
}

func scoreChart(keeper, size string, w *data.Warnings) *httptest.ResponseRecorder {
	return serve("/s/:keeper/:size/chart.svg", "/s/"+url.PathEscape(keeper)+"/"+url.PathEscape(size)+"/chart.svg", func(g *gin.Context) { chart.Score(g, w) })
}

func resetCharts() {
	chart.CacheMutex.Lock()
	chart.Cache = map[string][]byte{}
	chart.CacheMutex.Unlock()
}

type dot struct {
	name string
	x, y float64
}

// checkScoreChart compares a chart with the scores it has to show: a dot for each handler, connected with its label.
func checkScoreChart(c kit.Failer, rec *httptest.ResponseRecorder, size int, want []dot, xName, yName string) {
	if rec.Code != 200 || !strings.HasPrefix(rec.Header().Get("Content-Type"), "image/svg+xml") {
		c.Fatalf("the chart has status %d, type %s", rec.Code, rec.Header().Get("Content-Type"))
	}
	els := parseSVG(c, rec.Body.Bytes())
	// The second path surrounds the area of the dots.
	var frame [][2]float64
	paths := 0
	for _, e := range els {
		if e.name == "path" {
			if paths++; paths == 2 {
				frame = e.points()
			}
		}
	}
	if len(frame) < 4 {
		c.Fatalf("VERIF-HARNESS-ERROR no frame in\n%s", rec.Body)
	}
	left, right, top, bottom := frame[0][0], frame[2][0], frame[0][1], frame[2][1]
	at := func(x, y float64) [2]float64 {
		low := lows[size]
		return [2]float64{left + (x-low)/(100-low)*(right-left), bottom - (y-low)/(100-low)*(bottom-top)}
	}
	near := func(p, q [2]float64) bool { return math.Abs(p[0]-q[0]) <= 2 && math.Abs(p[1]-q[1]) <= 2 }
	var dots, starts, ends [][2]float64
	var labels []string
	var last [][2]float64
	texts := map[string]int{}
	for _, e := range els {
		switch e.name {
		case "circle":
			x, _ := strconv.ParseFloat(e.attrs["cx"], 64)
			y, _ := strconv.ParseFloat(e.attrs["cy"], 64)
			dots = append(dots, [2]float64{x, y})
		case "path":
			last = e.points()
			if len(last) == 2 && last[1][0] > right+5 && last[0][0] <= right+1 {
				starts, ends = append(starts, last[0]), append(ends, last[1])
			}
		case "text":
			texts[e.text]++
			if len(last) == 6 && last[0][0] > right+5 {
				labels = append(labels, e.text)
				found := -1
				for i, end := range ends {
					if near(end, last[0]) && (found < 0 || math.Abs(ends[i][1]-last[0][1]) < math.Abs(ends[found][1]-last[0][1])) {
						found = i
					}
				}
				if found < 0 {
					c.Fatalf("the label %q at %v is not connected with a dot; lines to %v", e.text, last[0], ends)
				}
				ok := false
				for _, d := range want {
					ok = ok || d.name == e.text && near(at(d.x, d.y), starts[found])
				}
				if !ok {
					c.Fatalf("at size %d the label %q is connected with %v in the area %v, expected are %v", size, e.text, starts[found], frame, want)
				}
			}
			last = nil
		}
	}
	if len(dots) != len(want) {
		c.Fatalf("at size %d the chart has %d dots, expected are %v", size, len(dots), want)
	}
	var expected []string
	free := append([][2]float64{}, dots...)
	sorted := append([]dot{}, want...)
	sort.SliceStable(sorted, func(i, j int) bool {
		return sorted[i].y > sorted[j].y || sorted[i].y == sorted[j].y && sorted[i].x > sorted[j].x
	})
	for _, d := range sorted {
		expected = append(expected, d.name)
		best := -1
		for i, p := range free {
			if q := at(d.x, d.y); near(p, q) && (best < 0 || math.Hypot(p[0]-q[0], p[1]-q[1]) < math.Hypot(free[best][0]-q[0], free[best][1]-q[1])) {
				best = i
			}
		}
		if best < 0 {
			c.Fatalf("at size %d there is no dot for %v at %v, there are %v", size, d, at(d.x, d.y), dots)
		}
		free = append(free[:best], free[best+1:]...)
	}
	sort.Strings(expected)
	sort.Strings(labels)
	if strings.Join(labels, "|") != strings.Join(expected, "|") {
		c.Fatalf("at size %d the labels are %q, expected %q", size, labels, expected)
	}
	for i, name := range []string{"3/4", "Half", "Quarter"} {
		if (texts[name] > 0) != (i+1 > size) {
			c.Fatalf("at size %d the marker %s is shown %d times", size, name, texts[name])
		}
	}
	for _, l := range []string{strconv.Itoa(int(lows[size])), "100", xName, yName} {
		if l != "" && texts[l] == 0 {
			c.Fatalf("at size %d %q is not shown", size, l)
		}
	}
}

func wanted(k *score.Keeper, size int, name func(data.HandlerTag) string) []dot {
	var want []dot
	for _, h := range k.HandlerTags() {
		if x, y := k.X().ScoreFor(h), k.Y().ScoreFor(h); shown(x, y, size) {
			want = append(want, dot{name(h), float64(x), float64(y)})
		}
	}
	return want
}

func checkSmallest(c kit.Failer, k *score.Keeper, n fmt.Stringer) {
	smallest := 0
	for size := range lows {
		all := true
		for _, h := range k.HandlerTags() {
			x, y := k.X().ScoreFor(h), k.Y().ScoreFor(h)
			all = all && (float64(x) < lows[size] || float64(y) < lows[size]) == false
		}
		if all {
			smallest = size
		}
	}
	if got := chart.SmallestChartSize(k); int(got) != smallest {
		var s []string
		for _, h := range k.HandlerTags() {
			s = append(s, fmt.Sprint(k.X().ScoreFor(h), " ", k.Y().ScoreFor(h)))
		}
		c.Fatalf("the smallest size of a chart of %q is %d, expected %d", s, got, smallest)
	}
}

func TestS04_ScoreChart(t *testing.T) {
	x, y := &fakeAxis{name: "across"}, &fakeAxis{name: "upwards"}
	k := score.NewKeeper("+chart test", x, y, "", nil, nil)
	if err := score.AddKeeper(k); err != nil {
		panic("VERIF-HARNESS-ERROR " + err.Error())
	}
	kit.Check(t, 600, 10000, "up to eight handlers with any scores, on the bounds of the sizes too, or without a score, and one chart of any size, valid or not, twice from the cache and once drawn again: "+
		"a dot for each handler in range connected with its label; an unknown keeper; the smallest size of the chart; non-trivial: the chart shows some handlers and not others", func(c *kit.C) {
		n := genNamed(c, 8, 7) // Many more labels don't fit.
		genScores(c, n, x, y)
		b := n.parsed(c)
		w := n.warnings(c, b, true)
		if err := k.Setup(b, w); err != nil {
			c.Fatalf("setup fails: %v", err)
		}
		sizeText := rapid.SampledFrom([]string{"0", "1", "2", "3", "0", "1", "2", "3", "-1", "4", "99", "x", "1.5"}).Draw(c.T, "size")
		size, err := strconv.Atoi(sizeText)
		size = int(math.Min(3, math.Max(0, float64(size))))
		if err != nil {
			size = 0
		}
		want := wanted(k, size, func(h data.HandlerTag) string { return n.name(string(h)) })
		c.Case(len(want) > 0 && len(want) < len(n.tests), "size %s: %s x %v y %v", sizeText, n, x.scores, y.scores)
		c.Class(len(want) == 0, "empty chart")
		checkSmallest(c, k, n)
		resetCharts()
		first := scoreChart("+chart test", sizeText, w)
		checkScoreChart(c, first, size, want, "across", "upwards")
		cached := scoreChart("+chart test", sizeText, w)
		resetCharts()
		again := scoreChart("+chart test", sizeText, w)
		if cached.Code != 200 || again.Code != 200 || cached.Body.String() != first.Body.String() || again.Body.String() != first.Body.String() {
			c.Fatalf("the same chart is different when served again")
		}
		other := rapid.IntRange(0, 3).Draw(c.T, "other size")
		checkScoreChart(c, scoreChart("+chart test", strconv.Itoa(other), w), other, wanted(k, other, func(h data.HandlerTag) string { return n.name(string(h)) }), "across", "upwards")
		if rec := scoreChart("unknown", sizeText, w); rec.Code < 400 || rec.Code > 499 {
			c.Fatalf("the chart of an unknown keeper has status %d", rec.Code)
		}
	})
}

var itemValues = map[string]func(r [5]float64) float64{
	"Runs": func(r [5]float64) float64 { return r[0] }, "Nanos": func(r [5]float64) float64 { return r[1] },
	"MemBytes": func(r [5]float64) float64 { return r[2] }, "MemAllocs": func(r [5]float64) float64 { return r[3] },
	"MbPerSec": func(r [5]float64) float64 { return r[4] }, "GbPerSec": func(r [5]float64) float64 { return r[4] / 1e3 }, "TbPerSec": func(r [5]float64) float64 { return r[4] / 1e6 },
}

func TestS04_BarChart(t *testing.T) {
	kit.Check(t, 1000, 40000, "results of up to eight named handlers with any numbers, and the bar chart of any test or handler for any item, twice: all names in order, each with a bar of a length linear in its number; "+
		"unknown tags and items; non-trivial: at least two numbers differ by one or more", func(c *kit.C) {
		n := genNamed(c, 8, 25)
		nums := map[string]map[string][5]float64{}
		var b strings.Builder
		big := rapid.SampledFrom([]int{1, 100, 1000000, 1000000000}).Draw(c.T, "largest number")
		for _, h := range kit.SortedKeys(n.tests) {
			if n.names[h] != "" {
				fmt.Fprintf(&b, "# Handler[%s]=\"%s\"\n", h, n.names[h])
			}
			nums[h] = map[string][5]float64{}
			for _, t := range n.tests[h] {
				var r [5]float64
				for i := range r {
					r[i] = float64(rapid.IntRange(0, big).Draw(c.T, "number"))
				}
				nums[h][t] = r
				fmt.Fprintf(&b, "Benchmark%s/Benchmark%s-8 \t %.0f \t %.0f ns/op\t %.0f MB/s\t %.0f B/op\t %.0f allocs/op\n", h, t, r[0], r[1], r[4], r[2], r[3])
			}
		}
		bench := data.NewBenchmarks()
		if err := bench.ParseBenchmarkData(strings.NewReader(b.String())); err != nil {
			c.Fatalf("VERIF-HARNESS-ERROR %v", err)
		}
		request := func(tag, item string) *httptest.ResponseRecorder {
			return serve("/b/:tag/:item", "/b/"+url.PathEscape(tag)+"/"+url.PathEscape(item), func(g *gin.Context) { chart.Bar(g, bench) })
		}
		item := rapid.SampledFrom(kit.SortedKeys(itemValues)).Draw(c.T, "item")
		resetCharts()
		for _, bad := range [][2]string{{"Unknown", "Nanos.svg"}, {"Bench.Unknown", "Runs"}, {"Bench.Simple", "Unknown.svg"}, {"", "Nanos"}} {
			if rec := request(bad[0], bad[1]); rec.Code < 400 || rec.Code > 499 {
				c.Fatalf("the chart of %q for %q has status %d", bad[0], bad[1], rec.Code)
			}
		}
		if len(nums) == 0 {
			return
		}
		type bar struct {
			name  string
			value float64
		}
		var want []bar
		var tag string
		if rapid.Bool().Draw(c.T, "of a test") {
			t := rapid.SampledFrom(n.tests[rapid.SampledFrom(kit.SortedKeys(n.tests)).Draw(c.T, "handler")]).Draw(c.T, "test")
			tag = "Bench." + t
			for h := range nums {
				if r, found := nums[h][t]; found {
					want = append(want, bar{n.name(h), itemValues[item](r)})
				}
			}
		} else {
			h := rapid.SampledFrom(kit.SortedKeys(n.tests)).Draw(c.T, "handler")
			tag = h
			for t, r := range nums[h] {
				name := t
				if t == "BigGroup" || t == "KeyValues" {
					name = t[:3] + " " + t[3:]
				}
				want = append(want, bar{name, itemValues[item](r)})
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i].name < want[j].name })
		low, high := math.Inf(1), math.Inf(-1)
		for _, w := range want {
			low, high = math.Min(low, w.value), math.Max(high, w.value)
		}
		c.Case(high-low >= 1, "%s of %s: %v", item, tag, want)
		rec := request(tag, item+".svg")
		if rec.Code != 200 || !strings.HasPrefix(rec.Header().Get("Content-Type"), "image/svg+xml") {
			c.Fatalf("the chart of %s for %s has status %d, type %s", tag, item, rec.Code, rec.Header().Get("Content-Type"))
		}
		var texts []string
		var bars [][2]float64 // height, length
		for _, e := range parseSVG(c, rec.Body.Bytes()) {
			p := e.points()
			if e.name == "text" {
				texts = append(texts, e.text)
			} else if e.name == "path" && len(p) == 5 && p[0] == p[4] && p[0] != [2]float64{0, 0} {
				bars = append(bars, [2]float64{p[0][1], p[1][0] - p[0][0]})
			}
		}
		if len(texts) < 1+len(want) || texts[0] != data.BenchItems(indexOf(item)).LongName() {
			c.Fatalf("the chart of %s for %s has the texts %q", tag, item, texts)
		}
		for i, w := range want {
			if texts[1+i] != w.name {
				c.Fatalf("the chart of %s for %s has the texts %q, expected %v", tag, item, texts, want)
			}
		}
		if len(bars) != len(want) {
			c.Fatalf("the chart of %s for %s has %d bars, expected %v", tag, item, len(bars), want)
		}
		sort.Slice(bars, func(i, j int) bool { return bars[i][0] < bars[j][0] })
		if high-low >= 1 { // The library does not show smaller differences.
			var least, most float64
			for i, w := range want {
				if w.value == low {
					least = bars[i][1]
				}
				if w.value == high {
					most = bars[i][1]
				}
			}
			if most < least || most-least < 5 && high-low > high/5 {
				c.Fatalf("the chart of %s for %s shows %v as %v", tag, item, want, bars)
			}
			for i, w := range want {
				if e := least + (w.value-low)/(high-low)*(most-least); math.Abs(e-bars[i][1]) > 2.5 {
					c.Fatalf("the chart of %s for %s shows %v as %v", tag, item, want, bars)
				}
			}
		}
		if again := request(tag, item+".svg"); again.Code != 200 || again.Body.String() != rec.Body.String() {
			c.Fatalf("the same chart is different when served again")
		}
		resetCharts()
		if again := request(tag, item); again.Code != 200 || again.Body.String() != rec.Body.String() {
			c.Fatalf("the same chart is different when drawn again")
		}
	})
}

func indexOf(item string) int {
	for i, s := range data.BenchItemsStrings() {
		if s == item {
			return i
		}
	}
	return -1
}

func TestS04_Real(t *testing.T) {
	ready := false
	kit.Check(t, 150, 800, "the keepers of the server set up with generated results and warnings of real handlers and others, each with its charts of all sizes compared with the scores of its axes; "+
		"non-trivial: a chart shows a handler", func(c *kit.C) {
		r, _, _ := genResults(c)
		names := map[string]string{}
		pool := rapid.Permutation([]string{"slog/JSONHandler", "madkins/replattr", "madkins/flash", "phsym/zeroslog", "snqk/meld", "veqryn/slog-dedup Append", "Other"}).Draw(c.T, "names")
		var text strings.Builder
		for i, h := range kit.SortedKeys(r) {
			if i >= 12 {
				delete(r, h) // Many more labels don't fit.
				continue
			}
			if i >= len(pool) {
				pool = append(pool, fmt.Sprint("crowd/", i))
			}
			names[h] = pool[i]
			fmt.Fprintf(&text, "# Handler[%s]=\"%s\"\n", h, pool[i])
			for _, t := range kit.SortedKeys(r[h]) {
				fmt.Fprintf(&text, "Benchmark%s/Benchmark%s-8 \t 100 \t %s ns/op\t %.0f B/op\t %.0f allocs/op\n", h, t, strconv.FormatFloat(r[h][t][0], 'f', -1, 64), r[h][t][1], r[h][t][2])
			}
		}
		b := data.NewBenchmarks()
		if err := b.ParseBenchmarkData(strings.NewReader(text.String())); err != nil {
			c.Fatalf("VERIF-HARNESS-ERROR %v", err)
		}
		n := named{names, map[string][]string{}}
		for h := range r {
			n.tests[h] = kit.SortedKeys(r[h])
		}
		w := n.warnings(c, b, false)
		if !ready {
			if err := scoring.Setup(data.NewBenchmarks(), data.NewWarnings()); err != nil {
				c.Fatalf("setup fails: %v", err)
			}
			ready = true
		}
		resetCharts()
		some := false
		for _, tag := range score.Keepers() {
			k := score.GetKeeper(tag)
			if err := k.Setup(b, w); err != nil {
				c.Fatalf("setup of %s fails: %v", tag, err)
			}
			checkSmallest(c, k, n)
			for size := range lows {
				want := wanted(k, size, w.HandlerName)
				some = some || len(want) > 0
				checkScoreChart(c, scoreChart(string(tag), strconv.Itoa(size), w), size, want, k.X().Name(), k.Y().Name())
			}
		}
		c.Case(some, "%s", text.String())
	})
}
