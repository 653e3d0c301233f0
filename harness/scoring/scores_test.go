package scoring

import (
	"bytes"
	"fmt"
	"io"
	"log/slog"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis"
	"github.com/madkins23/go-slog/internal/scoring/axis/bench"
	"github.com/madkins23/go-slog/internal/scoring/exhibit"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	// The scores log their comparisons.
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	os.Exit(m.Run())
}

// cell is one benchmark result: nanoseconds, bytes and allocations.
type cell [3]float64

var cellWeights = []bench.Weight{bench.Nanoseconds, bench.AllocBytes, bench.Allocations}

// results of handlers by test
type results map[string]map[string]cell

func (r results) clone() results {
	n := results{}
	for h, m := range r {
		n[h] = map[string]cell{}
		for t, c := range m {
			n[h][t] = c
		}
	}
	return n
}

func (r results) String() string {
	var b strings.Builder
	for _, h := range kit.SortedKeys(r) {
		for _, t := range kit.SortedKeys(r[h]) {
			fmt.Fprintf(&b, "%s/%s: %v ns %v B %v allocs\n", h, t, r[h][t][0], r[h][t][1], r[h][t][2])
		}
	}
	return b.String()
}

// parsed has the lines parsed, in the order given by the permutation of the sorted lines.
func (r results) parsed(f kit.Failer, order func(lines []string) []string) *data.Benchmarks {
	var lines []string
	for _, h := range kit.SortedKeys(r) {
		for _, t := range kit.SortedKeys(r[h]) {
			c := r[h][t]
			lines = append(lines, fmt.Sprintf("Benchmark%s/Benchmark%s-8 \t 100 \t %s ns/op\t %.0f B/op\t %.0f allocs/op\n", h, t, strconv.FormatFloat(c[0], 'f', -1, 64), c[1], c[2]))
		}
	}
	if order != nil {
		lines = order(lines)
	}
	b := data.NewBenchmarks()
	if err := b.ParseBenchmarkData(strings.NewReader(strings.Join(lines, ""))); err != nil {
		f.Fatalf("VERIF-HARNESS-ERROR %v", err)
	}
	n := 0
	for _, h := range b.HandlerTags() {
		n += len(b.TestRecordsFor(h))
	}
	if n != len(lines) {
		f.Fatalf("VERIF-HARNESS-ERROR %d results of %d", n, len(lines))
	}
	return b
}

type selection struct {
	include, exclude []data.TestTag
	weights          map[bench.Weight]uint
}

func (s selection) has(t string) bool {
	tag := data.TestTag("Bench." + t)
	for _, x := range s.exclude {
		if x == tag {
			return false
		}
	}
	if s.include == nil {
		return true
	}
	for _, x := range s.include {
		if x == tag {
			return true
		}
	}
	return false
}

type modelScore struct {
	byType map[score.Type]float64
	byTest map[string]float64
}

// model computes the scores directly from their definition.
func (s selection) model(r results) map[string]modelScore {
	type span struct{ low, high float64 }
	spans := map[string][3]span{}
	for _, m := range r {
		for t, c := range m {
			sp, ok := spans[t]
			for i := range c {
				if !ok {
					sp[i] = span{c[i], c[i]}
				}
				sp[i].low, sp[i].high = math.Min(sp[i].low, c[i]), math.Max(sp[i].high, c[i])
			}
			spans[t] = sp
		}
	}
	out := map[string]modelScore{}
	for h, m := range r {
		ms := modelScore{byType: map[score.Type]float64{}, byTest: map[string]float64{}}
		var tests, testSum float64
		var perData, perDataN [3]float64
		any := false
		for _, t := range kit.SortedKeys(m) {
			if !s.has(t) {
				continue
			}
			any = true
			var sum, weight float64
			for i, w := range cellWeights {
				sp := spans[t][i]
				if sp.high == sp.low {
					continue
				}
				v := 100 * (sp.high - m[t][i]) / (sp.high - sp.low)
				sum += v * float64(s.weights[w])
				weight += float64(s.weights[w])
				perData[i] += v
				perDataN[i]++
			}
			if weight > 0 {
				ms.byTest[t] = sum / weight
				testSum += sum / weight
				tests++
			}
		}
		byTest, byData := math.NaN(), math.NaN()
		if any {
			byTest, byData = 100, 100
		}
		if tests > 0 {
			byTest = testSum / tests
			var sum, weight float64
			for i, w := range cellWeights {
				if perDataN[i] > 0 {
					sum += perData[i] / perDataN[i] * float64(s.weights[w])
					weight += float64(s.weights[w])
				}
			}
			byData = sum / weight
		}
		ms.byType[score.ByTest], ms.byType[score.Original], ms.byType[score.ByData] = byTest, byTest, byData
		ms.byType[score.Default] = (byTest + byData) / 2
		out[h] = ms
	}
	return out
}

func same(got score.Value, want float64) bool {
	g := float64(got)
	if math.IsNaN(want) || math.IsNaN(g) {
		return math.IsNaN(want) && math.IsNaN(g)
	}
	return math.Abs(g-want) < 1e-6
}

var scoreTypes = []score.Type{score.Default, score.ByData, score.ByTest, score.Original}

func genResults(c *kit.C) (results, []string, []string) {
	handlers := []string{"Alpha", "Beta", "Gamma", "Delta", "Eps", "Zeta"}[:rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4, 5, 6}).Draw(c.T, "handlers")]
	tests := []string{"Simple", "BigGroup", "Logging", "KeyValues", "X"}[:rapid.IntRange(1, 5).Draw(c.T, "tests")]
	crowd := kit.Size(c.T, "crowd", 60, 4, 8, 16, 40)
	if rapid.Bool().Draw(c.T, "crowd of tests") {
		tests = append([]string{}, tests...)
		for i := 0; i < crowd; i++ {
			tests = append(tests, fmt.Sprint("Crowd", i))
		}
	} else {
		handlers = append([]string{}, handlers...)
		for i := 0; i < crowd; i++ {
			handlers = append(handlers, fmt.Sprint("Crowd", i))
		}
	}
	r := results{}
	wild := rapid.IntRange(0, 2).Draw(c.T, "values")
	number := func(label string) float64 {
		switch wild {
		case 0: // many ties
			return float64(rapid.IntRange(0, 3).Draw(c.T, label))
		case 1:
			return float64(rapid.IntRange(0, 3000).Draw(c.T, label))
		}
		return math.Floor(math.Pow(10, rapid.Float64Range(0, 12).Draw(c.T, label)))
	}
	missing := rapid.IntRange(0, 4).Draw(c.T, "missing")
	for _, h := range handlers {
		r[h] = map[string]cell{}
		for _, t := range tests {
			if missing > 0 && rapid.IntRange(0, missing+2).Draw(c.T, "missing result") == 0 {
				continue
			}
			ns := number("ns")
			if wild > 0 && rapid.Bool().Draw(c.T, "fraction") {
				ns += float64(rapid.IntRange(0, 99).Draw(c.T, "hundredths")) / 100
			}
			r[h][t] = cell{ns, number("bytes"), number("allocs")}
		}
		if len(r[h]) == 0 {
			delete(r, h)
		}
	}
	return r, handlers, tests
}

func genSelection(c *kit.C) selection {
	s := selection{weights: map[bench.Weight]uint{}}
	all := []data.TestTag{"Bench.Simple", "Bench.BigGroup", "Bench.Logging", "Bench.KeyValues", "Bench.X", "Bench.Unknown"}
	if rapid.IntRange(0, 2).Draw(c.T, "includes") == 0 {
		s.include = rapid.SliceOfNDistinct(rapid.SampledFrom(all), 0, 6, rapid.ID).Draw(c.T, "include")
	}
	if rapid.IntRange(0, 2).Draw(c.T, "excludes") == 0 {
		s.exclude = rapid.SliceOfNDistinct(rapid.SampledFrom(all), 0, 3, rapid.ID).Draw(c.T, "exclude")
	}
	first := rapid.SampledFrom(cellWeights).Draw(c.T, "weighted")
	for _, w := range cellWeights {
		n := uint(rapid.IntRange(0, 5).Draw(c.T, "weight"))
		if w == first {
			n++
		}
		if n > 0 || rapid.Bool().Draw(c.T, "explicit") {
			s.weights[w] = n
		}
	}
	return s
}

func (s selection) axis() *axis.Benchmarks {
	return axis.NewBenchmarks(s.weights, "", &axis.BenchOptions{IncludeTests: s.include, ExcludeTests: s.exclude}).(*axis.Benchmarks)
}

func (s selection) check(c kit.Failer, a *axis.Benchmarks, r results, tests []string, when string) {
	model := s.model(r)
	has := map[string]bool{}
	for _, h := range kit.SortedKeys(model) {
		tag := data.HandlerTag(h)
		for _, st := range scoreTypes {
			got := a.ScoreForType(tag, st)
			if !same(got, model[h].byType[st]) {
				c.Fatalf("%s: the %s score of %s is %v, expected %v, of\n%swith weights %v, included %v, excluded %v", when, st, h, got, model[h].byType[st], r, s.weights, s.include, s.exclude)
			}
			if got < -1e-9 || got > 100+1e-9 {
				c.Fatalf("%s: the %s score of %s is %v", when, st, h, got)
			}
		}
		if got := a.ScoreFor(tag); got != a.ScoreForType(tag, score.Default) && got == got {
			c.Fatalf("%s: the score of %s is %v, not the default score", when, h, got)
		}
		for _, t := range tests {
			want, ok := model[h].byTest[t]
			if !ok {
				want = math.NaN()
			} else {
				has[t] = true
			}
			if got := a.ScoreForTest(tag, data.TestTag("Bench."+t)); !same(got, want) {
				c.Fatalf("%s: the score of %s for %s is %v, expected %v, of\n%swith weights %v", when, h, t, got, want, r, s.weights)
			}
		}
	}
	for _, t := range append([]string{"Unknown"}, tests...) {
		if got := a.HasTest(data.TestTag("Bench." + t)); got != has[t] {
			c.Fatalf("%s: HasTest(%s) is %v", when, t, got)
		}
	}
}

func TestS01_Model(t *testing.T) {
	kit.Check(t, 6000, 250000, "results of one to six handlers in up to five tests, some missing, with many equal or very different numbers, any weights and selections of tests, compared with scores computed from "+
		"their definition, in any line order, after scoring other results with the same axis, twice, and with handlers renamed; non-trivial: two handlers differ in an included test", func(c *kit.C) {
		r, handlers, tests := genResults(c)
		s := genSelection(c)
		model := s.model(r)
		nt, ties := false, false
		for _, m := range model {
			nt = nt || len(m.byTest) > 0
			ties = ties || (m.byType[score.Default] == 100 && len(m.byTest) == 0)
		}
		c.Case(nt, "%sweights %v included %v excluded %v", r, s.weights, s.include, s.exclude)
		c.Class(ties, "nothing to compare")
		c.Class(s.include != nil, "included tests")
		a := s.axis()
		if rapid.Bool().Draw(c.T, "used before") {
			other, _, _ := genResults(c)
			if err := a.Setup(other.parsed(c, nil), nil); err != nil {
				c.Fatalf("setup fails: %v", err)
			}
		}
		b := r.parsed(c, func(lines []string) []string {
			if len(lines) == 0 {
				return lines
			}
			return rapid.Permutation(lines).Draw(c.T, "order")
		})
		if err := a.Setup(b, nil); err != nil {
			c.Fatalf("setup fails: %v", err)
		}
		s.check(c, a, r, tests, "first")
		if err := a.Setup(b, nil); err != nil {
			c.Fatalf("setup fails: %v", err)
		}
		s.check(c, a, r, tests, "again")
		var rows []string
		for _, w := range cellWeights {
			if n, found := s.weights[w]; found {
				rows = append(rows, fmt.Sprintf("[%s %d]", w, n))
			}
		}
		lists := []string{fmt.Sprintf("table [Data Weight] %v", rows)}
		for caption, tags := range map[string][]data.TestTag{"Included": s.include, "Excluded": s.exclude} {
			if tags != nil {
				var names []string
				for _, t := range tags {
					names = append(names, t.Name())
				}
				lists = append(lists, fmt.Sprintf("list true %s %v", caption, names))
			}
		}
		sameExhibits(c, a.Exhibits(), lists)
		// Renamed handlers keep their scores.
		names := rapid.Permutation(handlers).Draw(c.T, "names")
		renamed := results{}
		for i, h := range handlers {
			if r[h] != nil {
				renamed["R"+names[i]] = r[h]
			}
		}
		a2 := s.axis()
		if err := a2.Setup(renamed.parsed(c, nil), nil); err != nil {
			c.Fatalf("setup fails: %v", err)
		}
		for i, h := range handlers {
			for _, st := range scoreTypes {
				if r[h] != nil && !same(a2.ScoreForType(data.HandlerTag("R"+names[i]), st), float64(a.ScoreForType(data.HandlerTag(h), st))) {
					c.Fatalf("renaming changes the %s score of %s from %v to %v", st, h, a.ScoreForType(data.HandlerTag(h), st), a2.ScoreForType(data.HandlerTag("R"+names[i]), st))
				}
			}
		}
	})
}

func count(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sameExhibits compares what is shown of the axis.
func sameExhibits(c kit.Failer, exhibits []score.Exhibit, want []string) {
	var got []string
	for _, e := range exhibits {
		switch e := e.(type) {
		case *exhibit.Table:
			got = append(got, fmt.Sprintf("table %v %v", e.Columns(), e.Rows()))
		case *exhibit.List:
			got = append(got, fmt.Sprintf("list %v %s %v", e.HasCaption(), e.Caption(), e.Items()))
		default:
			got = append(got, fmt.Sprintf("%T", e))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		c.Fatalf("the exhibits are\n%q\nexpected\n%q", got, want)
	}
}

// TestS01_Relations needs no model of the scores.
func TestS01_Relations(t *testing.T) {
	kit.Check(t, 5000, 200000, "results as before with a chosen best and a chosen worst handler, which must get 100 and 0; then one number of one handler improves within the range of the others, which must not lower "+
		"any of its scores; then results of excluded tests change, which must not change anything; non-trivial: a number improves and scores are known", func(c *kit.C) {
		r, _, tests := genResults(c)
		s := genSelection(c)
		hs := kit.SortedKeys(r)
		if len(hs) == 0 {
			return
		}
		setup := func(r results) *axis.Benchmarks {
			a := s.axis()
			if err := a.Setup(r.parsed(c, nil), nil); err != nil {
				c.Fatalf("setup fails: %v", err)
			}
			return a
		}
		// The best and the worst
		bw := r.clone()
		bw["Best"], bw["Worst"] = map[string]cell{}, map[string]cell{}
		included := 0
		for _, t := range tests {
			best, worst, found := cell{}, cell{}, false
			for _, h := range hs {
				if cl, ok := r[h][t]; ok {
					for i := range cl {
						if !found || cl[i] < best[i] {
							best[i] = cl[i]
						}
						if !found || cl[i] > worst[i] {
							worst[i] = cl[i]
						}
					}
					found = true
				}
			}
			margin := float64(rapid.IntRange(0, 2).Draw(c.T, "margin"))
			for i := range best {
				if best[i] >= margin && rapid.Bool().Draw(c.T, "better") {
					best[i] -= margin
				}
				if best[i] == worst[i] || rapid.Bool().Draw(c.T, "worse") {
					worst[i] += margin + 1
				}
			}
			bw["Best"][t], bw["Worst"][t] = best, worst
			if s.has(t) {
				included++
			}
		}
		a := setup(bw)
		for _, st := range scoreTypes {
			b, w := a.ScoreForType("Best", st), a.ScoreForType("Worst", st)
			if included > 0 && (!same(b, 100) || !same(w, 0)) {
				c.Fatalf("the best %s score is %v, the worst %v, of\n%swith weights %v, included %v, excluded %v", st, b, w, bw, s.weights, s.include, s.exclude)
			}
			if included == 0 && (b == b || w == w) {
				c.Fatalf("no test is included, the %s scores are %v and %v", st, b, w)
			}
		}
		for _, t := range tests {
			b, w := a.ScoreForTest("Best", data.TestTag("Bench."+t)), a.ScoreForTest("Worst", data.TestTag("Bench."+t))
			if s.has(t) && (!same(b, 100) || !same(w, 0)) {
				c.Fatalf("the best score for %s is %v, the worst %v, of\n%swith weights %v", t, b, w, bw, s.weights)
			}
		}
		// An improvement
		before := setup(r)
		h := rapid.SampledFrom(hs).Draw(c.T, "handler")
		test := rapid.SampledFrom(kit.SortedKeys(r[h])).Draw(c.T, "test")
		i := rapid.IntRange(0, 2).Draw(c.T, "number")
		low, high, others := math.Inf(1), math.Inf(-1), 0
		for _, o := range hs {
			if cl, ok := r[o][test]; ok && o != h {
				low, high = math.Min(low, cl[i]), math.Max(high, cl[i])
				others++
			}
		}
		improved := false
		if others > 0 && r[h][test][i] > low {
			top := math.Min(high, r[h][test][i])
			to := low
			switch rapid.IntRange(0, 2).Draw(c.T, "to") {
			case 1:
				to = top
			case 2:
				to = math.Max(low, math.Min(top, math.Floor(low+(top-low)*rapid.Float64Range(0, 1).Draw(c.T, "part"))))
			}
			better := r.clone()
			cl := better[h][test]
			cl[i] = to
			better[h][test] = cl
			improved = to < r[h][test][i]
			after := setup(better)
			for _, st := range scoreTypes {
				x, y := before.ScoreForType(data.HandlerTag(h), st), after.ScoreForType(data.HandlerTag(h), st)
				if y < x-1e-6 || (x != x) != (y != y) {
					c.Fatalf("%s improves in %s from %v to %v, its %s score goes from %v to %v:\n%swith weights %v, included %v, excluded %v", h, test, r[h][test], cl, st, x, y, r, s.weights, s.include, s.exclude)
				}
			}
		}
		// Other tests
		changed := r.clone()
		for _, h := range hs {
			for _, t := range tests {
				if !s.has(t) && rapid.Bool().Draw(c.T, "change") {
					changed[h][t] = cell{float64(rapid.IntRange(0, 5000).Draw(c.T, "ns")), 1, 2}
				}
			}
		}
		after := setup(changed)
		for _, h := range hs {
			for _, st := range scoreTypes {
				x, y := before.ScoreForType(data.HandlerTag(h), st), after.ScoreForType(data.HandlerTag(h), st)
				if !same(x, float64(y)) {
					c.Fatalf("the %s score of %s goes from %v to %v when tests change that are not included", st, h, x, y)
				}
			}
		}
		c.Class(included > 0, "best and worst")
		c.Case(improved && included > 0, "%s: %s improves in %s", r, h, test)
	})
}

// ----------------------------------------------------------------------------

// warns by handler, level and name
type found map[string]map[warning.Level]map[string]int

func (f found) String() string {
	var b strings.Builder
	for _, h := range kit.SortedKeys(f) {
		fmt.Fprintf(&b, "%s:", h)
		for _, l := range warning.LevelOrder {
			for _, n := range kit.SortedKeys(f[h][l]) {
				fmt.Fprintf(&b, " %s:%s*%d", l, n, f[h][l][n])
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

func (f found) parsed(c kit.Failer, sources int) *data.Warnings {
	w := data.NewWarnings()
	for src := 0; src < sources; src++ {
		var out bytes.Buffer
		for _, h := range kit.SortedKeys(f) {
			mgr := warning.NewWarningManager(h, "Test", "")
			for _, l := range warning.LevelOrder {
				for _, n := range kit.SortedKeys(f[h][l]) {
					for i := 0; i < f[h][l][n]; i++ {
						if i%sources == src {
							mgr.AddWarningFnText(&warning.Warning{Level: l, Name: n, Summary: "about " + n}, fmt.Sprintf("Test%d", i), "", "")
						}
					}
				}
			}
			mgr.ShowWarnings(&out)
		}
		if err := w.ParseWarningData(&out, []string{"Verify", "Bench"}[src], nil); err != nil {
			c.Fatalf("VERIF-HARNESS-ERROR %v", err)
		}
	}
	return w
}

// Some are defined in this program, some are not.
var warnNames = []string{"Duplicates", "NoDuplicates", "ZeroTime", "SkippingTest", "LevelWrong", "MessageKey", "Odd", "A", "Of another program", "of another program", "odd", "Odder", "OF ANOTHER PROGRAM"}

// genFound returns the warnings of some handlers, every name has its level.
func genFound(c *kit.C, levels map[string]warning.Level) found {
	f := found{}
	handlers := rapid.IntRange(0, 5).Draw(c.T, "handlers") + kit.Size(c.T, "crowd", 60, 4, 8, 16, 40)
	for i := handlers; i > 0; i-- {
		h := string(rune('a'+i%26)) + "/handler"
		if i >= 26 {
			h += fmt.Sprint(i)
		}
		f[h] = map[warning.Level]map[string]int{}
		for n := rapid.SampledFrom([]int{0, 1, 2, 4, 8, 12}).Draw(c.T, "warnings"); n > 0; n-- {
			name := rapid.SampledFrom(warnNames).Draw(c.T, "name")
			l := levels[name]
			if f[h][l] == nil {
				f[h][l] = map[string]int{}
			}
			f[h][l][name] = rapid.IntRange(1, 3).Draw(c.T, "times") + kit.Size(c.T, "often", 100, 10, 30, 70)
		}
		for n := kit.Size(c.T, "names", 60, 10, 20, 50); n > 0; n-- {
			l := warning.LevelOrder[n%len(warning.LevelOrder)]
			if f[h][l] == nil {
				f[h][l] = map[string]int{}
			}
			f[h][l][fmt.Sprint("Crowd", n)] = 1
		}
	}
	return f
}

type warnModel struct {
	max   map[warning.Level]float64
	total map[string]float64
	orig  map[string]float64
}

func (f found) model(weights map[warning.Level]uint) warnModel {
	m := warnModel{map[warning.Level]float64{}, map[string]float64{}, map[string]float64{}}
	maxScore := 0.0
	for _, l := range warning.LevelOrder {
		all := map[string]bool{}
		for _, x := range f {
			for n := range x[l] {
				all[n] = true
			}
		}
		m.max[l] = float64(len(all))
		maxScore += m.max[l] * float64(weights[l])
	}
	for h := range f {
		var sum, weight, penalty float64
		for _, l := range warning.LevelOrder {
			sum += float64(weights[l]) * m.level(f, h, l)
			weight += float64(weights[l])
			penalty += float64(weights[l]) * float64(len(f[h][l]))
		}
		m.total[h] = sum / weight
		m.orig[h] = 100
		if maxScore > 0 {
			m.orig[h] = 100 * (maxScore - penalty) / maxScore
		}
	}
	return m
}

func (m warnModel) level(f found, h string, l warning.Level) float64 {
	if m.max[l] == 0 {
		return 100
	}
	return 100 * (m.max[l] - float64(len(f[h][l]))) / m.max[l]
}

func genLevelWeights(c *kit.C) map[warning.Level]uint {
	weights := map[warning.Level]uint{}
	first := rapid.SampledFrom(warning.LevelOrder).Draw(c.T, "weighted")
	for _, l := range warning.LevelOrder {
		n := uint(rapid.IntRange(0, 9).Draw(c.T, "weight"))
		if l == first {
			n++
		}
		if n > 0 || rapid.Bool().Draw(c.T, "explicit") {
			weights[l] = n
		}
	}
	return weights
}

func TestS02_Model(t *testing.T) {
	kit.Check(t, 5000, 200000, "warnings of up to five handlers at all levels, defined in this program or not, repeated, from one or two sources, with any weights, compared with scores computed from their definition, also "+
		"after scoring other warnings with the same axis; then one handler gets one more warning, which must not raise any of its scores; non-trivial: at least two handlers have warnings", func(c *kit.C) {
		levels := map[string]warning.Level{}
		for _, n := range warnNames {
			levels[n] = rapid.SampledFrom(warning.LevelOrder).Draw(c.T, "level")
		}
		f := genFound(c, levels)
		weights := genLevelWeights(c)
		sources := rapid.IntRange(1, 2).Draw(c.T, "sources")
		a := axis.NewWarnings(weights, "").(*axis.Warnings)
		if rapid.Bool().Draw(c.T, "used before") {
			if err := a.Setup(nil, genFound(c, levels).parsed(c, 1)); err != nil {
				c.Fatalf("setup fails: %v", err)
			}
		}
		w := f.parsed(c, sources)
		check := func(when string, a *axis.Warnings, f found) {
			m := f.model(weights)
			for _, h := range append(kit.SortedKeys(f), "Nobody") {
				tag := data.HandlerTag(h)
				total, orig := m.total[h], m.orig[h]
				if h == "Nobody" {
					total, orig = 100, 100
				}
				for st, want := range map[score.Type]float64{score.Default: total, score.ByData: total, score.Original: orig} {
					got := a.ScoreForType(tag, st)
					if !same(got, want) {
						c.Fatalf("%s: the %s score of %s is %v, expected %v, of\n%swith weights %v", when, st, h, got, want, f, weights)
					}
					if got < -1e-9 || got > 100+1e-9 {
						c.Fatalf("%s: the %s score of %s is %v", when, st, h, got)
					}
				}
				if a.ScoreFor(tag) != a.ScoreForType(tag, score.Default) {
					c.Fatalf("%s: the score of %s is not the default score", when, h)
				}
				for _, l := range warning.LevelOrder {
					want := m.level(f, h, l)
					if got := a.ScoreForLevel(tag, l); !same(got, want) {
						c.Fatalf("%s: the %s score of %s is %v, expected %v, of\n%s", when, l, h, got, want, f)
					}
					if got := a.CountForLevel(tag, l); got != score.Value(len(f[h][l])) {
						c.Fatalf("%s: %s has %v warnings at level %s, expected %d", when, h, got, l, len(f[h][l]))
					}
				}
				if got := a.ScoreForTest(tag, "Verify.Test1"); got < 0 || got > 100 {
					c.Fatalf("%s: the score of %s for a test is %v", when, h, got)
				}
			}
			var rows []string
			for _, l := range warning.LevelOrder {
				if n, found := weights[l]; found {
					rows = append(rows, fmt.Sprintf("[%s %d]", l, n))
				}
			}
			sameExhibits(c, a.Exhibits(), []string{fmt.Sprintf("table [Level Weight] %v", rows)})
		}
		for _, when := range []string{"first", "again"} {
			if err := a.Setup(nil, w); err != nil {
				c.Fatalf("setup fails: %v", err)
			}
			check(when, a, f)
		}
		handlers := 0
		for _, x := range f {
			if len(x) > 0 {
				handlers++
			}
		}
		c.Case(handlers > 1, "%sweights %v", f, weights)
		if len(f) == 0 {
			return
		}
		h := rapid.SampledFrom(kit.SortedKeys(f)).Draw(c.T, "worse")
		n := rapid.SampledFrom(warnNames).Draw(c.T, "worse name")
		l := levels[n]
		if f[h][l] == nil {
			f[h][l] = map[string]int{}
		}
		c.Class(f[h][l][n] == 0, "one more distinct warning")
		f[h][l][n]++
		a2 := axis.NewWarnings(weights, "").(*axis.Warnings)
		if err := a2.Setup(nil, f.parsed(c, sources)); err != nil {
			c.Fatalf("setup fails: %v", err)
		}
		check("with one more warning", a2, f)
		for _, st := range []score.Type{score.Default, score.ByData, score.Original} {
			if x, y := a.ScoreForType(data.HandlerTag(h), st), a2.ScoreForType(data.HandlerTag(h), st); y > x+1e-6 {
				c.Fatalf("one more warning at level %s raises the %s score of %s from %v to %v", l, st, h, x, y)
			}
		}
	})
}

// sorted copy
func sortedTags[T ~string](tags []T) []T {
	s := append([]T{}, tags...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}
