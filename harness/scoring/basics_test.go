package scoring

import (
	"fmt"
	"math"
	"regexp"
	"strings"
	"testing"

	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/scoring/axis/common"
	"github.com/madkins23/go-slog/internal/scoring/score"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// genValue returns scores and other numbers, many of them simple.
func genValue(c *kit.C, label string) float64 {
	switch rapid.IntRange(0, 3).Draw(c.T, label+" kind") {
	case 0:
		return float64(rapid.IntRange(0, 4).Draw(c.T, label)) * 25
	case 1:
		return rapid.Float64Range(0, 100).Draw(c.T, label)
	case 2:
		return float64(rapid.IntRange(-1000, 1000).Draw(c.T, label))
	}
	return rapid.Float64Range(-1e9, 1e9).Draw(c.T, label)
}

func close2(got, want, scale float64) bool {
	return math.Abs(got-want) <= 1e-9*math.Max(1, scale)
}

func TestS03_Average(t *testing.T) {
	kit.Check(t, 20000, 1000000, "up to eight values with weights, added in two orders and one by one, compared with the weighted mean; non-trivial: at least two values with weight that differ", func(c *kit.C) {
		type item struct {
			v float64
			n uint
		}
		n := rapid.IntRange(0, 8).Draw(c.T, "values") + kit.Size(c.T, "many", 100, 10, 30, 100, 300)
		items := make([]item, n)
		var sum, weight, scale float64
		distinct := map[float64]bool{}
		for i := range items {
			items[i] = item{genValue(c, "value"), uint(rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3, 10}).Draw(c.T, "weight"))}
			sum += items[i].v * float64(items[i].n)
			weight += float64(items[i].n)
			scale = math.Max(scale, math.Abs(items[i].v))
			if items[i].n > 0 {
				distinct[items[i].v] = true
			}
		}
		c.Case(len(distinct) > 1, "%v", items)
		c.Class(weight == 0, "nothing added")
		check := func(how string, a *score.Average) {
			got := float64(a.Average())
			if weight == 0 {
				if !math.IsNaN(got) {
					c.Fatalf("%s: nothing was added, the average is %v", how, got)
				}
				return
			}
			if !close2(got, sum/weight, scale) {
				c.Fatalf("%s: the average of %v is %v, expected %v", how, items, got, sum/weight)
			}
			if again := float64(a.Average()); again != got {
				c.Fatalf("%s: the average of %v is %v, then %v", how, items, got, again)
			}
		}
		var a, b, single score.Average
		for _, it := range items {
			a.AddMultiple(score.Value(it.v), it.n)
			if it.n == 1 {
				// Chained, as documented by the result.
				single.Add(score.Value(it.v))
				continue
			}
			for i := uint(0); i < it.n; i++ {
				single.Add(score.Value(it.v))
			}
		}
		if n > 0 {
			for _, it := range rapid.Permutation(items).Draw(c.T, "order") {
				if got := b.AddMultiple(score.Value(it.v), it.n); got != &b {
					c.Fatalf("AddMultiple returns another average")
				}
			}
		}
		check("in order", &a)
		check("in another order", &b)
		check("one by one", &single)
		if a.Count != uint(weight) {
			c.Fatalf("%v: count %d, expected %v", items, a.Count, weight)
		}
	})
}

func TestS03_Range(t *testing.T) {
	kit.Check(t, 20000, 1000000, "one to eight values added to a range of floats or of integers, in either of the two ways, then any value in and around the range is mapped; "+
		"non-trivial: at least two different values", func(c *kit.C) {
		integers := rapid.Bool().Draw(c.T, "integers")
		n := rapid.IntRange(1, 8).Draw(c.T, "values") + kit.Size(c.T, "many", 100, 10, 30, 100, 300)
		var r common.Range = common.NewRangeFloat64()
		if integers {
			r = common.NewRangeUint64()
		}
		low, high := math.Inf(1), math.Inf(-1)
		var all []float64
		for i := 0; i < n; i++ {
			v := genValue(c, "value")
			if integers {
				v = math.Floor(math.Abs(v))
			}
			whole := v == math.Floor(v) && v >= 0
			if whole && rapid.Bool().Draw(c.T, "as integer") {
				r.AddValueUint64(uint64(v))
			} else {
				r.AddValueFloat64(v)
			}
			low, high = math.Min(low, v), math.Max(high, v)
			all = append(all, v)
		}
		c.Case(low < high, "%v integers %v", all, integers)
		c.Class(low < 0, "negative")
		c.Class(high < 0, "all negative")
		if !close2(r.Length(), high-low, high-low) {
			c.Fatalf("the range of %v has length %v, expected %v", all, r.Length(), high-low)
		}
		format := "%0.2f -> %0.2f"
		if integers {
			format = "%0.0f -> %0.0f"
		}
		if got, want := r.String(), fmt.Sprintf(format, low, high); unsigned(got) != unsigned(want) {
			c.Fatalf("the range of %v is shown as %q, expected %q", all, got, want)
		}
		if high-low < 1e-6 {
			return
		}
		at := func(v, want float64) {
			// The precision depends on the size of the numbers relative to the length of the range.
			scale := 100 * math.Max(1, math.Max(math.Abs(low), math.Abs(high))/(high-low)) * math.Max(1, math.Abs(want)/100)
			if got := float64(r.RangedValue(v)); !(math.Abs(got-want) <= 1e-12*scale+1e-9) {
				c.Fatalf("in the range of %v the value %v is mapped to %v, expected %v", all, v, got, want)
			}
		}
		at(low, 100)
		at(high, 0)
		part := rapid.Float64Range(0, 1).Draw(c.T, "part")
		v := low + part*(high-low)
		at(v, 100*(high-v)/(high-low))
		at(low-1, 100*(high-low+1)/(high-low))
		at(high+2, -200/(high-low))
	})
}

// nested is a filter group as a tree of names.
type nested struct {
	name string
	sub  []nested
}

func (n nested) String() string {
	if n.sub == nil {
		return n.name
	}
	var parts []string
	for _, s := range n.sub {
		parts = append(parts, s.String())
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func (n nested) names(into map[string]bool) {
	if n.sub == nil {
		into[n.name] = true
	}
	for _, s := range n.sub {
		s.names(into)
	}
}

func (n nested) depth() int {
	d := 0
	for _, s := range n.sub {
		if x := 1 + s.depth(); x > d {
			d = x
		}
	}
	return d
}

var filterNames = []string{"", "a", "b", "c", "A", "a/b", "slog/JSONHandler", "ä", "a ", "*"}

func genNested(c *kit.C, depth int) nested {
	if depth == 0 || rapid.IntRange(0, 2).Draw(c.T, "leaf") > 0 {
		return nested{name: rapid.SampledFrom(filterNames).Draw(c.T, "name")}
	}
	n := nested{sub: []nested{}}
	for i := rapid.IntRange(0, 3).Draw(c.T, "items"); i > 0; i-- {
		n.sub = append(n.sub, genNested(c, depth-1))
	}
	return n
}

func (n nested) items() []any {
	var items []any
	for _, s := range n.sub {
		if s.sub == nil {
			items = append(items, s.name)
		} else {
			items = append(items, score.NewFilterGroup(s.items()...))
		}
	}
	return items
}

func TestS03_Filter(t *testing.T) {
	kit.Check(t, 20000, 1000000, "filters over names and groups nested up to four levels, asked about every name and unknown ones; groups are shared by both filters; non-trivial: a nested group has names", func(c *kit.C) {
		n := nested{sub: []nested{}}
		for i := rapid.IntRange(0, 4).Draw(c.T, "items"); i > 0; i-- {
			n.sub = append(n.sub, genNested(c, 3))
		}
		asked := append([]string{}, filterNames...)
		for i := kit.Size(c.T, "crowd", 100, 6, 12, 30, 100, 300); i > 0; i-- {
			asked = append(asked, fmt.Sprint("crowd", i))
			n.sub = append(n.sub, nested{name: fmt.Sprint("crowd", i)})
		}
		for i := kit.Size(c.T, "tower", 100, 5, 10, 30, 100); i > 0; i-- {
			n.sub = []nested{{sub: n.sub}}
		}
		names := map[string]bool{}
		n.names(names)
		c.Case(n.depth() > 1 && len(names) > 1, "%s", n)
		items := n.items()
		incl, excl := score.NewIncludeFilter(items...), score.NewExcludeFilter(items...)
		// Grouping once more makes no difference, and groups are not changed by being used.
		again := score.NewIncludeFilter(score.NewFilterGroup(items...), score.NewFilterGroup())
		more := score.NewIncludeFilter(append([]any{"something else"}, items...)...)
		if !more.Keep("something else") {
			c.Fatalf("a name added to %s is not included", n)
		}
		for i, item := range items {
			g, ok := item.(*score.Group)
			if !ok {
				continue
			}
			inGroup := map[string]bool{}
			n.sub[i].names(inGroup)
			first := score.NewIncludeFilter(g, "something else")
			alone := score.NewIncludeFilter(g)
			for _, name := range append([]string{"something else"}, asked...) {
				if alone.Keep(name) != inGroup[name] {
					c.Fatalf("after being used for other filters the group %s keeps %q: %v", n.sub[i], name, alone.Keep(name))
				}
				if first.Keep(name) != (inGroup[name] || name == "something else") {
					c.Fatalf("the group %s with another name keeps %q: %v", n.sub[i], name, first.Keep(name))
				}
			}
		}
		for _, name := range append([]string{"something else", "B"}, asked...) {
			if got := incl.Keep(name); got != names[name] {
				c.Fatalf("including %s keeps %q: %v", n, name, got)
			}
			if got := excl.Keep(name); got == names[name] {
				c.Fatalf("excluding %s keeps %q: %v", n, name, got)
			}
			if got := again.Keep(name); got != names[name] {
				c.Fatalf("including a group of %s keeps %q: %v", n, name, got)
			}
		}
	})
}

func TestS03_Percent(t *testing.T) {
	kit.Check(t, 20000, 1000000, "pairs of numbers of equal sign, compared with the difference relative to their mean; rounding to nine digits; non-trivial: they differ", func(c *kit.C) {
		a, b := math.Abs(genValue(c, "a")), math.Abs(genValue(c, "b"))
		if rapid.IntRange(0, 2).Draw(c.T, "near") == 0 {
			b = a * (1 + rapid.Float64Range(-0.1, 0.1).Draw(c.T, "by"))
		}
		if rapid.Bool().Draw(c.T, "negative") {
			a, b = -a, -b
		}
		c.Case(a != b, "%v %v", a, b)
		want := 0.0
		if a != b {
			want = 100 * math.Abs(a-b) / math.Abs((a+b)/2)
		}
		va, vb := score.Value(a), score.Value(b)
		got := float64(common.PercentDifference(va, vb))
		if !close2(got, want, want) || got != float64(common.PercentDifference(vb, va)) {
			c.Fatalf("the difference of %v and %v is %v%%, expected %v%%", a, b, got, want)
		}
		if math.Abs(want-5) > 1e-6 && common.PercentEqual(va, vb) != (want < 5) {
			c.Fatalf("%v and %v differ by %v%%, PercentEqual is %v", a, b, want, common.PercentEqual(va, vb))
		}
		if d := math.Abs(a - b); common.FuzzyEqual(va, vb) != (d < 1e-8) && math.Abs(d-1e-8) > 1e-12 {
			c.Fatalf("%v and %v: FuzzyEqual is %v", a, b, common.FuzzyEqual(va, vb))
		}
		tiny := score.Value(rapid.Float64Range(-0.99e-8, 0.99e-8).Draw(c.T, "tiny"))
		if math.Abs(a) < 1e6 && !common.FuzzyEqual(va, va+tiny) {
			c.Fatalf("%v and %v are not fuzzily equal", va, va+tiny)
		}
		if math.Abs(a) > 1e5 {
			// The precision of large numbers isn't enough.
			return
		}
		r := va.Round()
		if math.Abs(float64(r)-a) > 0.5000001e-9+math.Abs(a)*1e-15 || r.Round() != r {
			c.Fatalf("%v is rounded to %v, then to %v", a, float64(r), float64(r.Round()))
		}
	})
}

func TestS03_Enums(t *testing.T) {
	types := map[score.Type][2]string{score.Default: {"Default", "Score"}, score.ByData: {"ByData", "by Data"}, score.Original: {"Original", "Original"}, score.ByTest: {"ByTest", "by Test"}}
	kit.Enum(t, "all 256 values of both enumerations: text and back, membership, listing", func() []int {
		all := make([]int, 256)
		for i := range all {
			all[i] = i
		}
		return all
	}(), func(f kit.Failer, i int) (bool, string) {
		st, item := score.Type(i), data.BenchItems(i)
		names, known := types[st]
		if st.IsAType() != known || (known && (st.String() != names[0] || st.ColHeader() != names[1])) {
			f.Fatalf("score type %d: %s, column %s, known: %v", i, st, st.ColHeader(), st.IsAType())
		}
		back, err := score.TypeString(st.String())
		if (err == nil) != known || (known && back != st) {
			f.Fatalf("score type %d is read from %q as %d: %v", i, st.String(), back, err)
		}
		if low, err := score.TypeString(strings.ToLower(st.String())); (err == nil) != known || (known && low != st) {
			f.Fatalf("score type %d is read from lower case %q as %d: %v", i, st.String(), low, err)
		}
		listed := false
		for _, v := range score.TypeValues() {
			listed = listed || v == st
		}
		inStrings := false
		for _, s := range score.TypeStrings() {
			inStrings = inStrings || s == st.String()
		}
		if listed != known || inStrings != known {
			f.Fatalf("score type %d is listed: %v, its name: %v", i, listed, inStrings)
		}
		if l := score.List("ByTest", st.String(), "Default"); len(l) != 2+count(known) || l[0] != score.ByTest || l[len(l)-1] != score.Default || (known && l[1] != st) {
			f.Fatalf("listing ByTest, %s and Default gives %v", st, l)
		}
		items := map[data.BenchItems]string{data.Runs: "Runs", data.Nanos: "Nanos", data.MemAllocs: "MemAllocs", data.MemBytes: "MemBytes", data.GbPerSec: "GbPerSec", data.TbPerSec: "TbPerSec", data.MbPerSec: "MbPerSec"}
		name, knownItem := items[item]
		if item.IsABenchItems() != knownItem || (knownItem && item.String() != name) {
			f.Fatalf("benchmark item %d: %s, known: %v", i, item, item.IsABenchItems())
		}
		backItem, err := data.BenchItemsString(item.String())
		if (err == nil) != knownItem || (knownItem && backItem != item) {
			f.Fatalf("benchmark item %d is read from %q as %d: %v", i, item.String(), backItem, err)
		}
		if knownItem && (item.ShortName() == "" || item.LongName() == "") {
			f.Fatalf("benchmark item %s has no name", item)
		}
		return known || knownItem, fmt.Sprintf("%d %s %s", i, st, item)
	})
}

func TestS03_UnknownNames(t *testing.T) {
	kit.Check(t, 5000, 200000, "names of no score type and no benchmark item: random ones and real ones with something added, removed or joined; non-trivial: made from a real name", func(c *kit.C) {
		real := append(score.TypeStrings(), data.BenchItemsStrings()...)
		text := kit.WildText(c.T, "text")
		nt := rapid.Bool().Draw(c.T, "from a real name")
		if nt {
			name := rapid.SampledFrom(real).Draw(c.T, "name")
			switch rapid.IntRange(0, 3).Draw(c.T, "how") {
			case 0:
				text = name + rapid.SampledFrom(append(real, " ", "s", "\x00")).Draw(c.T, "suffix")
			case 1:
				text = " " + name
			case 2:
				text = name[1:]
			case 3:
				text = name[:len(name)-1]
			}
		}
		c.Case(nt, "%q", text)
		for _, n := range real {
			if strings.EqualFold(n, text) {
				return
			}
		}
		if v, err := score.TypeString(text); err == nil {
			c.Fatalf("%q is read as score type %s", text, v)
		}
		if v, err := data.BenchItemsString(text); err == nil {
			c.Fatalf("%q is read as benchmark item %s", text, v)
		}
	})
}

var minusZero = regexp.MustCompile(`-0\.00\b`)

// unsigned removes the sign of numbers shown as zero.
func unsigned(s string) string {
	return minusZero.ReplaceAllString(s, "0.00")
}
