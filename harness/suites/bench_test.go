package suites

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"strings"
	"testing"

	bench "github.com/madkins23/go-slog/bench/tests"
	"github.com/madkins23/go-slog/handlers/flash"
	"github.com/madkins23/go-slog/handlers/sloggy"
	"github.com/madkins23/go-slog/infra"
	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"pgregory.net/rapid"
)

// scenarios of the benchmark suite, by name.
func scenarios() (*bench.SlogBenchmarkSuite, map[string]*bench.Benchmark) {
	creator := infra.NewCreator("verif/bench", func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) }, nil, "", nil)
	s := bench.NewSlogBenchmarkSuite(creator)
	all := map[string]*bench.Benchmark{}
	v := reflect.ValueOf(s)
	for i := 0; i < v.NumMethod(); i++ {
		if name, ok := strings.CutPrefix(v.Type().Method(i).Name, "Benchmark"); ok {
			all[name] = v.Method(i).Call(nil)[0].Interface().(*bench.Benchmark)
		}
	}
	return s, all
}

var writers = map[string]func(io.Writer, *slog.HandlerOptions) slog.Handler{
	"slog/JSONHandler": func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return slog.NewJSONHandler(w, o) },
	"flash":            func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return flash.NewHandler(w, o, nil) },
	"sloggy":           func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return sloggy.NewHandler(w, o) },
	"deviant":          func(w io.Writer, o *slog.HandlerOptions) slog.Handler { return newDeviant(w, o, nil) },
}

// encode writes a decoded value as JSON again.
func encode(b *bytes.Buffer, v any, space string) {
	switch v := v.(type) {
	case kit.Obj:
		b.WriteString("{" + space)
		for i, f := range v {
			if i > 0 {
				b.WriteString("," + space)
			}
			encode(b, f.Key, space)
			b.WriteString(":" + space)
			encode(b, f.Val, space)
		}
		b.WriteString(space + "}")
	case []any:
		b.WriteString("[" + space)
		for i, e := range v {
			if i > 0 {
				b.WriteString("," + space)
			}
			encode(b, e, space)
		}
		b.WriteString(space + "]")
	default:
		out, err := json.Marshal(v)
		if err != nil {
			panic("VERIF-HARNESS-ERROR " + err.Error())
		}
		b.Write(out)
	}
}

// group finds an object in an object.
func group(o kit.Obj, path ...string) *kit.Obj {
	if len(path) == 0 {
		return &o
	}
	for _, f := range o {
		if sub, ok := f.Val.(kit.Obj); ok && f.Key == path[0] {
			return group(sub, path[1:]...)
		}
	}
	return nil
}

// change applies a function to an object at a path, given the field's place there.
func change(o kit.Obj, path []string, fn func(in kit.Obj, i int) kit.Obj) (kit.Obj, bool) {
	for i, f := range o {
		if f.Key != path[0] {
			continue
		}
		out := append(kit.Obj{}, o...)
		if len(path) == 1 {
			return fn(out, i), true
		}
		if sub, ok := f.Val.(kit.Obj); ok {
			if changed, done := change(sub, path[1:], fn); done {
				out[i].Val = changed
				return out, true
			}
		}
	}
	return o, false
}

var valueFields = []string{"Bool", "Int", "Int64", "Uint64", "Float64", "String"}

// checkedFields of a scenario, as paths.
func checkedFields(scenario string) [][]string {
	out := [][]string{{"level"}, {"msg"}}
	values := func(prefix []string, with string) {
		for _, f := range valueFields {
			out = append(out, append(prefix[:len(prefix):len(prefix)], with+f))
		}
		for _, f := range []string{"group", "Any"} {
			out = append(out, append(prefix[:len(prefix):len(prefix)], f))
		}
		for _, f := range [][2]string{{"group", "alpha"}, {"group", "never"}, {"Any", "Name"}, {"Any", "Num"}} {
			out = append(out, append(prefix[:len(prefix):len(prefix)], f[0], f[1]))
		}
	}
	switch {
	case strings.HasPrefix(scenario, "WithGroup"):
		out = append(out, []string{"withGroup"})
		values([]string{"withGroup"}, "")
	case scenario == "WithAttrsSimple":
		values(nil, "with")
	case strings.HasPrefix(scenario, "WithAttrs"):
		for _, f := range valueFields {
			out = append(out, []string{f}, []string{"with" + f})
		}
	case scenario == "Attributes" || scenario == "KeyValues":
		values(nil, "")
	case scenario == "SimpleSource":
		out = append(out, []string{"source"}, []string{"source", "file"}, []string{"source", "function"}, []string{"source", "line"})
	case scenario == "Logging":
		out = append(out, []string{"code"}, []string{"elapsed"}, []string{"method"}, []string{"url"})
	}
	return out
}

func last(m []string) string { return m[len(m)-1] }

const benchRule = "the output of a correct handler (standard library, flash, sloggy, or a model) for any of the benchmark scenarios, decoded and written again with other spacing, order of fields, case of levels and time; "

func TestB01_Checks(t *testing.T) {
	kit.Check(t, 1500, 60000, benchRule+"then left alone or altered in one checked field (missing, other value, other name, other level of nesting, doubled), in its lines (broken, missing, doubled, or none), in a nested group (missing, not a group, a field that is no group, misnamed, cut off); "+
		"the scenario's check must accept what is left alone and report what is altered, except as known (known_findings.txt); non-trivial: altered", func(c *kit.C) {
		suite, all := scenarios()
		name := rapid.SampledFrom(kit.SortedKeys(all)).Draw(c.T, "scenario")
		b := all[name]
		writer := rapid.SampledFrom(kit.SortedKeys(writers)).Draw(c.T, "writer")
		var out bytes.Buffer
		h := writers[writer](&out, b.Options)
		if b.HandlerFn != nil {
			h = b.HandlerFn(h)
		}
		b.BenchmarkFn(slog.New(h))
		if name == "Disabled" {
			what := rapid.SampledFrom([]string{"", "\n", "{}\n", "{\"level\":\"DEBUG\",\"msg\":\"This is a message\"}\n", "x"}).Draw(c.T, "written")
			judge(c, suite, b, name, out.String()+what, what == "", false)
			return
		}
		var recs []kit.Obj
		for _, l := range strings.SplitAfter(out.String(), "\n") {
			if l == "" {
				continue
			}
			o, err := kit.DecodeLine([]byte(l))
			if err != nil {
				c.Fatalf("%s writes %q: %v", writer, l, err)
			}
			recs = append(recs, o)
		}
		if len(recs) == 0 || (len(recs) != 1) != (name == "Logging") {
			c.Fatalf("%s writes %d lines in scenario %s", writer, len(recs), name)
		}
		at := rapid.IntRange(0, len(recs)-1).Draw(c.T, "line")
		good, known := true, false
		what := ""
		rec := recs[at]
		if name == "BigGroup" {
			rec, good, known, what = alterBig(c, rec)
		} else if rapid.IntRange(0, 4).Draw(c.T, "altered") > 0 {
			path := rapid.SampledFrom(checkedFields(name)).Draw(c.T, "field")
			kinds := []string{"missing", "value", "renamed", "nested", "doubled", "text"}
			if name == "Logging" || path[0] == "source" {
				kinds = []string{"missing", "renamed", "nested", "doubled"}
			}
			if name == "SimpleSource" && len(path) == 1 && path[0] == "source" {
				kinds = append(kinds, "value", "caller")
			}
			kind := rapid.SampledFrom(kinds).Draw(c.T, "alteration")
			what = strings.Join(path, ".") + " " + kind
			good = false
			var done bool
			rec, done = change(rec, path, func(in kit.Obj, i int) kit.Obj {
				switch kind {
				case "missing":
					return append(in[:i], in[i+1:]...)
				case "value":
					in[i].Val = rapid.SampledFrom([]any{nil, "other", json.Number("-1"), json.Number("1e300"), []any{}, kit.Obj{}, kit.Obj{{Key: "a", Val: "b"}}, []any{"b", "c"}, ""}).Draw(c.T, "value")
				case "text":
					// A value of a checked field is written as a text that isn't its JSON.
					in[i].Val = fmt.Sprintf("<%s>", kit.Show(in[i].Val))
				case "renamed":
					in[i].Key += "2"
				case "nested":
					in[i] = kit.Field{Key: "deeper", Val: kit.Obj{in[i]}}
				case "caller":
					in[i] = kit.Field{Key: "caller", Val: "file.go:17"}
				case "doubled":
					in = append(in, in[i])
					known = true // A finding: the field counter is asked without having been given the record.
				}
				return in
			})
			if !done {
				c.Fatalf("%s in scenario %s writes no field %v: %s", writer, name, path, recs[at])
			}
		}
		recs[at] = rec
		// Benign differences.
		spaces := rapid.SampledFrom([]string{"", "", " ", "\t "}).Draw(c.T, "spacing")
		level := rapid.SampledFrom([]string{"", "info", "Info"}).Draw(c.T, "level text")
		time := rapid.SampledFrom([]any{nil, "2001-02-03T04:05:06Z", json.Number("981173106"), kit.Obj{{Key: "a", Val: "b"}}}).Draw(c.T, "time")
		turn := rapid.IntRange(0, 20).Draw(c.T, "turned by")
		message := rapid.Bool().Draw(c.T, "message for msg") && (name != "Logging")
		extra := rapid.Bool().Draw(c.T, "extra field") && name != "Simple"
		for i, r := range recs {
			n := kit.Obj{}
			for j := range r {
				f := r[(j+turn)%len(r)]
				switch {
				case f.Key == "level" && f.Val == "INFO" && level != "" && name != "Logging":
					f.Val = level
				case f.Key == "time" && time != nil:
					f.Val = time
				case f.Key == "msg" && message && !strings.HasPrefix(what, "msg "):
					f.Key = "message"
				}
				n = append(n, f)
			}
			if extra {
				n = append(n, kit.Field{Key: "pid", Val: json.Number("4711")})
			}
			recs[i] = n
		}
		var text bytes.Buffer
		lines := "none"
		if good && rapid.IntRange(0, 2).Draw(c.T, "lines altered") == 0 {
			lines = rapid.SampledFrom([]string{"broken", "missing", "doubled", "all missing", "cut"}).Draw(c.T, "line alteration")
		}
		for i, r := range recs {
			var line bytes.Buffer
			encode(&line, r, spaces)
			l := line.String() + "\n"
			if i == at {
				switch lines {
				case "broken":
					l = strings.Replace(l, ":", ";", 1)
				case "missing":
					l = ""
				case "doubled":
					l += l
				case "cut":
					l = l[:rapid.IntRange(1, len(l)-2).Draw(c.T, "cut at")] + "\n"
				}
			}
			if lines != "all missing" {
				text.WriteString(l)
			}
		}
		if lines != "none" {
			good, what = false, lines
			known = name == "Logging" && strings.Contains(lines, "missing") || name == "Logging" && lines == "doubled"
		}
		c.Logf("%s of %s, altered: %s", name, writer, what)
		judge(c, suite, b, name+" of "+writer+", altered: "+what, text.String(), good, known)
	})
}

// alterBig alters the nested groups.
func alterBig(c *kit.C, rec kit.Obj) (out kit.Obj, good, known bool, what string) {
	path := []string{"group"}
	depth := rapid.IntRange(0, 5).Draw(c.T, "depth")
	for i := 0; i < depth; i++ {
		path = append(path, last(path)+"-0")
	}
	if group(rec, path...) == nil {
		c.Fatalf("there is no group %v: %s", path, rec)
	}
	what = rapid.SampledFrom([]string{"", "missing", "not a group", "field", "misnamed", "cut off", "too deep"}).Draw(c.T, "alteration")
	known = what == "missing" && depth == 0 || what == "misnamed" && depth == 0
	done := what == ""
	if what != "" {
		rec, done = change(rec, path, func(in kit.Obj, i int) kit.Obj {
			switch what {
			case "missing":
				if depth > 0 {
					// All groups of this depth.
					var left kit.Obj
					for _, f := range in {
						if _, ok := f.Val.(kit.Obj); !ok {
							left = append(left, f)
						}
					}
					return left
				}
				return append(in[:i], in[i+1:]...)
			case "not a group":
				in[i].Val = rapid.SampledFrom([]any{nil, "text", json.Number("3"), []any{}}).Draw(c.T, "instead")
			case "field":
				in[i].Val = append(append(kit.Obj{}, in[i].Val.(kit.Obj)...), kit.Field{Key: "surplus", Val: "text"})
			case "misnamed":
				in[i].Key = "x" + in[i].Key
			case "cut off":
				in[i].Val = kit.Obj{}
			case "too deep":
				in[i].Val = deeper(in[i].Key, in[i].Val.(kit.Obj))
			}
			return in
		})
	}
	if !done {
		c.Fatalf("there is no group %v: %s", path, rec)
	}
	if maxDepth(*orEmpty(group(rec, "group"))) == 6 && (what == "cut off" || what == "missing" && depth > 0) {
		// Another group is as deep.
		known = true
	}
	return rec, what == "", known, fmt.Sprintf("%s at depth %d", what, depth)
}

func orEmpty(o *kit.Obj) *kit.Obj {
	if o == nil {
		return &kit.Obj{}
	}
	return o
}

// deeper puts a group between.
func deeper(key string, o kit.Obj) kit.Obj {
	return kit.Obj{{Key: key + "-0", Val: o}}
}

func maxDepth(o kit.Obj) int {
	d := 0
	for _, f := range o {
		if sub, ok := f.Val.(kit.Obj); ok {
			d = max(d, maxDepth(sub))
		}
	}
	return d + 1
}

func judge(c *kit.C, suite *bench.SlogBenchmarkSuite, b *bench.Benchmark, name, text string, good, known bool) {
	err := b.VerifyFn([]byte(text), nil, suite.Manager)
	var warned []string
	for _, w := range suite.Manager.GetWarnings() {
		if w.Name == warning.Undefined.Name {
			c.Fatalf("%s: a warning is undefined", name)
		}
		if w.Name == warning.Duplicates.Name && good {
			continue
		}
		warned = append(warned, w.Name)
	}
	if err != nil && good && errorsOnly(err, warning.Duplicates) {
		err = nil
	}
	reported := err != nil || len(warned) > 0
	c.Class(good, "left alone")
	c.Class(!good && known, "known not to be reported")
	c.Class(reported, "reported")
	c.Class(len(warned) > 0, "reported by a warning")
	c.Case(!good, "%s: %s", name, text)
	if good && reported {
		c.Fatalf("%s: correct output is reported: %v %v\n%s", name, warned, err, text)
	}
	if !good && !reported && !known {
		c.Fatalf("%s: altered output is accepted\n%s", name, text)
	}
}

// errorsOnly tells whether an error is about one warning.
func errorsOnly(err error, w *warning.Warning) bool {
	for _, l := range strings.Split(err.Error(), "\n") {
		if !strings.Contains(l, w.Summary) {
			return false
		}
	}
	return true
}
