package server

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/madkins23/go-slog/infra/warning"
	"github.com/madkins23/go-slog/internal/data"
	"github.com/madkins23/go-slog/internal/zzverif/kit"
	"golang.org/x/text/language"
	"golang.org/x/text/message"
	"pgregory.net/rapid"
)

// tabulate runs the tabular command in a directory of its own.
func tabulate(files map[string]string, args ...string) (stdout, stderr string, err error) {
	dir, err := os.MkdirTemp("", "tabular")
	harness(err)
	defer func() { _ = os.RemoveAll(dir) }()
	for name, text := range files {
		harness(os.WriteFile(filepath.Join(dir, name), []byte(text), 0o600))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), "tabular"), args...)
	cmd.Dir = dir
	var out, log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &log
	err = cmd.Run()
	kit.Beat()
	return out.String(), log.String(), err
}

// reportLines are the lines of a text, with white space evened out and without blank lines.
func reportLines(text string) []string {
	var out []string
	for _, l := range strings.Split(text, "\n") {
		if l = tidy(l); l != "" {
			out = append(out, l)
		}
	}
	return out
}

// checkNesting compares the indentations of the printed lines with their depths: levels below handlers,
// warnings below levels, instances below warnings, and below the instances their texts and log records.
func checkNesting(c kit.Failer, printed, expected string) {
	depths := []int{}
	for _, l := range strings.Split(expected, "\n") {
		if tidy(l) != "" {
			depths = append(depths, len(l)-len(strings.TrimLeft(l, "\t")))
		}
	}
	indents := [5]int{}
	i := 0
	for _, l := range strings.Split(printed, "\n") {
		if tidy(l) == "" {
			continue
		}
		depth, indent := depths[i], len(l)-len(strings.TrimLeft(l, " "))
		i++
		if depth > 0 && indent <= indents[depth-1] {
			c.Fatalf("the line %q isn't indented below what it belongs to:\n%s", l, printed)
		}
		indents[depth] = indent
	}
}

// cellsOf splits a row of a printed table.
func cellsOf(line string) ([]string, bool) {
	if !strings.HasPrefix(line, "║") || !strings.HasSuffix(line, "║") || len(line) < 6 {
		return nil, false
	}
	var out []string
	for _, cell := range strings.FieldsFunc(line, func(r rune) bool { return r == '║' || r == '│' }) {
		out = append(out, tidy(cell))
	}
	return out, true
}

// tables are the printed tables in order: title, then rows.
func tables(c kit.Failer, text string) (string, string) {
	lines := strings.Split(text, "\n")
	var out []string
	i := 0
	for ; i < len(lines) && !strings.HasPrefix(lines[i], "Warnings for "); i++ {
		l := strings.TrimSpace(lines[i])
		switch {
		case l == "":
		case strings.HasPrefix(l, "╔") || strings.HasPrefix(l, "╠") || strings.HasPrefix(l, "╚"):
			out = append(out, string([]rune(l)[:1]))
		default:
			if row, ok := cellsOf(l); ok {
				out = append(out, fmt.Sprintf("%q", row))
			} else {
				out = append(out, l)
			}
		}
	}
	return strings.Join(out, "\n"), strings.Join(lines[i:], "\n")
}

func (s *site) printedTables(v *viewer) string {
	var out []string
	for _, tag := range s.benchTests() {
		out = append(out, "Benchmark "+testName(tag), "╔", fmt.Sprintf("%q", []string{"Handler", "Runs", "Ns/Op", "Allocs/Op", "Bytes/Op", "MB/Sec"}), "╠")
		for _, h := range s.fromBench() {
			if m, ok := h.results[strings.TrimPrefix(tag, "Bench.")]; ok {
				row := v.measures(h.shown(), m)
				out = append(out, fmt.Sprintf("%q", row))
			}
		}
		out = append(out, "╚")
	}
	return strings.Join(out, "\n")
}

func (s *site) printedWarnings() string {
	var out []string
	var handlers []*handler
	for _, h := range s.handlers {
		if h.reported["Bench"] || h.reported["Verify"] {
			handlers = append(handlers, h)
		}
	}
	sort.Slice(handlers, func(i, j int) bool { return handlers[i].shown() < handlers[j].shown() })
	for _, h := range handlers {
		out = append(out, "Warnings for "+h.shown()+":")
		for _, level := range warning.LevelOrder {
			byName := map[string][]record{}
			for _, r := range h.recs {
				if r.warning.Level == level {
					byName[r.warning.Name] = append(byName[r.warning.Name], r)
				}
			}
			if len(byName) > 0 {
				out = append(out, "\t"+level.String())
			}
			for _, name := range kit.SortedKeys(byName) {
				recs := byName[name]
				out = append(out, fmt.Sprintf("\t\t%d [%s] %s", len(recs), name, recs[0].warning.Summary))
				var blocks []string
				for _, r := range recs {
					head := "\t\t\t" + r.source + ":" + r.test
					for i, l := range r.text {
						if i == 0 && len(r.text) == 1 {
							head += ": " + l
						} else {
							if i == 0 {
								head += ":"
							}
							head += "\n\t\t\t\t" + strings.TrimLeft(l, "\t")
						}
					}
					if r.log != "" {
						head += "\n\t\t\t\t" + strings.ReplaceAll(r.log, "\n", "\n\t\t\t\t")
					}
					blocks = append(blocks, head)
				}
				// Sorted by test, otherwise as they came.
				order := make([]int, len(recs))
				for i := range order {
					order[i] = i
				}
				sort.SliceStable(order, func(i, j int) bool {
					a, b := recs[order[i]], recs[order[j]]
					if an, bn := data.TestTag(a.test).Name(), data.TestTag(b.test).Name(); an != bn {
						return an < bn
					}
					return a.source < b.source
				})
				for _, i := range order {
					out = append(out, blocks[i])
				}
			}
		}
	}
	return strings.Join(out, "\n")
}

// TestT01_Tabular compares what the command prints with the generated results.
func TestT01_Tabular(t *testing.T) {
	kit.Check(t, 800, 20000, siteRule+"the tabular command prints them; its tables and its list of warnings are compared with the generated results; non-trivial: a table of two rows and a warning", func(c *kit.C) {
		s := genSite(c)
		c.Logf("%s", s)
		v := &viewer{c: c, s: s}
		tag := "en-US"
		for _, l := range s.langs {
			if _, err := language.Parse(l); err == nil {
				tag = l
				break
			}
		}
		v.plain = tag == "en" || tag == "en-US" || tag == "en_US"
		v.print = message.NewPrinter(language.Make(tag))
		files, args := map[string]string{"b.txt": s.bench}, []string{"-bench=b.txt"}
		verify := rapid.IntRange(0, 9).Draw(c.T, "verify") > 0
		if verify {
			files["v.txt"] = s.verify
			args = append(args, "-verify=v.txt")
		} else {
			for _, h := range s.handlers {
				var left []record
				for _, r := range h.recs {
					if r.source != "Verify" {
						left = append(left, r)
					}
				}
				h.recs = left
				h.reported["Verify"] = false
			}
		}
		for _, l := range s.langs {
			args = append(args, "-language="+l)
		}
		out, log, err := tabulate(files, args...)
		if err != nil || strings.Contains(log, "error") || strings.Contains(log, "Unable") {
			c.Fatalf("the command fails: %v\n%s", err, log)
		}
		got, rest := tables(c, out)
		if want := s.printedTables(v); got != want {
			c.Fatalf("the tables are\n%s\nexpected\n%s", got, want)
		}
		listed := s.printedWarnings()
		gotW, wantW := strings.Join(reportLines(rest), "\n"), strings.Join(reportLines(listed), "\n")
		if gotW != wantW {
			c.Fatalf("the warnings are\n%s\nexpected\n%s", gotW, wantW)
		}
		checkNesting(c, rest, listed)
		// The columns stand below each other.
		for _, l := range strings.Split(out, "\n") {
			if row, ok := cellsOf(strings.TrimSpace(l)); ok && len([]rune(row[0])) <= 23 && v.plain && len([]rune(l)) != 101 && fits(row) {
				c.Fatalf("a row isn't aligned:\n%s", out)
			}
		}
		rows, recs := 0, 0
		for _, h := range s.handlers {
			rows += len(h.results)
			recs += len(h.recs)
		}
		c.Class(rows == 0, "no results")
		c.Class(!verify, "no verification output")
		c.Class(!v.plain, "other language")
		c.Class(recs > 3, "more than three warnings")
		c.Case(rows > 1 && recs > 0, "%s", s)
	})
}

// fits tells whether no number is wider than its column.
func fits(row []string) bool {
	for i, w := range []int{23, 11, 13, 11, 11, 11} {
		if len([]rune(row[i])) > w {
			return false
		}
	}
	return true
}

// TestD02_Tabular: the tabular command on damaged files.
func TestD02_Tabular(t *testing.T) {
	kit.Check(t, 800, 20000, siteRule+"the files then get one to four damages each or are replaced by fragments and random bytes; the tabular command reports a setup error or prints without failing; "+
		"non-trivial: it prints something", func(c *kit.C) {
		s := genSite(c)
		damage := func(label, text string) string {
			switch rapid.IntRange(0, 5).Draw(c.T, label) {
			case 0:
				return text
			case 1:
				return string(kit.Rubble(c))
			default:
				return string(kit.Spoil(c, []byte(text)))
			}
		}
		s.bench, s.verify = damage("bench", s.bench), damage("verify", s.verify)
		c.Logf("%s", s)
		out, log, err := tabulate(map[string]string{"b.txt": s.bench, "v.txt": s.verify}, "-bench=b.txt", "-verify=v.txt")
		failed := strings.Contains(log, "Setup error")
		if strings.Contains(log, "goroutine ") || (err != nil && !failed) {
			c.Fatalf("the command crashes: %v\n%s", err, log)
		}
		if !failed && !strings.HasSuffix(out, "\n") {
			c.Fatalf("the output isn't complete:\n%s\n%s", out, log)
		}
		c.Class(failed, "setup error")
		c.Case(len(strings.TrimSpace(out)) > 0, "%s", s)
	})
}
