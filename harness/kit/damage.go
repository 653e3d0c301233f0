package kit

import (
	"bytes"

	"pgregory.net/rapid"
)

var fragments = []string{
	"Warnings for ", "Warnings for x:", "Warnings for :", ":[", ":[ x", "::", ":: text", ":>", ":> a --> b", ":]", "# Handler[X]=\"x\"", "# Handler[]=\"\"", "# ", "#",
	"Handlers by warning:", "Required", "Implied", "Suggested", "Administrative", "None", "   3 [Duplicates] text", "   99999999999999999999999 [x]", "  [x] 3", "   1 []", "   1 [NotDefined] x",
	"         TestX: text", "           {\"a\":1}", "           + more", "+", "{", "}", "\"", "[", "]", ":", ",", " ", "\t", "\n", "\r", "\x00", "\xff", "ü", "\u2028",
	"BenchmarkA/BenchmarkB-8 \t 100 \t 10 ns/op\t 5.5 MB/s\t 7 B/op\t 8 allocs/op\n", "BenchmarkA/BenchmarkB-99999999999999999999 \t 1 \t 1 ns/op\n", "BenchmarkA/BenchmarkB-8 \t 99999999999999999999 \t 1 ns/op\n",
	"Benchmark/Benchmark- 1 1 ns/op", "BenchmarkA/BenchmarkB-8 1 1 ns/op 99999999999999999999 B/op\n", "BenchmarkA/BenchmarkB 0 0 ns/op\n", "1e999", "0", "-1", "999",
	" 200 |    9.522199ms |             ::1 | GET      \"/chart.svg?tag=samber_zap\"", "|", "||||", "GET \"", "\\", "\\u12", "\\ud800", "{\"a\":{\"fields\":{\"x\":[1,{\"a\":2}]}},\"a\":1}", "true", "nul", "[[[[[", "{\"a\":{\"b\":{",
}

// Spoil damages a text in one to four places.
func Spoil(c *C, text []byte) []byte {
	text = append([]byte{}, text...)
	for n := rapid.IntRange(1, 4).Draw(c.T, "damages"); n > 0; n-- {
		pos := func(label string) int { return rapid.IntRange(0, len(text)).Draw(c.T, label) }
		line := func(label string) (int, int) {
			at := pos(label)
			from := bytes.LastIndexByte(text[:at], '\n') + 1
			to := bytes.IndexByte(text[from:], '\n')
			if to < 0 {
				return from, len(text)
			}
			return from, from + to + 1
		}
		switch kind := rapid.SampledFrom([]string{"truncate", "cut", "insert", "change", "lose line", "double line", "move line", "repeat", "half line"}).Draw(c.T, "kind"); kind {
		case "truncate":
			text = text[:pos("length")]
		case "cut":
			at := pos("from")
			text = append(text[:at:at], text[min(len(text), at+rapid.IntRange(1, 40).Draw(c.T, "bytes")):]...)
		case "insert":
			at := pos("at")
			in := rapid.SampledFrom(fragments).Draw(c.T, "fragment")
			text = append(append(text[:at:at], in...), text[at:]...)
		case "change":
			if at := pos("at"); at < len(text) {
				text[at] = rapid.Byte().Draw(c.T, "byte")
			}
		case "lose line":
			from, to := line("line")
			text = append(text[:from:from], text[to:]...)
		case "double line":
			from, to := line("line")
			text = append(text[:to:to], text[from:]...)
		case "move line":
			from, to := line("line")
			moved := append([]byte{}, text[from:to]...)
			text = append(text[:from:from], text[to:]...)
			from, _ = line("to")
			text = append(append(text[:from:from], moved...), text[from:]...)
		case "repeat":
			from, to := line("line")
			text = append(append(text[:to:to], bytes.Repeat(text[from:to], rapid.IntRange(2, 50).Draw(c.T, "times"))...), text[to:]...)
		case "half line":
			from, to := line("line")
			mid := from + rapid.IntRange(0, to-from).Draw(c.T, "half")
			text = append(text[:mid:mid], text[to:]...)
		}
	}
	return text
}

// Rubble is text made of fragments and bytes.
func Rubble(c *C) []byte {
	var b []byte
	for n := rapid.IntRange(0, 40).Draw(c.T, "pieces"); n > 0; n-- {
		switch rapid.IntRange(0, 5).Draw(c.T, "piece") {
		case 0:
			b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(c.T, "bytes")...)
		case 1:
			b = append(b, '\n')
		default:
			b = append(b, rapid.SampledFrom(fragments).Draw(c.T, "fragment")...)
			if rapid.Bool().Draw(c.T, "eol") {
				b = append(b, '\n')
			}
		}
	}
	return b
}
