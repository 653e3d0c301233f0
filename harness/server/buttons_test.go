package server

import (
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/net/html"
)

var (
	reCall = regexp.MustCompile("^\\s*([A-Za-z]+)\\(\\s*(.*?)\\s*\\);?\\s*$")
	reArg  = regexp.MustCompile("^(?:'((?:[^'\\\\]|\\\\.)*)'|\"((?:[^\"\\\\]|\\\\.)*)\"|`((?:[^`\\\\]|\\\\.)*)`|([0-9]+))\\s*(?:,\\s*|$)")
)

// call takes a script apart that calls a function with literals.
func call(script string) (fn string, args []string, ok bool) {
	m := reCall.FindStringSubmatch(script)
	if m == nil {
		return "", nil, false
	}
	for rest := m[2]; rest != ""; {
		a := reArg.FindStringSubmatch(rest)
		if a == nil {
			return "", nil, false
		}
		rest = rest[len(a[0]):]
		args = append(args, unscript(a[1]+a[2]+a[3]+a[4]))
	}
	return m[1], args, true
}

// unscript takes the escapes out of a script's string.
func unscript(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 == len(s) {
			b.WriteByte(s[i])
			continue
		}
		i++
		width := 0
		switch s[i] {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'f':
			b.WriteByte('\f')
		case 'v':
			b.WriteByte('\v')
		case 'b':
			b.WriteByte('\b')
		case 'u':
			width = 4
		case 'x':
			width = 2
		default:
			b.WriteByte(s[i])
		}
		if width > 0 && i+width < len(s) {
			if n, err := strconv.ParseUint(s[i+1:i+1+width], 16, 32); err == nil {
				b.WriteRune(rune(n))
			}
			i += width
		}
	}
	return b.String()
}

// target finds what a button below n shows and hides.
func (v *viewer) target(at string, doc, n *html.Node) *html.Node {
	for _, b := range findAll(n, "button") {
		fn, args, ok := call(attr(b, "onclick"))
		if !ok || len(args) == 0 || !strings.HasPrefix(fn, "toggle") {
			v.c.Fatalf("%s: button %q does %q", at, text(b), attr(b, "onclick"))
		}
		return v.only(at, doc, b, args[0])
	}
	return nil
}

// only finds the one element with an identifier.
func (v *viewer) only(at string, doc, from *html.Node, id string) (out *html.Node) {
	n := 0
	walk(doc, func(e *html.Node) bool {
		if e.Type == html.ElementNode && attr(e, "id") == id {
			out = e
			n++
		}
		return true
	})
	if n != 1 {
		v.c.Fatalf("%s: %q does %q, which is for %d elements with id %q", at, text(from.Parent), attr(from, "onclick"), n, id)
	}
	return out
}

// buttons checks that everything that can be clicked is about one existing element.
func (v *viewer) buttons(at string, doc *html.Node) {
	walk(doc, func(n *html.Node) bool {
		fn, args, ok := call(attr(n, "onclick"))
		if !ok || len(args) == 0 {
			return true
		}
		which := strings.Join(args, "-")
		switch fn {
		case "toggleTableRow":
			if row := v.only(at, doc, n, args[0]); row.Data != "tr" {
				v.c.Fatalf("%s: %s toggles %s", at, attr(n, "onclick"), row.Data)
			}
		case "toggleElement":
			v.only(at, doc, n, args[0])
		case "checkboxElement":
			v.only(at, doc, n, args[0])
			v.only(at, doc, n, args[0]+"-checkbox")
		case "axisDisplay":
			v.only(at, doc, n, "score-checkbox-"+which)
			v.columns(at, doc, n, "axis-data-"+which)
		case "showDataTable":
			v.only(at, doc, n, "score-button-"+which)
			v.only(at, doc, n, "score-table-"+which)
		case "showWarningTable":
			v.only(at, doc, n, "warn-button-"+which)
			v.only(at, doc, n, "warn-table-"+which)
		case "showScoreColumns":
			v.only(at, doc, n, "score-checkbox-"+which)
			v.columns(at, doc, n, "score-column-"+which)
		case "scoreChartSize":
			v.only(at, doc, n, "score-chart-button-"+which)
			v.only(at, doc, n, "score-chart-image-"+which)
		}
		return true
	})
}

func (v *viewer) columns(at string, doc, from *html.Node, class string) {
	found := false
	walk(doc, func(e *html.Node) bool {
		found = found || e.Type == html.ElementNode && hasClass(e, class)
		return !found
	})
	if !found {
		v.c.Fatalf("%s: %s is for elements of class %s, there are none", at, attr(from, "onclick"), class)
	}
}
