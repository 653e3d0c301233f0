package suites

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"runtime"
	"strings"
	"sync"
	"time"
)

// A deviant is a JSON handler that follows the rules of package slog except for chosen deviations.
type deviant struct {
	w     io.Writer
	mu    *sync.Mutex
	opts  slog.HandlerOptions
	level slog.Leveler
	dev   map[string]bool
	ops   *[]op
}

type op struct {
	group string
	attrs []slog.Attr
}

func newDeviant(w io.Writer, opts *slog.HandlerOptions, dev map[string]bool) *deviant {
	h := &deviant{w: w, mu: &sync.Mutex{}, dev: dev, ops: &[]op{}}
	if opts != nil {
		h.opts = *opts
	}
	h.level = h.opts.Level
	switch {
	case dev["default level"] && h.level == nil:
		h.level = slog.LevelDebug
	case h.level == nil:
		h.level = slog.LevelInfo
	case dev["fixed level"]:
		h.level = h.level.Level()
	}
	return h
}

func (h *deviant) Enabled(_ context.Context, level slog.Level) bool {
	if h.dev["level math"] && level%4 != 0 {
		return false
	}
	if h.dev["always enabled"] {
		return true
	}
	return level >= h.level.Level()
}

func (h *deviant) with(o op) slog.Handler {
	if h.dev["shared derivation"] {
		*h.ops = append(*h.ops, o)
		return h
	}
	d := *h
	ops := append((*h.ops)[:len(*h.ops):len(*h.ops)], o)
	d.ops = &ops
	return &d
}

func (h *deviant) WithAttrs(attrs []slog.Attr) slog.Handler {
	if len(attrs) == 0 {
		return h
	}
	if h.dev["lost with"] {
		attrs = attrs[:len(attrs)-1]
	}
	return h.with(op{attrs: attrs})
}

func (h *deviant) WithGroup(name string) slog.Handler {
	if name == "" {
		return h
	}
	if h.dev["no groups"] {
		return h
	}
	return h.with(op{group: name})
}

type field struct {
	key   string
	value any // *object or ready for JSON
}

type object struct {
	fields []field
	attr   bool // made by a group attribute
}

func (h *deviant) Handle(ctx context.Context, r slog.Record) error {
	if h.dev["context"] && ctx != nil && ctx.Err() != nil {
		return nil
	}
	top := &object{}
	h.basics(top, r)
	at, groups := top, []string(nil)
	for _, o := range *h.ops {
		if o.group != "" {
			sub := &object{}
			at.fields = append(at.fields, field{o.group, sub})
			at = sub
			groups = append(groups[:len(groups):len(groups)], o.group)
			continue
		}
		if h.dev["with to top"] {
			h.add(top, o.attrs, groups, true)
		} else {
			h.add(at, o.attrs, groups, true)
		}
	}
	var attrs []slog.Attr
	r.Attrs(func(a slog.Attr) bool {
		attrs = append(attrs, a)
		return true
	})
	if h.dev["deep attributes"] && len(groups) > 2 {
		attrs = nil
	}
	if h.dev["last attribute"] && len(attrs) > 0 {
		attrs = attrs[:len(attrs)-1]
	}
	h.add(at, attrs, groups, false)
	line := h.encode(top)
	if !h.dev["no newline"] {
		line += "\n"
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	_, err := io.WriteString(h.w, line)
	return err
}

// basics are time, level, message and source.
func (h *deviant) basics(top *object, r slog.Record) {
	var attrs []slog.Attr
	if !r.Time.IsZero() || h.dev["zero time"] {
		if h.dev["time format"] {
			attrs = append(attrs, slog.String("time", r.Time.Format(time.RFC1123)))
		} else {
			attrs = append(attrs, slog.Time("time", r.Time))
		}
	}
	level := r.Level.String()
	if h.dev["level name"] && level == "WARN" {
		level = "WARNING"
	}
	if h.dev["level case"] {
		level = strings.ToLower(level)
	}
	attrs = append(attrs, slog.String("level", level))
	key := "msg"
	if h.dev["message key"] {
		key = "message"
	}
	attrs = append(attrs, slog.String(key, r.Message))
	if h.opts.AddSource && (r.PC != 0 || h.dev["zero pc"]) {
		var frame runtime.Frame
		if r.PC != 0 {
			frame, _ = runtime.CallersFrames([]uintptr{r.PC}).Next()
		}
		switch {
		case h.dev["caller"]:
			attrs = append(attrs, slog.String("caller", fmt.Sprintf("%s:%d", frame.File, frame.Line)))
		case h.dev["no source"]:
		case h.dev["source text"]:
			attrs = append(attrs, slog.String("source", fmt.Sprintf("%s:%d", frame.File, frame.Line)))
		default:
			attrs = append(attrs, slog.Any("source", &slog.Source{Function: frame.Function, File: frame.File, Line: frame.Line}))
		}
	}
	repl := h.opts.ReplaceAttr
	if repl == nil || h.dev["no replace"] || h.dev["no basic replace"] {
		for _, a := range attrs {
			top.fields = append(top.fields, field{a.Key, h.value(a.Value, nil)})
		}
		return
	}
	for _, a := range attrs {
		if a = repl(nil, a); !a.Equal(slog.Attr{}) {
			top.fields = append(top.fields, field{a.Key, h.value(a.Value, nil)})
		}
	}
}

func (h *deviant) add(to *object, attrs []slog.Attr, groups []string, with bool) {
	for _, a := range attrs {
		v := a.Value
		if !h.dev["resolver"] {
			v = v.Resolve()
		}
		if v.Kind() == slog.KindGroup {
			if h.dev["lost group attributes"] {
				continue
			}
			if a.Key == "" && !h.dev["inline groups"] {
				h.add(to, v.Group(), groups, with)
				continue
			}
			sub := &object{attr: true}
			h.add(sub, v.Group(), append(groups[:len(groups):len(groups)], a.Key), with)
			to.fields = append(to.fields, field{a.Key, sub})
			continue
		}
		a.Value = v
		if repl := h.opts.ReplaceAttr; repl != nil && !h.dev["no replace"] && !(h.dev["replace in groups"] && len(groups) > 1) {
			a = repl(groups, a)
			a.Value = a.Value.Resolve()
		}
		if a.Equal(slog.Attr{}) {
			if h.dev["empty attributes"] {
				to.fields = append(to.fields, field{"", nil})
			}
			continue
		}
		if a.Key == "" && h.dev["empty names"] {
			continue
		}
		if a.Value.Kind() == slog.KindAny && a.Value.Any() == nil && h.dev["nil values"] {
			continue
		}
		to.fields = append(to.fields, field{a.Key, h.value(a.Value, groups)})
	}
}

func (h *deviant) value(v slog.Value, groups []string) any {
	switch v.Kind() {
	case slog.KindString:
		if h.dev["escapes"] {
			return strings.ReplaceAll(v.String(), "\n", " ")
		}
		if h.dev["tabs"] {
			return strings.ReplaceAll(v.String(), "\t", " ")
		}
		return v.String()
	case slog.KindBool:
		if h.dev["bool text"] {
			return v.String()
		}
		return v.Bool()
	case slog.KindInt64:
		if h.dev["unsigned"] && v.Int64() < 0 {
			return uint64(v.Int64())
		}
		return v.Int64()
	case slog.KindUint64:
		if h.dev["uint text"] {
			return v.String()
		}
		return v.Uint64()
	case slog.KindFloat64:
		if h.dev["short floats"] {
			return float32(v.Float64())
		}
		return v.Float64()
	case slog.KindDuration:
		d := v.Duration()
		switch {
		case h.dev["group nanos"] && len(groups) > 0:
			return d.Nanoseconds()
		case h.dev["duration text"]:
			return d.String()
		case h.dev["duration seconds"]:
			return d.Seconds()
		case h.dev["duration millis"]:
			return d.Milliseconds()
		}
		return d.Nanoseconds()
	case slog.KindTime:
		switch {
		case h.dev["time millis"]:
			return v.Time().Format("2006-01-02T15:04:05.999Z07:00")
		case h.dev["time seconds"]:
			return v.Time().Format(time.RFC3339)
		}
		return v.Time().Format(time.RFC3339Nano)
	case slog.KindLogValuer:
		return &object{attr: true} // resolving is turned off
	default:
		switch x := v.Any().(type) {
		case map[string]any:
			if h.dev["map text"] {
				return fmt.Sprint(x)
			}
		case []string:
			if h.dev["list text"] {
				return fmt.Sprint(x)
			}
		}
		return v.Any()
	}
}

func (h *deviant) empty(o *object) bool {
	for _, f := range o.fields {
		if sub, ok := f.value.(*object); !ok || !h.leave(sub) {
			return false
		}
	}
	return true
}

// leave tells whether an object is left out because there is nothing in it.
func (h *deviant) leave(o *object) bool {
	if !h.empty(o) {
		return false
	}
	if o.attr {
		return !h.dev["resolver"]
	}
	return !h.dev["empty open groups"]
}

func (h *deviant) encode(o *object) string {
	fields := make([]field, 0, len(o.fields))
	for _, f := range o.fields {
		if sub, ok := f.value.(*object); ok && h.leave(sub) {
			continue
		}
		if !h.dev["duplicates"] {
			for i, g := range fields {
				if g.key == f.key {
					fields = append(fields[:i], fields[i+1:]...)
					break
				}
			}
		}
		fields = append(fields, f)
	}
	var b strings.Builder
	b.WriteByte('{')
	for i, f := range fields {
		if i > 0 {
			b.WriteByte(',')
		}
		k, _ := json.Marshal(f.key)
		b.Write(k)
		b.WriteByte(':')
		if sub, ok := f.value.(*object); ok {
			b.WriteString(h.encode(sub))
			continue
		}
		v, err := json.Marshal(f.value)
		if err != nil {
			v = []byte("null")
		}
		b.Write(v)
	}
	b.WriteByte('}')
	return b.String()
}
