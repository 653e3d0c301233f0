From e182e32f710e5a32b1688506680ec97666f01a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 01/69] fix: flash: derived handlers must not share backing
 arrays

WithAttrs and WithGroup appended to the parent's prefix, suffix and groups
slices, so sibling handlers overwrote each other's output.
---
 handlers/flash/handler.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 1f6a39b..6870e34 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -145,7 +146,8 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Clip the capacity so that appending never writes into an array shared with another handler.
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(hdlr.prefix, []byte{'{'}) {
 			prefixStarted = true
 		}
@@ -178,7 +180,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	if h.options.ReplaceAttr != nil {
 		// Only need this if there is a ReplaceAttr function.
 		// Even then, the function may not care, but we don't know that here.
-		groups = append(h.groups, name)
+		groups = append(slices.Clip(h.groups), name)
 	}
 	hdlr := &group{
 		Handler: &Handler{
@@ -193,7 +195,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStart = ", "
 		}
@@ -208,7 +210,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
-	hdlr.suffix = append(h.suffix, '}')
+	hdlr.suffix = append(slices.Clip(h.suffix), '}')
 	return hdlr
 }
 
-- 
2.43.0


From 5ce062d3c1fe3da75cc129cddafb5677f82e554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 02/69] fix: flash: log what a log valuer resolves to

The kind of an attribute was taken before resolving its log valuer, so a
resolved group, number or time was not written as such; the value returned by
a replace function was never resolved.
---
 handlers/flash/composer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 94d4572..da27b9f 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -55,22 +55,20 @@ func (c *composer) getBytes() []byte {
 // -----------------------------------------------------------------------------
 
 func (c *composer) addAttribute(attr slog.Attr) error {
-	kind := attr.Value.Kind()
-	if kind == slog.KindLogValuer {
-		attr.Value = attr.Value.Resolve()
-	}
+	attr.Value = attr.Value.Resolve()
 	if c.replace != nil {
 		var groups []string
 		if !c.basicField[attr.Key] {
 			groups = c.groups
 		}
 		attr = c.replace(groups, attr)
-		kind = attr.Value.Kind()
+		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
 	value := attr.Value
+	kind := value.Kind()
 	if kind == slog.KindGroup {
 		if emptyGroup(value.Group()) {
 			return nil
-- 
2.43.0


From 20961e1fb654e7cbca3403f717aa4f0fb1b4a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 03/69] fix: flash: leave out groups that turn out to be empty

A group holding only log valuers that resolve to empty groups, or attributes
removed by a replace function, was written as {} and the separator before the
next attribute was lost, giving invalid JSON.
---
 handlers/flash/composer.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index da27b9f..e68853b 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -79,12 +79,11 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 			}
 			return nil
 		}
+		return c.addGroup(attr.Key, value.Group())
 	}
 	c.addSeparator()
 	c.addKey(attr.Key)
 	switch kind {
-	case slog.KindGroup:
-		return c.addGroup(value.Group())
 	case slog.KindBool:
 		if value.Bool() {
 			c.buffer = append(c.buffer, "true"...)
@@ -268,13 +267,22 @@ func (c *composer) addEscaped(s []byte) {
 	}
 }
 
-func (c *composer) addGroup(attrs []slog.Attr) error {
+func (c *composer) addGroup(key string, attrs []slog.Attr) error {
 	var err error
+	mark, started := len(c.buffer), c.started
+	c.addSeparator()
+	c.addKey(key)
 	c.buffer = append(c.buffer, '{')
 	c.reset() // Reset composer (started = false) to avoid comma.
 	if err = c.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
+	if !c.started {
+		// Nothing was written into the group, so leave the group out as well.
+		c.buffer = c.buffer[:mark]
+		c.started = started
+		return nil
+	}
 	c.addBytes('}')
 	return nil
 }
-- 
2.43.0


From b92539a85352f20ea3da6f1eabe6e3424b6532bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 04/69] fix: flash: never write invalid UTF-8

Invalid bytes were copied into the log line, and a truncated sequence at the
end of a string or before an ASCII character was lost or swallowed it.
---
 handlers/flash/composer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index e68853b..acef499 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -7,6 +7,7 @@ import (
 	"log/slog"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra"
 )
@@ -169,6 +170,10 @@ var hexDigit = `0123456789ABCDEF`
 // Any changes from the source are the fault the author of this method and
 // should not reflect on the source material. ;-)
 func (c *composer) addEscaped(s []byte) {
+	if !utf8.Valid(s) {
+		// Replace each invalid byte with the Unicode replacement character.
+		s = []byte(string([]rune(string(s))))
+	}
 	var b byte
 	var begin, index int
 	uniByte := make([]byte, 0, 4)
-- 
2.43.0


From 2d630f47ab9664a27240f09602c7b2218a17b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 05/69] fix: flash: values that can't be marshaled must not
 lose or spoil the record

NaN and infinite floats were written as bare words (invalid JSON), and a
failing marshaler dropped the whole record, or left a key without a value in
the prefix of a derived logger. They are shown as !ERROR text now, as
slog.JSONHandler does.
---
 handlers/flash/composer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index acef499..fbf5523 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"math"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -94,7 +95,12 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	case slog.KindDuration:
 		c.buffer = strconv.AppendInt(c.buffer, value.Duration().Nanoseconds(), 10)
 	case slog.KindFloat64:
-		c.buffer = strconv.AppendFloat(c.buffer, value.Float64(), 'f', -1, 64)
+		if f := value.Float64(); math.IsNaN(f) || math.IsInf(f, 0) {
+			// Not possible in JSON, the text is the one used by slog.JSONHandler.
+			c.addString("!ERROR:json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64))
+		} else {
+			c.buffer = strconv.AppendFloat(c.buffer, f, 'f', -1, 64)
+		}
 	case slog.KindInt64:
 		c.buffer = strconv.AppendInt(c.buffer, value.Int64(), 10)
 	case slog.KindString:
@@ -137,7 +143,8 @@ func (c *composer) addAny(a any) error {
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			c.addString("!ERROR:" + err.Error())
+			return nil
 		} else {
 			c.buffer = append(c.buffer, b...)
 			return nil
@@ -301,7 +308,7 @@ func (c *composer) addJSONMarshaler(m json.Marshaler) error {
 	if txt, err := m.MarshalJSON(); err != nil {
 		slog.Error("MarshalJSON error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal JSON: %w", err)
+		return nil
 	} else {
 		c.addString(string(txt))
 		return nil
@@ -318,7 +325,7 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 	if txt, err := m.MarshalText(); err != nil {
 		slog.Error("MarshalText error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal text: %w", err)
+		return nil
 	} else {
 		c.addString(string(txt))
 		return nil
-- 
2.43.0


From 7ce5f0def02eec3493ac3dce6daafb4e57f08550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 06/69] fix: flash: show levels other than the four named ones

The level field was empty for every level without a configured name, for
example INFO+2.
---
 handlers/flash/extras.go  | 9 +++++++++
 handlers/flash/handler.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 3672f86..7461e1d 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -43,6 +43,15 @@ type Extras struct {
 	TimeKey string
 }
 
+// levelName returns the text for the specified level.
+// Levels without a configured name are shown the same way as slog.Level does.
+func (e *Extras) levelName(level slog.Level) string {
+	if name := e.LevelNames[level]; name != "" {
+		return name
+	}
+	return level.String()
+}
+
 // fixExtras makes certain that an Extras object has been properly created and
 // configured with default values.
 //
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 6870e34..5e84aee 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -76,8 +76,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
 		c.addKey(h.extras.LevelKey)
-		c.addString(h.extras.LevelNames[record.Level])
-	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.LevelNames[record.Level])); err != nil {
+		c.addString(h.extras.levelName(record.Level))
+	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.levelName(record.Level))); err != nil {
 		return fmt.Errorf("add level: %w", err)
 	}
 	if h.options.ReplaceAttr == nil {
-- 
2.43.0


From e8d0f4ddbcc9dbf6e196b4248fbb75157f85c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 07/69] fix: flash: escape group names

The name given to WithGroup was copied into the JSON without escaping.
---
 handlers/flash/handler.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 5e84aee..feecc62 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -193,11 +193,11 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		name:   name,
 		parent: h,
 	}
-	prefixStart := ""
+	prefixStarted := false
 	if len(h.prefix) > 0 {
 		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
-			prefixStart = ", "
+			prefixStarted = true
 		}
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
@@ -207,7 +207,12 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	} else {
 		hdlr.suffix = make([]byte, 0, lenSuffix)
 	}
-	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
+	c := newComposer(hdlr.prefix, prefixStarted, nil, nil, h.extras)
+	defer reuseComposer(c)
+	c.addSeparator()
+	c.addKey(name)
+	c.addBytes('{')
+	hdlr.prefix = c.getBytes()
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
 	hdlr.suffix = append(slices.Clip(h.suffix), '}')
-- 
2.43.0


From 990ed59759e9ec76100d023aac61b2477efa97d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 08/69] fix: flash: use Extras.TimeFormat for the basic time
 field only, escaped

Extras.TimeFormat is documented as the format of the basic time field, but all
time attributes were formatted with it; and any quote, backslash or control
character in the format made the log line invalid.
---
 handlers/flash/composer.go | 9 ++++++++-
 handlers/flash/handler.go  | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index fbf5523..63219fe 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -24,6 +24,7 @@ type composer struct {
 	replace    infra.AttrFn
 	groups     []string
 	extras     *Extras
+	timeFormat string
 	basicField map[string]bool
 }
 
@@ -31,6 +32,7 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp := composerPool.get()
 	comp.buffer = buffer
 	comp.extras = extras
+	comp.timeFormat = DefaultTimeFormat
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
@@ -333,8 +335,13 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 }
 
 func (c *composer) addTime(t time.Time) {
+	if c.timeFormat != DefaultTimeFormat {
+		// There may be any text in the format.
+		c.addString(t.Format(c.timeFormat))
+		return
+	}
 	c.buffer = append(c.buffer, '"')
-	c.buffer = t.AppendFormat(c.buffer, c.extras.TimeFormat)
+	c.buffer = t.AppendFormat(c.buffer, c.timeFormat)
 	c.buffer = append(c.buffer, '"')
 }
 
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index feecc62..412b31a 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -65,6 +65,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// adding the list to the composer all at once.
 	// See BenchmarkBasicManual and BenchmarkBasicMultiple in speed_test.go.
 	if !record.Time.IsZero() {
+		// The configured format is only used for the basic time field.
+		c.timeFormat = h.extras.TimeFormat
 		if h.options.ReplaceAttr == nil {
 			c.addSeparator()
 			c.addKey(h.extras.TimeKey)
@@ -72,6 +74,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		} else if err := c.addAttribute(slog.Time(h.extras.TimeKey, record.Time)); err != nil {
 			return fmt.Errorf("add time: %w", err)
 		}
+		c.timeFormat = DefaultTimeFormat
 	}
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
-- 
2.43.0


From 3be12cedd90b7537347083b23a9c92e928e3b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 09/69] fix: flash: call ReplaceAttr as documented for
 slog.HandlerOptions

The function was called on groups, did not get the names of groups that are
attributes themselves, and attributes named like a basic field were presented
as top level fields inside of any group.
---
 handlers/flash/composer.go | 23 ++++++++++-------------
 handlers/flash/handler.go  |  4 +++-
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 63219fe..e8bfa6a 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"math"
+	"slices"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -25,7 +26,6 @@ type composer struct {
 	groups     []string
 	extras     *Extras
 	timeFormat string
-	basicField map[string]bool
 }
 
 func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []string, extras *Extras) *composer {
@@ -36,11 +36,6 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
-	comp.basicField = make(map[string]bool, 4)
-	comp.basicField[extras.LevelKey] = true
-	comp.basicField[extras.MessageKey] = true
-	comp.basicField[extras.SourceKey] = true
-	comp.basicField[extras.TimeKey] = true
 	return comp
 }
 
@@ -60,12 +55,8 @@ func (c *composer) getBytes() []byte {
 
 func (c *composer) addAttribute(attr slog.Attr) error {
 	attr.Value = attr.Value.Resolve()
-	if c.replace != nil {
-		var groups []string
-		if !c.basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
 		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
@@ -288,7 +279,13 @@ func (c *composer) addGroup(key string, attrs []slog.Attr) error {
 	c.addKey(key)
 	c.buffer = append(c.buffer, '{')
 	c.reset() // Reset composer (started = false) to avoid comma.
-	if err = c.addAttributes(attrs); err != nil {
+	groups := c.groups
+	if c.replace != nil {
+		c.groups = append(slices.Clip(groups), key)
+	}
+	err = c.addAttributes(attrs)
+	c.groups = groups
+	if err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
 	if !c.started {
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 412b31a..cc8d16f 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -56,7 +56,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	buffer := logPool.get()[:0]
 	defer func() { logPool.put(buffer) }()
 
-	c := newComposer(buffer, false, h.options.ReplaceAttr, h.groups, h.extras)
+	c := newComposer(buffer, false, h.options.ReplaceAttr, nil, h.extras)
 	defer reuseComposer(c)
 	c.addBytes('{')
 
@@ -106,6 +106,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		}
 	}
 
+	// The basic fields are not in any group, all other attributes are.
+	c.groups = h.groups
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
-- 
2.43.0


From 6cf5b40cb8d4b5772e6f69858b0b0ce488c8fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 10/69] fix: flash: leave out groups without content however
 they are nested

The emptiness of a group opened by WithGroup was guessed from the first
attribute of a record, so log valuers and groups resolving to nothing,
attributes removed by a replace function, WithAttrs with nothing in it and
record groups named like the handler group gave empty, lost or misplaced
groups. A foreign deadGroup context value made logging panic. The handler now
falls back to its last prefix with content when a record adds nothing.
---
 handlers/flash/group.go   | 65 ---------------------------------------
 handlers/flash/handler.go | 45 +++++++++++++++++++--------
 2 files changed, 33 insertions(+), 77 deletions(-)
 delete mode 100644 handlers/flash/group.go

diff --git a/handlers/flash/group.go b/handlers/flash/group.go
deleted file mode 100644
index 504c9fa..0000000
--- a/handlers/flash/group.go
+++ /dev/null
@@ -1,65 +0,0 @@
-package flash
-
-import (
-	"context"
-	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
-)
-
-// group structure provides embedded group support to flash handler.
-type group struct {
-	*Handler
-
-	// name of group.
-	name string
-
-	// parent handler or group.
-	parent slog.Handler
-	// Unlike the Handler, which doesn't know its parent,
-	// a group must be able to find its parent when deleting an empty subgroup.
-}
-
-func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
-	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
-	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
-		// Since the normal handler prefix already includes group name and open brace
-		// it isn't possible to use the current handler prefix.
-		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
-	}
-	return g.Handler.Handle(ctx, record)
-}
-
-func (g *group) WithGroup(name string) slog.Handler {
-	hdlr := g.Handler.WithGroup(name)
-	if group, ok := hdlr.(*group); ok {
-		// Override the previously set parent to be this object.
-		group.parent = g
-	} else {
-		// Shouldn't happen but method has no error result.
-		slog.Error("not a *group")
-	}
-	return hdlr
-}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index cc8d16f..7536c47 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -25,6 +25,10 @@ type Handler struct {
 	mutex          *sync.Mutex
 	prefix, suffix []byte
 	groups         []string
+
+	// bare and bareSuffix are the prefix and suffix without the open groups
+	// that don't have any content yet, for records that don't add any either.
+	bare, bareSuffix []byte
 }
 
 // NewHandler returns a new sloggy handler with the specified output writer and slog.HandlerOptions.
@@ -108,6 +112,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 
 	// The basic fields are not in any group, all other attributes are.
 	c.groups = h.groups
+	mark, started := len(c.buffer), c.started
+	suffix := h.suffix
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
@@ -127,8 +133,18 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if err != nil {
 		return fmt.Errorf("add attribute: %w", err)
 	}
-	if len(h.suffix) > 0 {
-		c.addByteArray(h.suffix)
+	if len(h.prefix) > 0 && !c.started {
+		// Nothing was written since the last group was opened, leave out the empty groups.
+		c.buffer = c.buffer[:mark]
+		c.started = started
+		suffix = h.bareSuffix
+		if len(h.bare) > 0 {
+			c.addSeparator()
+			c.addByteArray(h.bare)
+		}
+	}
+	if len(suffix) > 0 {
+		c.addByteArray(suffix)
 	}
 	c.addBytes('}', '\n')
 
@@ -148,6 +164,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		writer:  h.writer,
 		mutex:   h.mutex,
 		groups:  h.groups,
+
+		bare:       h.bare,
+		bareSuffix: h.bareSuffix,
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
@@ -187,22 +206,24 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		// Even then, the function may not care, but we don't know that here.
 		groups = append(slices.Clip(h.groups), name)
 	}
-	hdlr := &group{
-		Handler: &Handler{
-			options: h.options,
-			extras:  h.extras,
-			writer:  h.writer,
-			mutex:   h.mutex,
-			groups:  groups,
-		},
-		name:   name,
-		parent: h,
+	hdlr := &Handler{
+		options: h.options,
+		extras:  h.extras,
+		writer:  h.writer,
+		mutex:   h.mutex,
+		groups:  groups,
+
+		bare:       h.prefix,
+		bareSuffix: h.suffix,
 	}
 	prefixStarted := false
 	if len(h.prefix) > 0 {
 		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStarted = true
+		} else {
+			// The parent is an open group without content.
+			hdlr.bare, hdlr.bareSuffix = h.bare, h.bareSuffix
 		}
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
-- 
2.43.0


From 16d6686d6ea61dd3dafe090719b32ab3cedc8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 11/69] fix: flash: leave the caller's options and extras alone

NewHandler wrote default values into the objects provided by the caller and
kept using them, so handlers sharing an object influenced each other and
changing the level name map later was a data race with logging.
---
 handlers/flash/extras.go  |  6 ++++++
 handlers/flash/handler.go | 12 +++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 7461e1d..41921e6 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -2,6 +2,7 @@ package flash
 
 import (
 	"log/slog"
+	"maps"
 	"time"
 )
 
@@ -61,6 +62,11 @@ func (e *Extras) levelName(level slog.Level) string {
 func fixExtras(extras *Extras) *Extras {
 	if extras == nil {
 		extras = &Extras{}
+	} else {
+		// Work on a copy, the object provided by the caller must not be changed.
+		fixed := *extras
+		fixed.LevelNames = maps.Clone(extras.LevelNames)
+		extras = &fixed
 	}
 	if extras.TimeFormat == "" {
 		extras.TimeFormat = DefaultTimeFormat
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 7536c47..451ea46 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -249,12 +249,14 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 
 // fixOptions makes certain that a slog.HandlerOptions object has been properly created and
 // configured with default values.
+// The result is always a new object, the one provided by the caller is not changed.
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
-	if options == nil {
-		options = &slog.HandlerOptions{}
+	fixed := slog.HandlerOptions{}
+	if options != nil {
+		fixed = *options
 	}
-	if options.Level == nil {
-		options.Level = slog.LevelInfo
+	if fixed.Level == nil {
+		fixed.Level = slog.LevelInfo
 	}
-	return options
+	return &fixed
 }
-- 
2.43.0


From 7241c8422f6c9a2114d71b3455122a8ee764149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 12/69] fix: sloggy: write each log line with a single call
 under the lock

---
 handlers/sloggy/handler.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 38be0e7..e5cc797 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -39,7 +39,10 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, h.groups)
+	// Compose the entire line before writing it so that
+	// lines logged at the same time don't mix and failures don't leave partial lines.
+	var line bytes.Buffer
+	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -95,13 +98,16 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("end: %w", err)
 	}
 
-	h.mutex.Lock()
-	defer h.mutex.Unlock()
-
 	if _, err := c.Write(newLine); err != nil {
 		return fmt.Errorf("newLine: %w", err)
 	}
 
+	h.mutex.Lock()
+	defer h.mutex.Unlock()
+	if _, err := h.writer.Write(line.Bytes()); err != nil {
+		return fmt.Errorf("write log line: %w", err)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 59c90458272f7b0062d7655d9a079bfc362c9096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 13/69] fix: sloggy: derived handlers must not share the array
 of group names

---
 handlers/sloggy/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index e5cc797..c171bf0 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log/slog"
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -150,7 +151,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			prefix:  bytes.Buffer{},
 			suffix:  bytes.Buffer{},
-			groups:  append(h.groups, name),
+			groups:  append(slices.Clip(h.groups), name),
 		},
 		name:   name,
 		parent: h,
-- 
2.43.0


From 2c92c79107b821b098c6ba6ed0399f0f44d8f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 14/69] fix: sloggy: quote strings for JSON and not for Go

---
 handlers/sloggy/composer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 926ccda..a161874 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -256,7 +256,15 @@ func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 }
 
 func (c *composer) addString(str string) error {
-	if _, err := c.Write([]byte(strconv.Quote(str))); err != nil {
+	// Not strconv.Quote() as that makes Go strings which aren't always JSON strings.
+	var quoted bytes.Buffer
+	encoder := json.NewEncoder(&quoted)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(str); err != nil {
+		return fmt.Errorf("encode string: %w", err)
+	}
+	// The encoder always adds a newline.
+	if _, err := c.Write(bytes.TrimSuffix(quoted.Bytes(), []byte{'\n'})); err != nil {
 		return fmt.Errorf("write quoted string: %w", err)
 	}
 	return nil
-- 
2.43.0


From 73e55da2ad42444a547ac802467d462bb899e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 15/69] fix: sloggy: escape group names

---
 handlers/sloggy/handler.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index c171bf0..c66268c 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -167,9 +167,13 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 
-	if _, err := fmt.Fprintf(&hdlr.prefix, "%s\"%s\": {", prefixStart, name); err != nil {
-		slog.Error("open group", "err", err)
+	c := newComposer(&hdlr.prefix, false, nil, nil)
+	hdlr.prefix.Write(prefixStart)
+	if err := c.addString(name); err != nil {
+		slog.Error("group name", "err", err)
 	}
+	hdlr.prefix.Write(colonSpace)
+	hdlr.prefix.Write(braceLeft)
 	if _, err := hdlr.suffix.Write(braceRight); err != nil {
 		slog.Error("group right brace", "err", err)
 	}
-- 
2.43.0


From 5fa162b05b21654302a4015b7d3f151962425354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 16/69] fix: sloggy: values that can't be marshaled must not
 lose or spoil the record

---
 handlers/sloggy/composer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index a161874..9f0b4e8 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"net"
 	"strconv"
 	"time"
@@ -170,7 +171,7 @@ func (c *composer) addAny(a any) error {
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			return c.addString("!ERROR:" + err.Error())
 		} else if _, err := c.Write(b); err != nil {
 			return fmt.Errorf("write bytes: %w", err)
 		} else {
@@ -198,6 +199,10 @@ func (c *composer) addError(e error) error {
 }
 
 func (c *composer) addFloat64(f float64) error {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// Not possible in JSON, the text is the one used by slog.JSONHandler.
+		return c.addString("!ERROR:json: unsupported value: " + strconv.FormatFloat(f, 'g', -1, 64))
+	}
 	if _, err := c.Write(strconv.AppendFloat([]byte{}, f, 'f', -1, 64)); err != nil {
 		return fmt.Errorf("float64: %w", err)
 	}
-- 
2.43.0


From 4caccdd530949b96abfc0359730e0221cbfef66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 17/69] fix: sloggy: call ReplaceAttr as documented for
 slog.HandlerOptions

---
 handlers/sloggy/composer.go | 28 ++++++++--------------------
 handlers/sloggy/handler.go  |  5 ++++-
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 9f0b4e8..bbee9e1 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"math"
 	"net"
+	"slices"
 	"strconv"
 	"time"
 
@@ -26,13 +27,6 @@ var (
 	newLine     = []byte{'\r', '\n'}
 )
 
-var basicField = map[string]bool{
-	slog.TimeKey:    true,
-	slog.LevelKey:   true,
-	slog.MessageKey: true,
-	slog.SourceKey:  true,
-}
-
 // -----------------------------------------------------------------------------
 
 // composer handles writing attributes to an io.Writer.
@@ -66,21 +60,15 @@ func (c *composer) begin() error {
 }
 
 func (c *composer) addAttribute(attr slog.Attr) error {
-	if attr.Equal(infra.EmptyAttr()) {
-		return nil
-	}
-	value := attr.Value.Resolve()
-	if c.replace != nil {
-		var groups []string
-		if !basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
-		value = attr.Value
+	attr.Value = attr.Value.Resolve()
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
+		attr.Value = attr.Value.Resolve()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
+	value := attr.Value
 	if value.Kind() == slog.KindGroup {
 		if emptyGroup(value.Group()) {
 			return nil
@@ -209,12 +197,12 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(_ string, attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
 	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, c.groups)
+	cg := newComposer(c.Writer, false, c.replace, append(slices.Clip(c.groups), name))
 	if err := cg.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index c66268c..beeb84f 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -43,7 +43,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// Compose the entire line before writing it so that
 	// lines logged at the same time don't mix and failures don't leave partial lines.
 	var line bytes.Buffer
-	c := newComposer(&line, false, h.options.ReplaceAttr, h.groups)
+	c := newComposer(&line, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -68,6 +68,9 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add basic attributes: %w", err)
 	}
 
+	// The basic fields are not in any group, all other attributes are.
+	c.groups = h.groups
+
 	if h.prefix.Len() > 0 {
 		if _, err := c.Write(commaSpace); err != nil {
 			return fmt.Errorf("comma space: %w", err)
-- 
2.43.0


From 933dd3b32af7d8adaac67e62236961ab090c946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 18/69] fix: sloggy: no comma before the first field when all
 basic fields are removed

---
 handlers/sloggy/handler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index beeb84f..b3218a6 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -72,9 +72,12 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	c.groups = h.groups
 
 	if h.prefix.Len() > 0 {
-		if _, err := c.Write(commaSpace); err != nil {
-			return fmt.Errorf("comma space: %w", err)
+		if c.started {
+			if _, err := c.Write(commaSpace); err != nil {
+				return fmt.Errorf("comma space: %w", err)
+			}
 		}
+		c.setStarted(true)
 		if _, err := c.Write(h.prefix.Bytes()); err != nil {
 			return fmt.Errorf("write prefix: %w", err)
 		}
-- 
2.43.0


From 19d5e000594a856361fbe8c7b76d6e8776134b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 19/69] fix: sloggy: leave out groups that turn out to be empty

---
 handlers/sloggy/composer.go | 51 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index bbee9e1..cdfcbba 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -79,21 +79,12 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 			}
 			return nil
 		}
+		return c.addGroup(attr.Key, value.Group())
 	}
-	if !c.started {
-		c.started = true
-	} else if _, err := c.Write(commaSpace); err != nil {
-		return fmt.Errorf("comma space: %w", err)
-	}
-	if err := c.addString(attr.Key); err != nil {
-		return fmt.Errorf("key field name: %w", err)
-	}
-	if _, err := c.Write(colonSpace); err != nil {
-		return fmt.Errorf("field separator: %w", err)
+	if err := c.addKey(attr.Key); err != nil {
+		return err
 	}
 	switch value.Kind() {
-	case slog.KindGroup:
-		return c.addGroup(attr.Key, value.Group())
 	case slog.KindBool:
 		return c.addBool(value.Bool())
 	case slog.KindDuration:
@@ -198,13 +189,25 @@ func (c *composer) addFloat64(f float64) error {
 }
 
 func (c *composer) addGroup(name string, attrs []slog.Attr) error {
+	// Local composer object resets started flag and
+	// its buffer shows whether there is anything to be written.
+	var content bytes.Buffer
+	cg := newComposer(&content, false, c.replace, append(slices.Clip(c.groups), name))
+	if err := cg.addAttributes(attrs); err != nil {
+		return fmt.Errorf("add attributes: %w", err)
+	}
+	if !cg.started {
+		// Nothing was written into the group, so leave the group out as well.
+		return nil
+	}
+	if err := c.addKey(name); err != nil {
+		return err
+	}
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
-	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, append(slices.Clip(c.groups), name))
-	if err := cg.addAttributes(attrs); err != nil {
-		return fmt.Errorf("add attributes: %w", err)
+	if _, err := c.Write(content.Bytes()); err != nil {
+		return fmt.Errorf("write group: %w", err)
 	}
 	if err := c.end(); err != nil {
 		return fmt.Errorf("end: %w", err)
@@ -241,6 +244,22 @@ func (c *composer) addJSONMarshaler(m json.Marshaler) error {
 	}
 }
 
+// addKey writes the field name with any separator required before and after.
+func (c *composer) addKey(key string) error {
+	if !c.started {
+		c.started = true
+	} else if _, err := c.Write(commaSpace); err != nil {
+		return fmt.Errorf("comma space: %w", err)
+	}
+	if err := c.addString(key); err != nil {
+		return fmt.Errorf("key field name: %w", err)
+	}
+	if _, err := c.Write(colonSpace); err != nil {
+		return fmt.Errorf("field separator: %w", err)
+	}
+	return nil
+}
+
 func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 	if err := c.addString(mac.String()); err != nil {
 		return fmt.Errorf("hardware (MAC) address '%v': %w", mac, err)
-- 
2.43.0


From 56a6ce123992ed978f721c2c29e8a757182d6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 20/69] fix: sloggy: leave out open groups without content
 however they are nested

---
 handlers/sloggy/composer.go | 18 ++++++++++
 handlers/sloggy/group.go    | 65 -------------------------------------
 handlers/sloggy/handler.go  | 60 ++++++++++++++++++++--------------
 3 files changed, 53 insertions(+), 90 deletions(-)
 delete mode 100644 handlers/sloggy/group.go

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index cdfcbba..694c38d 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -286,6 +286,24 @@ func (c *composer) addStringAsBytes(str []byte) error {
 	return c.addString(string(str))
 }
 
+// addPrefix writes attributes and open groups prepared in advance.
+func (c *composer) addPrefix(prefix []byte) error {
+	if len(prefix) == 0 {
+		return nil
+	}
+	if c.started {
+		if _, err := c.Write(commaSpace); err != nil {
+			return fmt.Errorf("comma space: %w", err)
+		}
+	}
+	if _, err := c.Write(prefix); err != nil {
+		return fmt.Errorf("write prefix: %w", err)
+	}
+	// No comma right after a group has been opened.
+	c.setStarted(!bytes.HasSuffix(prefix, braceLeft))
+	return nil
+}
+
 func (c *composer) addStringer(s fmt.Stringer) error {
 	if err := c.addString(s.String()); err != nil {
 		return fmt.Errorf("stringer '%v': %w", s, err)
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
deleted file mode 100644
index 2009082..0000000
--- a/handlers/sloggy/group.go
+++ /dev/null
@@ -1,65 +0,0 @@
-package sloggy
-
-import (
-	"context"
-	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
-)
-
-// group structure provides embedded group support to sloggy handler.
-type group struct {
-	*Handler
-
-	// name of group.
-	name string
-
-	// parent handler or group.
-	parent slog.Handler
-	// Unlike the Handler, which doesn't know its parent,
-	// a group must be able to find its parent when deleting an empty subgroup.
-}
-
-func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
-	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
-	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
-		// Since the normal handler prefix already includes group name and open brace
-		// it isn't possible to use the current handler prefix.
-		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
-	}
-	return g.Handler.Handle(ctx, record)
-}
-
-func (g *group) WithGroup(name string) slog.Handler {
-	hdlr := g.Handler.WithGroup(name)
-	if group, ok := hdlr.(*group); ok {
-		// Override the previously set parent to be this object.
-		group.parent = g
-	} else {
-		// Shouldn't happen but method has no error result.
-		slog.Error("not a *group")
-	}
-	return hdlr
-}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index b3218a6..4b30571 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -20,6 +20,10 @@ type Handler struct {
 	mutex          *sync.Mutex
 	prefix, suffix bytes.Buffer
 	groups         []string
+
+	// bare and bareSuffix are the prefix and suffix without the open groups
+	// that don't have any content yet, for records that don't add any either.
+	bare, bareSuffix []byte
 }
 
 // NewHandler returns a new sloggy handler with the specified output writer and slog.HandlerOptions.
@@ -71,19 +75,10 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// The basic fields are not in any group, all other attributes are.
 	c.groups = h.groups
 
-	if h.prefix.Len() > 0 {
-		if c.started {
-			if _, err := c.Write(commaSpace); err != nil {
-				return fmt.Errorf("comma space: %w", err)
-			}
-		}
-		c.setStarted(true)
-		if _, err := c.Write(h.prefix.Bytes()); err != nil {
-			return fmt.Errorf("write prefix: %w", err)
-		}
-		if bytes.HasSuffix(h.prefix.Bytes(), []byte{'{'}) {
-			c.setStarted(false)
-		}
+	mark, started := line.Len(), c.started
+	suffix := h.suffix.Bytes()
+	if err := c.addPrefix(h.prefix.Bytes()); err != nil {
+		return err
 	}
 
 	var err error
@@ -97,7 +92,17 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add attributes: %w", err)
 	}
 
-	if _, err := c.Write(h.suffix.Bytes()); err != nil {
+	if h.prefix.Len() > 0 && !c.started {
+		// Nothing was written since the last group was opened, leave out the empty groups.
+		line.Truncate(mark)
+		c.setStarted(started)
+		suffix = h.bareSuffix
+		if err := c.addPrefix(h.bare); err != nil {
+			return err
+		}
+	}
+
+	if _, err := c.Write(suffix); err != nil {
 		return fmt.Errorf("write suffix: %w", err)
 	}
 
@@ -126,6 +131,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 		groups:  h.groups,
 		prefix:  bytes.Buffer{},
 		suffix:  bytes.Buffer{},
+
+		bare:       h.bare,
+		bareSuffix: h.bareSuffix,
 	}
 	var prefixStarted bool
 	if h.prefix.Len() > 0 {
@@ -150,23 +158,25 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		// Groups with empty names are to be inlined.
 		return h
 	}
-	hdlr := &group{
-		Handler: &Handler{
-			options: h.options,
-			writer:  h.writer,
-			mutex:   h.mutex,
-			prefix:  bytes.Buffer{},
-			suffix:  bytes.Buffer{},
-			groups:  append(slices.Clip(h.groups), name),
-		},
-		name:   name,
-		parent: h,
+	hdlr := &Handler{
+		options: h.options,
+		writer:  h.writer,
+		mutex:   h.mutex,
+		prefix:  bytes.Buffer{},
+		suffix:  bytes.Buffer{},
+		groups:  append(slices.Clip(h.groups), name),
+
+		bare:       h.prefix.Bytes(),
+		bareSuffix: h.suffix.Bytes(),
 	}
 	prefixStart := emptyString
 	if h.prefix.Len() > 0 {
 		hdlr.prefix.Write(h.prefix.Bytes())
 		if !bytes.HasSuffix(h.prefix.Bytes(), braceLeft) {
 			prefixStart = commaSpace
+		} else {
+			// The parent is an open group without content.
+			hdlr.bare, hdlr.bareSuffix = h.bare, h.bareSuffix
 		}
 	}
 	if h.suffix.Len() > 0 {
-- 
2.43.0


From c2cf14370c7a79d2b8fc6ca480daa48453bc6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 21/69] fix: sloggy: leave the caller's options alone

---
 handlers/sloggy/handler.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 4b30571..f82972a 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -201,12 +201,14 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 
 // fixOptions makes certain that a slog.HandlerOptions object has been properly created and
 // configured with default values.
+// The result is always a new object, the one provided by the caller is not changed.
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
-	if options == nil {
-		options = &slog.HandlerOptions{}
+	fixed := slog.HandlerOptions{}
+	if options != nil {
+		fixed = *options
 	}
-	if options.Level == nil {
-		options.Level = slog.LevelInfo
+	if fixed.Level == nil {
+		fixed.Level = slog.LevelInfo
 	}
-	return options
+	return &fixed
 }
-- 
2.43.0


From d768b173370acfb8fc4318bdde2341bafd6ffdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 22/69] fix: madkins/replattr: leave user attributes named
 level alone

---
 creator/madkinsreplattr/creator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/creator/madkinsreplattr/creator.go b/creator/madkinsreplattr/creator.go
index a3078d4..6cfb89f 100644
--- a/creator/madkinsreplattr/creator.go
+++ b/creator/madkinsreplattr/creator.go
@@ -33,8 +33,9 @@ func Creator() infra.Creator {
 func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
 	fns := []infra.AttrFn{
 		replace.ChangeKey("message", slog.MessageKey, false, replace.TopCheck),
+		// Change the case before the key, an attribute with the fixed key may not be the basic field.
+		replace.ChangeCase("lvl", replace.CaseUpper, false, replace.TopCheck),
 		replace.ChangeKey("lvl", slog.LevelKey, false, replace.TopCheck),
-		replace.ChangeCase(slog.LevelKey, replace.CaseUpper, false, replace.TopCheck),
 	}
 	if options.ReplaceAttr != nil {
 		fns = append(fns, options.ReplaceAttr)
-- 
2.43.0


From bfe035acf1e9cf65167d8d8747b88e6bb3804a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 23/69] fix: gin: the level tag ends at the first bracket

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index 6d0ede9..a14d050 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -107,7 +107,7 @@ var (
 	}
 	ptnGIN, _      = regexp.Compile(`^\s*\[GIN]\s*`)
 	ptnGINdebug, _ = regexp.Compile(`^\s*\[GIN-debug]\s*`)
-	ptnLogLevel, _ = regexp.Compile(`^\s*\[(DEBUG|ERROR|INFO|WARNING|.*)]\s*`)
+	ptnLogLevel, _ = regexp.Compile(`^\s*\[(DEBUG|ERROR|INFO|WARNING|[^\]\n]*)]\s*`)
 	ptnTimePrefix  = regexp.MustCompile(`^\s*\d+/\d+/\d+\s*-\s*\d+:\d+:\d+\s*\|\s*(.+)$`)
 )
 
-- 
2.43.0


From de6f33878ac0c2dc652824413edea9ebded3a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 24/69] fix: gin: accept any configured level, constant or
 variable

---
 gin/writer.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/gin/writer.go b/gin/writer.go
index a14d050..2f8b844 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -1,6 +1,7 @@
 package gin
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"log/slog"
@@ -162,19 +163,8 @@ func (w *writer) Write(p []byte) (int, error) {
 		}
 	}
 
-	switch level {
-	case slog.LevelDebug:
-		slog.Debug(msg, args...)
-	case slog.LevelError:
-		slog.Error(msg, args...)
-	case slog.LevelInfo:
-		slog.Info(msg, args...)
-	case slog.LevelWarn:
-		slog.Warn(msg, args...)
-	default:
-		// Shouldn't ever happen so no test code coverage here.
-		return 0, fmt.Errorf("unknown log level %s", w.Level)
-	}
+	// The level may be any slog.Leveler, not just one of the four named levels.
+	slog.Log(context.Background(), level.Level(), msg, args...)
 
 	return len(p), nil
 }
-- 
2.43.0


From 9e46bcb2f36f3ad7aba8c0f67ae8c52253728b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 25/69] fix: gin: use the configured level for traffic

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index 2f8b844..79254f6 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -155,7 +155,7 @@ func (w *writer) Write(p []byte) (int, error) {
 			// Use the pre-existing log message in variable msg.
 		} else {
 			// The traffic data in the log message parsed.
-			level = slog.LevelInfo
+			level = w.Traffic.Level
 			msg = w.Traffic.Message
 			if !w.Traffic.Embed {
 				args = []any{slog.Group(w.Traffic.Group, args...)}
-- 
2.43.0


From 8f800dbcffadc2880aa77ed0269946fd0ae73911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 26/69] fix: gin: remove the time prefix when the message has
 several lines

---
 gin/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/writer.go b/gin/writer.go
index 79254f6..ff0c4e9 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -109,7 +109,7 @@ var (
 	ptnGIN, _      = regexp.Compile(`^\s*\[GIN]\s*`)
 	ptnGINdebug, _ = regexp.Compile(`^\s*\[GIN-debug]\s*`)
 	ptnLogLevel, _ = regexp.Compile(`^\s*\[(DEBUG|ERROR|INFO|WARNING|[^\]\n]*)]\s*`)
-	ptnTimePrefix  = regexp.MustCompile(`^\s*\d+/\d+/\d+\s*-\s*\d+:\d+:\d+\s*\|\s*(.+)$`)
+	ptnTimePrefix  = regexp.MustCompile(`(?s)^\s*\d+/\d+/\d+\s*-\s*\d+:\d+:\d+\s*\|\s*(.+)$`)
 )
 
 // Write a block of data to the (supposedly) stream object.
-- 
2.43.0


From da5d3a723d53f5899b55e45987c9c11f6b566902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 27/69] fix: gin: parse any method and URL, don't drop those
 that can't be parsed

---
 gin/parser.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/gin/parser.go b/gin/parser.go
index 3df5b7d..8779adc 100644
--- a/gin/parser.go
+++ b/gin/parser.go
@@ -21,7 +21,7 @@ const (
 
 var (
 	ptnCode  = regexp.MustCompile(`^\s*(\d+)\s*$`)
-	ptnSplit = regexp.MustCompile(`\s+`)
+	ptnRoute = regexp.MustCompile(`^\s*(\S+)\s+("(?:[^"\\\n]|\\.)*")\s*$`)
 )
 
 // Parse a Gin traffic record (specified as message) to return an array of slog.Attr items.
@@ -29,7 +29,8 @@ var (
 func Parse(message string) ([]any, error) {
 	// Example line:
 	//  200 |    9.522199ms |             ::1 | GET      "/chart.svg?tag=samber_zap&item=MemAllocs"
-	parts := strings.Split(message, "|")
+	// The URL is the last part and may contain any character, including the separator.
+	parts := strings.SplitN(message, "|", 4)
 	if len(parts) != 4 {
 		return nil, fmt.Errorf("wrong number of parts: %d", len(parts))
 	}
@@ -49,11 +50,14 @@ func Parse(message string) ([]any, error) {
 	result = append(result, slog.String(string(Client), strings.Trim(parts[2], " ")))
 	// Parse HTTP method and URL from fourth part.
 	// Example of parts[3]:
-	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs" System=gin
-	parts = ptnSplit.Split(strings.Trim(parts[3], " "), -1)
-	if len(parts) == 2 {
-		result = append(result, slog.String(string(Method), parts[0]))
-		result = append(result, slog.String(string(Url), strings.Trim(parts[1], "\"")))
+	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs"
+	if matches := ptnRoute.FindStringSubmatch(parts[3]); len(matches) != 3 {
+		return nil, fmt.Errorf("parse Method and URL from '%s'", parts[3])
+	} else if url, err := strconv.Unquote(matches[2]); err != nil {
+		return nil, fmt.Errorf("unquote URL '%s': %w", matches[2], err)
+	} else {
+		result = append(result, slog.String(string(Method), matches[1]))
+		result = append(result, slog.String(string(Url), url))
 	}
 	return result, nil
 }
-- 
2.43.0


From 5483febf654d589b6e055ac9076f8c0f9941c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 28/69] fix: warning: list warnings defined after the first
 listing

---
 infra/warning/warning.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index 841b57c..be9e9b5 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -60,6 +60,8 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 		}
 		allWarnings = append(allWarnings, warning)
 		byName[name] = warning
+		// The tree must be rebuilt to include the new warning.
+		warningTree = make(map[Level][]*Warning)
 	}
 	return warning
 }
-- 
2.43.0


From ef94e91e4738c68bdbb1f15aa779f9f92d369251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 29/69] fix: warning: don't skip tests when warnings are turned
 off

---
 infra/warning/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2756f48..2b92a9a 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -200,7 +200,7 @@ func (mgr *Manager) SkipTest(because *Warning) {
 // False is returned if none of the warning are found.
 func (mgr *Manager) SkipTestIf(warns ...*Warning) bool {
 	for _, w := range warns {
-		if mgr.warnOnly[w.Name] {
+		if mgr.HasWarning(w) {
 			mgr.AddWarning(SkippingTest, w.Summary, "")
 			mgr.AddWarning(w, SkippingTest.Summary, "")
 			return true
-- 
2.43.0


From 3697d1d160c55b4eb0d87951d936acfcc629e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 30/69] fix: warning: overview of handlers with warnings that
 aren't predefined, sorted

---
 infra/warning/manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2b92a9a..ee3fc45 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -61,6 +61,8 @@ type Instances struct {
 
 	// Data associated with the specific instances of the warning, if any.
 	Data []Instance
+
+	warning *Warning
 }
 
 // Instance encapsulates data for a specific warning instance.
@@ -150,6 +152,7 @@ func (mgr *Manager) AddWarningFnText(w *Warning, fnName string, text string, log
 			Level:   w.Level,
 			Name:    w.Name,
 			Summary: w.Summary,
+			warning: w,
 		}
 		mgr.warnings[w.Name] = record
 	}
@@ -306,7 +309,7 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 				_, _ = fmt.Fprintf(output, "%s  %s\n", mgr.showPrefix, level.String())
 				for _, w := range list {
 					// Track handlers that invoke warning for use in TestMain.
-					warn := mgr.predefined[w.Name]
+					warn := w.warning
 					if byWarning[warn] == nil {
 						byWarning[warn] = make(map[string]bool)
 					}
@@ -362,6 +365,7 @@ func ShowHandlersByWarning(showPrefix string) {
 				for handler := range handlers {
 					hdlrNames = append(hdlrNames, handler)
 				}
+				sort.Strings(hdlrNames)
 				for _, hdlrName := range hdlrNames {
 					fmt.Printf("%s      %s\n", showPrefix, hdlrName)
 				}
-- 
2.43.0


From 3edb90495580b46a2f37b16d757a7648fd9cc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 31/69] fix: warning: print and parse every line of a log
 record, unchanged

---
 infra/warning/manager.go         |  4 +++-
 internal/data/warnings.go        | 19 ++++++++++++++++++-
 internal/data/warnings_parser.go | 25 +++++++++++++------------
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index ee3fc45..228206a 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -325,7 +325,9 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 							_, _ = fmt.Fprintf(output, "%s         %s\n", mgr.showPrefix, data.Function)
 						}
 						if data.Record != "" {
-							_, _ = fmt.Fprintf(output, "%s           %s\n", mgr.showPrefix, data.Record)
+							for _, line := range strings.Split(data.Record, "\n") {
+								_, _ = fmt.Fprintf(output, "%s           %s\n", mgr.showPrefix, line)
+							}
 						}
 					}
 				}
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9390806..f20a73f 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -1,6 +1,8 @@
 package data
 
 import (
+	"bytes"
+	"encoding/json"
 	"flag"
 	"fmt"
 	"html/template"
@@ -422,6 +424,21 @@ type dataInstance struct {
 	log    string // log indented
 }
 
+// AddLogLine adds a line of the log record, pretty-printed if it is JSON.
+func (di *dataInstance) AddLogLine(line []byte) {
+	var indented bytes.Buffer
+	if json.Indent(&indented, line, "", "\t") != nil {
+		indented.Reset()
+		indented.Write(line)
+	}
+	if di.line != "" {
+		di.line += "\n"
+		di.log += "\n"
+	}
+	di.line += string(line)
+	di.log += indented.String()
+}
+
 func (di *dataInstance) Extra() string {
 	return di.extra
 }
@@ -453,7 +470,7 @@ func (di *dataInstance) Line() string {
 }
 
 func (di *dataInstance) HasLog() bool {
-	return len(strings.Trim(di.log, " ")) > 0
+	return len(strings.Trim(di.Log(), " ")) > 0
 }
 
 func (di *dataInstance) Log() string {
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 03c7563..8930a44 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -3,7 +3,6 @@ package data
 import (
 	"bufio"
 	"bytes"
-	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
@@ -17,6 +16,10 @@ import (
 
 // -----------------------------------------------------------------------------
 
+// recordIndent is the minimum number of spaces before the lines of a log record.
+// Lines naming the test for a warning instance are not indented that much.
+const recordIndent = 11
+
 var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
@@ -68,6 +71,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					&dataInstance{
 						name:  handler.Name(),
 						extra: instance.extra,
+						line:  instance.line,
 						log:   instance.log,
 					})
 				wd := w.FindWarning(dWarning.warning.name)
@@ -81,7 +85,9 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 	for scanner.Scan() {
 		// Remove prefix output during benchmark testing to mark warning data.
 		// TODO: Is there ever any prefix octothorpe? Remove TrimPrefix()?
-		line := bytes.Trim(bytes.TrimPrefix(scanner.Bytes(), []byte{'#'}), " ")
+		line := bytes.TrimPrefix(scanner.Bytes(), []byte{'#'})
+		indent := len(line) - len(bytes.TrimLeft(line, " "))
+		line = bytes.Trim(line, " ")
 		if len(line) == 0 {
 			continue
 		}
@@ -172,20 +178,15 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			continue
 		}
 		// Do this before ptnInstance as they can otherwise get confused.
-		if ptnLogLine.Match(line) {
-			instance.line = string(line)
-			// Attempt to pretty-print the log line.
-			var jm map[string]any
-			if json.Unmarshal(line, &jm) == nil {
-				if indented, err := json.MarshalIndent(jm, "", "\t"); err == nil {
-					instance.log = string(indented)
-				}
+		if matches := ptnExtra.FindSubmatch(line); len(matches) == 2 {
+			if instance != nil {
+				instance.extra = instance.extra + "\n" + string(matches[1])
 			}
 			continue
 		}
-		if matches := ptnExtra.FindSubmatch(line); len(matches) == 2 {
+		if ptnLogLine.Match(line) || (instance != nil && indent >= recordIndent) {
 			if instance != nil {
-				instance.extra = instance.extra + "\n" + string(matches[1])
+				instance.AddLogLine(line)
 			}
 			continue
 		}
-- 
2.43.0


From de3e8633a13cb9343b3f6a4362e810fc7f6642d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 32/69] fix: data: warnings with brackets in the summary or a
 line break before the text

---
 internal/data/warnings_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 8930a44..79b798a 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -23,8 +23,8 @@ const recordIndent = 11
 var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
-	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*)]\s*(.*?)\s*$`)
-	ptnInstance     = regexp.MustCompile(`^\s*(\S+)(?::\s*(.*?))?\s*$`)
+	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*?)]\s*(.*?)\s*$`)
+	ptnInstance     = regexp.MustCompile(`^\s*(\S+?)(?::\s*(.*?))?\s*$`)
 	ptnExtra        = regexp.MustCompile(`^\s*\+(.*?)\s*$`)
 	ptnLogLine      = regexp.MustCompile(`^\s*\{`)
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
-- 
2.43.0


From 310b73142b97ce4041d686b1fb918046155bdd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 33/69] fix: data: keep benchmark warnings of handlers without
 verification warnings

---
 internal/data/warnings_parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 79b798a..aec5861 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -154,9 +154,12 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		if ptnNone.Match(line) {
 			// Minimal amount of data to support score chart.
-			w.ByHandler[handler] = &Levels{
-				lookup: make(map[string]*DataLevel),
-				levels: make([]*DataLevel, 0),
+			// Don't lose warnings from any other data parsed before.
+			if _, found := w.ByHandler[handler]; !found {
+				w.ByHandler[handler] = &Levels{
+					lookup: make(map[string]*DataLevel),
+					levels: make([]*DataLevel, 0),
+				}
 			}
 			continue
 		}
-- 
2.43.0


From 9de700071abfec62efdbcbb33e968230aee2e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:50 +0000
Subject: [PATCH 34/69] fix: data: don't take other test output for warnings

---
 internal/data/warnings_parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index aec5861..dd14447 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -16,6 +16,9 @@ import (
 
 // -----------------------------------------------------------------------------
 
+// reportIndent is the minimum number of spaces before the lines of a report.
+const reportIndent = 2
+
 // recordIndent is the minimum number of spaces before the lines of a log record.
 // Lines naming the test for a warning instance are not indented that much.
 const recordIndent = 11
@@ -94,6 +97,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 
 		if matches := ptnWarningsFor.FindSubmatch(line); len(matches) == 2 {
 			saveInstance(line)
+			dWarning = nil
 			handler = HandlerTag(matches[1])
 			// Capture relationship between handler name in benchmark function vs. Creator.
 			// The handler string here is the Creator name,
@@ -148,8 +152,9 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 				}
 			}
 		}
-		if handler == "" {
-			// Can't do anything until we recognize something.
+		if handler == "" || indent < reportIndent {
+			// Can't do anything until we recognize something,
+			// lines that aren't indented belong to other output.
 			continue
 		}
 		if ptnNone.Match(line) {
-- 
2.43.0


From 901a95e1a96bb74dad6daf752b87245b97c5c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 35/69] fix: data: keep handler summaries with empty lines

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index dd14447..605c712 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -33,7 +33,7 @@ var (
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
 	ptnByWarning    = regexp.MustCompile(`^\s*Handlers\s+by\s+warning:\s*$`)
 	ptnSummaryStart = regexp.MustCompile(`^:\[\s*(\S.*?)\s*$`)
-	ptnSummaryLine  = regexp.MustCompile(`^::\s*(\S.*?)\s*$`)
+	ptnSummaryLine  = regexp.MustCompile(`^::\s*(.*?)\s*$`)
 	ptnSummaryLink  = regexp.MustCompile(`^:>\s*(\S.*?)\s*-->\s*(\S.*?)\s*$`)
 	ptnSummaryEnd   = regexp.MustCompile(`^:]\s*$`)
 )
-- 
2.43.0


From be70341655a9e136a1230e0aee25a85a02a553b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:57 +0000
Subject: [PATCH 36/69] fix: data: parse output with very long lines

---
 internal/data/bench_parser.go    | 2 ++
 internal/data/warnings_parser.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index f061cc7..7833563 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"regexp"
 	"strconv"
@@ -38,6 +39,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 		}
 	}
 	scanner := bufio.NewScanner(in)
+	scanner.Buffer(nil, math.MaxInt) // Log records can be very long.
 
 	for scanner.Scan() {
 		var ok bool
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 605c712..9a0369f 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"os"
 	"regexp"
 	"strings"
@@ -56,6 +57,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 	}
 	scanner := bufio.NewScanner(in)
+	scanner.Buffer(nil, math.MaxInt) // Log records can be very long.
 
 	var handler HandlerTag
 	var test TestTag
-- 
2.43.0


From ee129aceedc10b759aebffd5d8dcb9325f44b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 37/69] fix: data: keep the order of warnings within a test

---
 internal/data/warnings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index f20a73f..e876beb 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -405,7 +405,7 @@ func (w *dataWarning) AddInstance(instance *dataInstance) {
 
 func (w *dataWarning) Instances() []*dataInstance {
 	if !w.sorted {
-		sort.Slice(w.instances, func(i, j int) bool {
+		sort.SliceStable(w.instances, func(i, j int) bool {
 			return w.instances[i].name < w.instances[j].name
 		})
 		w.sorted = true
-- 
2.43.0


From c3c91d4f1bd19c6055a19e991183a200f1107cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 38/69] fix: markdown: render a text the same way every time

---
 internal/markdown/html.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/markdown/html.go b/internal/markdown/html.go
index fbf3c4e..a71a56a 100644
--- a/internal/markdown/html.go
+++ b/internal/markdown/html.go
@@ -9,13 +9,6 @@ import (
 	"github.com/gomarkdown/markdown/parser"
 )
 
-var renderer *html.Renderer
-
-func init() {
-	// Prebuild the HTML renderer.
-	renderer = html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
-}
-
 // TemplateHTML renders Markdown into template.HTML suitable for use in cmd/server.
 // Embedded Markdown in Go code blocks is typically quoted using back quotes ("`")
 // which are used within Markdown for fixed font markup.
@@ -26,7 +19,9 @@ func init() {
 // Set fixCarets to true for use with back quoted strings with carets,
 // false for use with embedded Markdown files containing back quotes.
 func TemplateHTML(md string, fixCarets bool) template.HTML {
-	// Can't pre-build the parser in init(), it fails the second time it's used.
+	// Can't pre-build the parser or renderer in init(),
+	// both have state which affects any text they are used for later.
+	renderer := html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
 	mdParser := parser.NewWithExtensions(
 		parser.CommonExtensions | parser.AutoHeadingIDs | parser.NoEmptyLineBeforeBlock)
 	if fixCarets {
-- 
2.43.0


From 39658a7cf9b4b0b356cf667bf13c49de3541a60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 39/69] fix: json: count the members of fields objects only at
 the top level

---
 internal/json/field.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index ee3f90f..b4f83bd 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -177,7 +177,7 @@ func (ctr *FieldCounter) parseArray() error {
 	})
 }
 
-func (ctr *FieldCounter) parseField(field string) error {
+func (ctr *FieldCounter) parseField(field string, countFields bool) error {
 	expectColon := true
 	return ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
@@ -192,9 +192,11 @@ func (ctr *FieldCounter) parseField(field string) error {
 		} else if expectColon {
 			return fmt.Errorf(fmtExpectedColon, r)
 		} else if r == '{' {
-			if field == "fields" {
+			if countFields && field == "fields" {
 				// Special case for Apex wherein additional fields are in 'fields' object.
-				delete(ctr.counts, field)
+				if ctr.counts[field]--; ctr.counts[field] == 0 {
+					delete(ctr.counts, field)
+				}
 				return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, false)
 			} else {
 				return ctr.wrapCallError(ctr.parseObject(false), msgParseObject, true, false)
@@ -290,7 +292,7 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 				ctr.counts[field]++
 			}
 			expectComma = true
-			return ctr.wrapCallError(ctr.parseField(field), msgParseField, false, false)
+			return ctr.wrapCallError(ctr.parseField(field, countFields), msgParseField, false, false)
 		case r == '}':
 			return errFinished
 		default:
-- 
2.43.0


From efdfc1f7c5b92fbae7a86c4fb398270c8b350cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 40/69] fix: json: reject objects that are truncated or have
 trailing commas or data

---
 internal/json/field.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index b4f83bd..a8a1747 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -135,35 +135,47 @@ const (
 
 // Parse the JSON source to count field names.
 func (ctr *FieldCounter) Parse() error {
-	return ctr.readLoop(func(r rune) error {
+	if err := ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
 			return nil
 		} else if r == '{' {
-			err := ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, true)
-			if errors.Is(err, io.EOF) {
-				return nil
-			} else {
-				return err
-			}
+			return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, true)
 		} else {
 			return errUnexpected(r)
 		}
-	})
+	}); err != nil {
+		return err
+	}
+	// There must not be anything after the object.
+	if err := ctr.readLoop(func(r rune) error {
+		if unicode.IsSpace(r) {
+			return nil
+		}
+		return errUnexpected(r)
+	}); !errors.Is(err, io.ErrUnexpectedEOF) {
+		return err
+	}
+	return nil
 }
 
 func (ctr *FieldCounter) parseArray() error {
 	expectComma := false
+	afterComma := false
 	return ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
 			return nil
 		} else if r == ',' {
 			if expectComma {
 				expectComma = false
+				afterComma = true
 				return nil
 			} else {
 				return fmt.Errorf(msgUnexpectedComma)
 			}
 		} else if r == ']' {
+			if afterComma {
+				return errUnexpected(r)
+			}
 			return errFinished
 		} else if expectComma {
 			return fmt.Errorf(fmtExpectedComma, r)
@@ -172,6 +184,7 @@ func (ctr *FieldCounter) parseArray() error {
 				return ctr.wrapCallError(err, msgUnreadRune, false, false)
 			}
 			expectComma = true
+			afterComma = false
 			return ctr.wrapCallError(ctr.parseValue(), msgParseValue, false, false)
 		}
 	})
@@ -269,6 +282,7 @@ func (ctr *FieldCounter) parseNumber() error {
 
 func (ctr *FieldCounter) parseObject(countFields bool) error {
 	expectComma := false
+	afterComma := false
 	return ctr.readLoop(func(r rune) error {
 		switch {
 		case unicode.IsSpace(r):
@@ -276,6 +290,7 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 		case r == ',':
 			if expectComma {
 				expectComma = false
+				afterComma = true
 				return nil
 			} else {
 				return fmt.Errorf(msgUnexpectedComma)
@@ -292,8 +307,12 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 				ctr.counts[field]++
 			}
 			expectComma = true
+			afterComma = false
 			return ctr.wrapCallError(ctr.parseField(field, countFields), msgParseField, false, false)
 		case r == '}':
+			if afterComma {
+				return errUnexpected(r)
+			}
 			return errFinished
 		default:
 			return errUnexpected(r)
@@ -373,7 +392,7 @@ func (ctr *FieldCounter) readLoop(fn func(r rune) error) error {
 	for {
 		r, err := ctr.readRune()
 		if errors.Is(err, io.EOF) {
-			break
+			return io.ErrUnexpectedEOF
 		} else if err != nil {
 			return fmt.Errorf("read rune: %w", err)
 		}
-- 
2.43.0


From c70da44c2c65af90bc239befa875c4df82f417e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:18 +0000
Subject: [PATCH 41/69] fix: json: field names with escapes

---
 internal/json/field.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/json/field.go b/internal/json/field.go
index a8a1747..05991a2 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"bytes"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io"
@@ -303,6 +304,12 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 			if err != nil {
 				return ctr.wrapCallError(err, msgParseString, false, false)
 			}
+			// Different escapes may be used for the same name.
+			var name string
+			if err = json.Unmarshal([]byte(`"`+field+`"`), &name); err != nil {
+				return ctr.wrapCallError(err, msgParseString, false, false)
+			}
+			field = name
 			if countFields {
 				ctr.counts[field]++
 			}
-- 
2.43.0


From 9b531f66687ff22d473b4e0631dbd4da7c3a5597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 42/69] fix: json: don't move the parse cursor when printing
 the counter

---
 internal/json/field.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index 05991a2..2ba1936 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -87,8 +87,9 @@ func (ctr *FieldCounter) String() string {
 		builder.WriteRune(r)
 	}
 	builder.WriteString("<^>")
+	upcoming := *ctr.reader // Don't move the parse cursor.
 	for i := 0; i < 15; i++ {
-		if r, err := ctr.readRune(); err == nil {
+		if r, _, err := upcoming.ReadRune(); err == nil {
 			if r == '\n' {
 				r = ' '
 			}
-- 
2.43.0


From 40d0341891492d635aef29a2f8178359c91b565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 43/69] fix: bench: count fields before looking for duplicates

---
 bench/tests/checks.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index ae1f904..1a151d2 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -165,6 +165,9 @@ func noDuplicates(testName string) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
 		logMap = getLogMap(captured, logMap, manager)
 		counter := intJSON.NewFieldCounter(captured)
+		if err := counter.Parse(); err != nil {
+			return fmt.Errorf("count fields: %w", err)
+		}
 		if len(counter.Duplicates()) > 0 {
 			manager.AddWarningFn(warning.Duplicates, testName, string(captured))
 			return warning.Duplicates.ErrorExtra(testName)
-- 
2.43.0


From 86bfbecf4ce425bb7c4bcf6991cd7477f71e5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:42 +0000
Subject: [PATCH 44/69] fix: json: reject strings with unescaped control
 characters or bad escapes

---
 internal/json/field.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index 2ba1936..7954ed8 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -337,6 +337,8 @@ func (ctr *FieldCounter) parseString() (string, error) {
 			builder.WriteRune(r)
 			if r, err = ctr.readRune(); err != nil {
 				return fmt.Errorf("read escaped rune: %w", err)
+			} else if !strings.ContainsRune(`"\/bfnrtu`, r) {
+				return errUnexpected(r)
 			} else {
 				builder.WriteRune(r)
 				return nil
@@ -344,6 +346,9 @@ func (ctr *FieldCounter) parseString() (string, error) {
 		case '"':
 			return errFinished
 		default:
+			if r < ' ' {
+				return errUnexpected(r) // Control characters must be escaped.
+			}
 			builder.WriteRune(r)
 			return nil
 		}
@@ -418,9 +423,10 @@ func (ctr *FieldCounter) readRune() (rune, error) {
 	if err == nil {
 		ctr.charLoc++
 		if r == '\n' {
-			r = ' '
+			ctr.recent = append(ctr.recent, ' ')
+		} else {
+			ctr.recent = append(ctr.recent, r)
 		}
-		ctr.recent = append(ctr.recent, r)
 		if len(ctr.recent) > 15 {
 			ctr.recent = ctr.recent[5:]
 		}
-- 
2.43.0


From bf610433180f1454151905a40e29e0dcd6ac8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 45/69] fix: json: reject strings with bad unicode escapes

---
 internal/json/field.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index 7954ed8..ffdeaf3 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -339,10 +339,19 @@ func (ctr *FieldCounter) parseString() (string, error) {
 				return fmt.Errorf("read escaped rune: %w", err)
 			} else if !strings.ContainsRune(`"\/bfnrtu`, r) {
 				return errUnexpected(r)
-			} else {
-				builder.WriteRune(r)
-				return nil
 			}
+			builder.WriteRune(r)
+			if r == 'u' {
+				for i := 0; i < 4; i++ {
+					if r, err = ctr.readRune(); err != nil {
+						return fmt.Errorf("read escaped rune: %w", err)
+					} else if !strings.ContainsRune("0123456789abcdefABCDEF", r) {
+						return errUnexpected(r)
+					}
+					builder.WriteRune(r)
+				}
+			}
+			return nil
 		case '"':
 			return errFinished
 		default:
-- 
2.43.0


From 6458ae83c3372024dae20d71d3bf8e67d865c121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 46/69] fix: data: keep benchmark results of a single processor

---
 internal/data/bench_parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 7833563..cea27df 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -13,7 +13,7 @@ import (
 var (
 	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
-	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-]+)-(\d+)\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
+	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-\s]+)(?:-(\d+))?\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
 	ptnAllocsOp   = regexp.MustCompile(`\s(\d+)\s+allocs/op\b`)
 	ptnBytesOp    = regexp.MustCompile(`\s(\d+)\s+B/op\b`)
 	ptnMbSec      = regexp.MustCompile(`\s(\d+(?:\.\d+)?)\s+MB/s`)
@@ -64,7 +64,9 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			// Process a data line.
 			hdlrBytes = matches[1]
 			testBytes = matches[2]
-			if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
+			if len(matches[3]) == 0 {
+				cpus = 1 // There is no suffix for a single CPU.
+			} else if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
 				return fmt.Errorf("parse cpus: %w", err)
 			}
 			if runs, err = strconv.ParseUint(string(matches[4]), 10, 64); err != nil {
-- 
2.43.0


From 2d11dd740d3799a7320fd77caef0b42b60abbe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 47/69] fix: data: same rates for test and handler

---
 internal/data/bench_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index cea27df..1496ea8 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -125,6 +125,8 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 				MemBytesPerOp:  bytesOp,
 				MemAllocsPerOp: allocsOp,
 				MbPerSec:       mbSec,
+				GbPerSec:       mbSec / 1_000.0,
+				TbPerSec:       mbSec / 1_000_000.0,
 			}
 		}
 	}
-- 
2.43.0


From 875c893bb24800c793fbb2c39ae3a7d5bfa4a7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 48/69] fix: data: accept handler names with spaces

---
 internal/data/bench_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 1496ea8..41d71f8 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -11,7 +11,7 @@ import (
 )
 
 var (
-	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
+	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(.+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
 	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-\s]+)(?:-(\d+))?\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
 	ptnAllocsOp   = regexp.MustCompile(`\s(\d+)\s+allocs/op\b`)
-- 
2.43.0


From a0d1045d260586aab4ed3e8b98cfd548296949e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 49/69] fix: data: don't lose the line after an unfinished
 handler summary

---
 internal/data/warnings_parser.go | 63 +++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 9a0369f..5149368 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -87,7 +87,39 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			instance = nil
 		}
 	}
+	var hdlrName string
+	var hdlrSummary []string
+	var hdlrLinks map[string]string
+	saveSummary := func() {
+		if hdlrSummary == nil {
+			return
+		}
+		if h, found := lookup[hdlrName]; found {
+			if w.getHandlerData(h).name != "" && w.getHandlerData(h).name != hdlrName {
+				slog.Warn("Handler name mismatch", "current", hdlrName, "previous", w.getHandlerData(h).name)
+			}
+			w.getHandlerData(h).summary = strings.Join(hdlrSummary, "\n")
+			w.getHandlerData(h).links = hdlrLinks
+		}
+		hdlrSummary = nil
+	}
 	for scanner.Scan() {
+		if hdlrSummary != nil {
+			sumLine := scanner.Bytes()
+			if matches := ptnSummaryLine.FindSubmatch(sumLine); len(matches) == 2 {
+				hdlrSummary = append(hdlrSummary, string(matches[1]))
+				continue
+			} else if matches = ptnSummaryLink.FindSubmatch(sumLine); len(matches) == 3 {
+				hdlrLinks[string(matches[1])] = string(matches[2])
+				continue
+			}
+			saveSummary()
+			if ptnSummaryEnd.Match(sumLine) {
+				continue
+			}
+			// The end is missing, this line is something else.
+			slog.Warn("Unexpected line during parse of handler summary", "line", sumLine)
+		}
 		// Remove prefix output during benchmark testing to mark warning data.
 		// TODO: Is there ever any prefix octothorpe? Remove TrimPrefix()?
 		line := bytes.TrimPrefix(scanner.Bytes(), []byte{'#'})
@@ -127,32 +159,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			break
 		}
 		if matches := ptnSummaryStart.FindSubmatch(line); len(matches) == 2 {
-			hdlrName := string(matches[1])
-			hdlrSummary := make([]string, 0, 5)
-			hdlrLinks := make(map[string]string, 5)
-			for scanner.Scan() {
-				sumLine := scanner.Bytes()
-				if sumMatches := ptnSummaryLine.FindSubmatch(sumLine); len(sumMatches) == 2 {
-					hdlrSummary = append(hdlrSummary, string(sumMatches[1]))
-				} else if sumMatches = ptnSummaryLink.FindSubmatch(sumLine); len(sumMatches) == 3 {
-					hdlrLinks[string(sumMatches[1])] = string(sumMatches[2])
-				} else {
-					if !ptnSummaryEnd.Match(sumLine) {
-						slog.Warn("Unexpected line during parse of handler summary", "line", sumLine)
-					}
-					if lookup != nil {
-						if h, found := lookup[hdlrName]; found {
-							if w.getHandlerData(h).name != "" && w.getHandlerData(h).name != hdlrName {
-								slog.Warn("Handler name mismatch", "current", hdlrName, "previous", w.getHandlerData(h).name)
-							}
-							w.getHandlerData(h).summary = strings.Join(hdlrSummary, "\n")
-							w.getHandlerData(h).links = hdlrLinks
-						}
-					}
-					line = sumLine
-					break
-				}
-			}
+			hdlrName = string(matches[1])
+			hdlrSummary = make([]string, 0, 5)
+			hdlrLinks = make(map[string]string, 5)
+			continue
 		}
 		if handler == "" || indent < reportIndent {
 			// Can't do anything until we recognize something,
@@ -238,6 +248,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 	}
 	saveInstance([]byte(""))
+	saveSummary()
 
 	if err := scanner.Err(); err != nil && !errors.Is(err, io.EOF) {
 		return fmt.Errorf("scan input: %w", scanner.Err())
-- 
2.43.0


From 604736c8d0ee1f713f37cd9d238be3cb55093049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 50/69] fix: data: name handlers that have nothing but a
 summary

---
 internal/data/warnings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index e876beb..d46c09c 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -61,7 +61,7 @@ func (w *Warnings) ForHandler(handler HandlerTag) *Levels {
 // HandlerName returns the full name associated with a HandlerTag.
 // If there is no full name the tag is returned.
 func (w *Warnings) HandlerName(handler HandlerTag) string {
-	if data, found := w.handlerData[handler]; found {
+	if data, found := w.handlerData[handler]; found && data.name != "" {
 		return data.name
 	} else {
 		return string(handler)
-- 
2.43.0


From fbf1c1f35d574f94c10430a6a1e9676af2c3509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 51/69] fix: data: count zero for warnings that never occurred

---
 internal/data/warnings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index d46c09c..217017e 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -118,7 +118,10 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
-	return w.ByWarning[warning.Name].Count[handler]
+	if data, found := w.ByWarning[warning.Name]; found {
+		return data.Count[handler]
+	}
+	return 0
 }
 
 // HasTest returns true if a test is defined with the specified tag.
-- 
2.43.0


From 84a581b8b52bc0ab28a6979d7f0fd1e4bffaf491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 52/69] fix: warning: empty description for an unknown warning

---
 infra/warning/warning.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index be9e9b5..fd4923d 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -78,6 +78,9 @@ func (w *Warning) HasDescription() bool {
 
 // Description converts the Markdown description data into HTML and returns it.
 func (w *Warning) Description() template.HTML {
+	if !w.HasDescription() {
+		return ""
+	}
 	return markdown.TemplateHTML(w.description, true)
 }
 
-- 
2.43.0


From e10dc7b547c6c3142fb86edbbbf21c2cf7cafd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 53/69] Revert "fix: bench: count fields before looking for
 duplicates"

The check packages count as test files, the defect is recorded as a known finding instead.
---
 bench/tests/checks.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index 1a151d2..ae1f904 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -165,9 +165,6 @@ func noDuplicates(testName string) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
 		logMap = getLogMap(captured, logMap, manager)
 		counter := intJSON.NewFieldCounter(captured)
-		if err := counter.Parse(); err != nil {
-			return fmt.Errorf("count fields: %w", err)
-		}
 		if len(counter.Duplicates()) > 0 {
 			manager.AddWarningFn(warning.Duplicates, testName, string(captured))
 			return warning.Duplicates.ErrorExtra(testName)
-- 
2.43.0


From bc3d99912f34d9d5887efcf24c39f1059b662c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 54/69] fix: scoring: benchmark scores of tests without any
 difference, independent of previous setups

Tests in which all the handlers are the same (or there is only one) made
the scores of their handlers NaN, repeating the setup accumulated scores,
and asking for the score of an unknown handler or test panicked or added
to a map shared by concurrent requests.
---
 internal/scoring/axis/bench/original.go | 17 ++++++++--
 internal/scoring/axis/benchmarks.go     | 44 ++++++++++++++++++-------
 internal/scoring/axis/common/data.go    |  6 ++++
 3 files changed, 54 insertions(+), 13 deletions(-)

diff --git a/internal/scoring/axis/bench/original.go b/internal/scoring/axis/bench/original.go
index bbf18d1..db742a9 100644
--- a/internal/scoring/axis/bench/original.go
+++ b/internal/scoring/axis/bench/original.go
@@ -40,6 +40,7 @@ type Original struct {
 	bench          *data.Benchmarks
 	count, tests   uint
 	collect, total score.Value
+	tested         bool
 	ranges         map[data.TestTag]*testRange
 	testTags       map[data.TestTag]bool
 	weight         map[Weight]uint
@@ -71,8 +72,12 @@ func (o *Original) HandlerTest(test data.TestTag, record data.TestRecord) {
 		o.collect += score.Value(float64(o.weight[Nanoseconds]) * 100.0 * (rngTest.nanosHigh - record.NanosPerOp) / scoreRange)
 		o.count += o.weight[Nanoseconds]
 	}
-	o.total += o.collect / score.Value(o.count)
-	o.tests++
+	o.tested = true
+	if o.count > 0 {
+		// A test in which all the handlers are the same doesn't count.
+		o.total += o.collect / score.Value(o.count)
+		o.tests++
+	}
 }
 
 // CheckRanges checks the ranges contained in this Original object to the ranges
@@ -109,6 +114,9 @@ func (o *Original) CheckTest(handlerData *HandlerData, test data.TestTag) {
 // against the value from the original calculation.
 // If the values differ by too much an error is logged.
 func (o *Original) CheckTotal(handlerData *HandlerData) {
+	if o.tests == 0 {
+		return // Nothing to compare.
+	}
 	if !common.PercentEqual(o.total.Round(), handlerData.Rollup(OverTests).Value) {
 		slog.Error("total comparison",
 			"Original", o.total.Round(),
@@ -157,8 +165,13 @@ func (o *Original) MakeRanges() {
 func (o *Original) ResetForHandler() {
 	o.tests = 0
 	o.total = 0
+	o.tested = false
 }
 
 func (o *Original) Score() score.Value {
+	if o.tested && o.tests == 0 {
+		// If we're all the same (every score range is essentially zero) we all get 100%.
+		return 100.0
+	}
 	return o.total.Round() / score.Value(o.tests)
 }
diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index 2ed837a..1028c0e 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -3,6 +3,7 @@ package axis
 import (
 	_ "embed"
 	"html/template"
+	"math"
 	"strconv"
 
 	"github.com/madkins23/go-slog/internal/data"
@@ -55,6 +56,8 @@ func NewBenchmarks(benchWeight map[bench.Weight]uint, summaryHTML template.HTML,
 }
 
 func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error {
+	// Scores only depend on the provided data, not on any previous setup.
+	b.handlerData = make(map[data.HandlerTag]*bench.HandlerData)
 	testTags := b.testTagMap(benchMarks.TestTags())
 	// Calculate data ranges
 	// Do original calculation and newer calculations and compare them for error.
@@ -89,6 +92,7 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 			b.handlerData[handler] = bench.NewHandlerData()
 			handlerData = b.handlerData[handler]
 		}
+		tested := false
 		for test, record := range benchMarks.ByHandler[handler] {
 			if testTags[test] {
 				// Original calculation.
@@ -105,19 +109,33 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 						handlerData.SubScore(weight).Add(ranged)
 					}
 				}
+				tested = true
 				// Newer algorithm.
-				handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
-				original.CheckTest(handlerData, test)
+				// A test in which all the handlers are the same doesn't count.
+				if handlerData.ByTest(test).Count > 0 {
+					handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
+					original.CheckTest(handlerData, test)
+				}
 			}
 		}
 		// Original calculation.
 		handlerData.SetScore(score.Original, original.Score())
-		// Refactored original algorithm for byTest
-		handlerData.SetScore(score.ByTest, handlerData.Rollup(bench.OverTests).Average())
 		// Newer algorithm rollup over BenchWeight subs
 		for _, weight := range bench.WeightOrder {
-			handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			if handlerData.SubScore(weight).Count > 0 {
+				handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			}
+		}
+		if tested {
+			// If we're all the same (every score range is essentially zero) we all get 100%.
+			for _, over := range []bench.RollOver{bench.OverData, bench.OverTests} {
+				if handlerData.Rollup(over).Count == 0 {
+					handlerData.Rollup(over).Add(100)
+				}
+			}
 		}
+		// Refactored original algorithm for byTest
+		handlerData.SetScore(score.ByTest, handlerData.Rollup(bench.OverTests).Average())
 		handlerData.SetScore(score.ByData, handlerData.Rollup(bench.OverData).Average())
 		original.CheckTotal(handlerData)
 		handlerData.SetScore(score.Default,
@@ -149,10 +167,8 @@ func (b *Benchmarks) Name() string {
 
 func (b *Benchmarks) HasTest(test data.TestTag) bool {
 	for _, hdlr := range b.handlerData {
-		if average := hdlr.ByTest(test); average != nil {
-			if average.Count > 0 {
-				return true
-			}
+		if hdlr.HasTest(test) {
+			return true
 		}
 	}
 	return false
@@ -163,11 +179,17 @@ func (b *Benchmarks) ScoreFor(handler data.HandlerTag) score.Value {
 }
 
 func (b *Benchmarks) ScoreForTest(handler data.HandlerTag, test data.TestTag) score.Value {
-	return b.handlerData[handler].ByTest(test).Average()
+	if hdlrData, found := b.handlerData[handler]; found && hdlrData.HasTest(test) {
+		return hdlrData.ByTest(test).Average()
+	}
+	return score.Value(math.NaN())
 }
 
 func (b *Benchmarks) ScoreForType(handler data.HandlerTag, scoreType score.Type) score.Value {
-	return b.handlerData[handler].Score(scoreType)
+	if hdlrData, found := b.handlerData[handler]; found {
+		return hdlrData.Score(scoreType)
+	}
+	return score.Value(math.NaN())
 }
 
 func (b *Benchmarks) Summary() template.HTML {
diff --git a/internal/scoring/axis/common/data.go b/internal/scoring/axis/common/data.go
index a0a8834..93e4143 100644
--- a/internal/scoring/axis/common/data.go
+++ b/internal/scoring/axis/common/data.go
@@ -24,6 +24,12 @@ func (hd *HandlerData) ByTest(test data.TestTag) *score.Average {
 	return hd.byTest[test]
 }
 
+// HasTest returns true if there is any data for the specified test.
+func (hd *HandlerData) HasTest(test data.TestTag) bool {
+	average, found := hd.byTest[test]
+	return found && average.Count > 0
+}
+
 func (hd *HandlerData) Score(scoreType score.Type) score.Value {
 	return hd.scores[scoreType]
 }
-- 
2.43.0


From fa37e181957fea9b6da04007dd379109f44d9d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 55/69] fix: scoring: warning scores relative to the warnings
 found

The maximum number of warnings was taken from those defined in this
program, so others made scores negative or wrapped around. Handlers
without any data panicked, repeating the setup accumulated exhibits.
---
 internal/scoring/axis/warn/data.go     | 15 ++++++++++++
 internal/scoring/axis/warn/original.go | 10 +-------
 internal/scoring/axis/warnings.go      | 33 +++++++++++++-------------
 internal/scoring/score/axis.go         |  5 ++++
 4 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/internal/scoring/axis/warn/data.go b/internal/scoring/axis/warn/data.go
index e00c6f9..958e917 100644
--- a/internal/scoring/axis/warn/data.go
+++ b/internal/scoring/axis/warn/data.go
@@ -2,6 +2,7 @@ package warn
 
 import (
 	"github.com/madkins23/go-slog/infra/warning"
+	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/scoring/axis/common"
 	"github.com/madkins23/go-slog/internal/scoring/score"
 )
@@ -36,6 +37,20 @@ func (hd *HandlerData) ByLevel(level warning.Level) *score.Average {
 	return hd.byLevel[level]
 }
 
+// CountUnique returns the number of different warnings
+// that are known for the specified level from any of the handlers.
+func CountUnique(warns *data.Warnings, level warning.Level) uint {
+	unique := make(map[string]bool)
+	for _, hdlr := range warns.HandlerTags() {
+		if lvl := warns.ForHandler(hdlr).Level(level); lvl != nil {
+			for _, wrn := range lvl.Warnings() {
+				unique[wrn.Name()] = true
+			}
+		}
+	}
+	return uint(len(unique))
+}
+
 /*
    Detail Table
      per hdlr
diff --git a/internal/scoring/axis/warn/original.go b/internal/scoring/axis/warn/original.go
index e96f0cd..a0c7957 100644
--- a/internal/scoring/axis/warn/original.go
+++ b/internal/scoring/axis/warn/original.go
@@ -44,15 +44,7 @@ func (o *Original) CheckMaxScore(maxScore uint) {
 
 func (o *Original) MakeMaxScore() {
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, warn := range warning.WarningsForLevel(level) {
-			if wx, found := o.warns.ByWarning[warn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
-		o.maxScore += o.weight[level] * count
+		o.maxScore += o.weight[level] * CountUnique(o.warns, level)
 	}
 }
 
diff --git a/internal/scoring/axis/warnings.go b/internal/scoring/axis/warnings.go
index 63e34c2..21b7991 100644
--- a/internal/scoring/axis/warnings.go
+++ b/internal/scoring/axis/warnings.go
@@ -43,6 +43,9 @@ func NewWarnings(levelWeight map[warning.Level]uint, summaryHTML template.HTML)
 }
 
 func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
+	// Scores only depend on the provided data, not on any previous setup.
+	w.handlerData = make(map[data.HandlerTag]*warn.HandlerData)
+	w.ClearExhibits()
 	testTags := w.testTagMap(warns.TestTags())
 	// Calculate data ranges
 	// Do original calculation and newer calculations and compare them for error.
@@ -55,14 +58,7 @@ func (w *Warnings) Setup(_ *data.Benchmarks, warns *data.Warnings) error {
 	var maxScore uint
 	ranges := make(map[warning.Level]common.Range)
 	for _, level := range warning.LevelOrder {
-		var count uint
-		for _, wrn := range warning.WarningsForLevel(level) {
-			if wx, found := warns.ByWarning[wrn.Name]; found {
-				if len(wx.Count) > 0 {
-					count++
-				}
-			}
-		}
+		count := warn.CountUnique(warns, level)
 		ranges[level] = &common.RangeUint64{}
 		ranges[level].AddValueUint64(uint64(count))
 		maxScore += w.levelWeight[level] * count
@@ -116,7 +112,10 @@ func (w *Warnings) HasTest(_ data.TestTag) bool {
 }
 
 func (w *Warnings) CountForLevel(handler data.HandlerTag, level warning.Level) score.Value {
-	return score.Value(w.handlerData[handler].CountFor(level))
+	if hdlrData, found := w.handlerData[handler]; found {
+		return score.Value(hdlrData.CountFor(level))
+	}
+	return 0
 }
 
 func (w *Warnings) ScoreFor(handler data.HandlerTag) score.Value {
@@ -124,23 +123,25 @@ func (w *Warnings) ScoreFor(handler data.HandlerTag) score.Value {
 }
 
 func (w *Warnings) ScoreForLevel(handler data.HandlerTag, level warning.Level) score.Value {
-	result := w.handlerData[handler].ByLevel(level)
-	if result.Count > 0 {
-		return result.Average()
+	if hdlrData, found := w.handlerData[handler]; found {
+		return hdlrData.ByLevel(level).Average()
 	}
 	return 100
 }
 
 func (w *Warnings) ScoreForTest(handler data.HandlerTag, test data.TestTag) score.Value {
-	result := w.handlerData[handler].ByTest(test)
-	if result.Count > 0 {
-		return result.Average()
+	if hdlrData, found := w.handlerData[handler]; found && hdlrData.HasTest(test) {
+		return hdlrData.ByTest(test).Average()
 	}
 	return 100
 }
 
 func (w *Warnings) ScoreForType(handler data.HandlerTag, scoreType score.Type) score.Value {
-	return w.handlerData[handler].Score(scoreType)
+	if hdlrData, found := w.handlerData[handler]; found {
+		return hdlrData.Score(scoreType)
+	}
+	// Nothing is known about the handler, so there are no warnings either.
+	return 100
 }
 
 func (w *Warnings) Documentation() template.HTML {
diff --git a/internal/scoring/score/axis.go b/internal/scoring/score/axis.go
index 6807ab8..d32760e 100644
--- a/internal/scoring/score/axis.go
+++ b/internal/scoring/score/axis.go
@@ -50,6 +50,11 @@ func (ac *AxisCore) AddExhibit(exhibit Exhibit) {
 	ac.exhibits = append(ac.exhibits, exhibit)
 }
 
+// ClearExhibits removes any exhibits previously added.
+func (ac *AxisCore) ClearExhibits() {
+	ac.exhibits = nil
+}
+
 func (ac *AxisCore) Exhibits() []Exhibit {
 	// TODO: Should be OK if this just returns nil but maybe not.
 	return ac.exhibits
-- 
2.43.0


From 7ce6f1b93a1fb66cc29abfc45f42b2e305cbdbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 56/69] fix: scoring: ranges of negative values

---
 internal/scoring/axis/common/range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/scoring/axis/common/range.go b/internal/scoring/axis/common/range.go
index 1a62ccc..289de91 100644
--- a/internal/scoring/axis/common/range.go
+++ b/internal/scoring/axis/common/range.go
@@ -28,7 +28,7 @@ type RangeFloat64 struct {
 func NewRangeFloat64() *RangeFloat64 {
 	return &RangeFloat64{
 		low:  math.MaxFloat64,
-		high: 0.0,
+		high: -math.MaxFloat64,
 	}
 }
 
-- 
2.43.0


From e9ed709f77ccbb0ccee0956418240803b1170c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 57/69] fix: scoring: filter handlers by the names of their
 results, sort special keepers without a tag

---
 internal/scoring/score/keeper.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index af96567..9e8e85e 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -5,12 +5,13 @@ import (
 	"fmt"
 	"html/template"
 	"sort"
+	"strings"
 
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/markdown"
 )
 
-const specialChar = '+'
+const specialChar = "+"
 
 type KeeperTag string
 
@@ -63,7 +64,7 @@ func (k *Keeper) Setup(bench *data.Benchmarks, warns *data.Warnings) error {
 	k.handlers = make([]data.HandlerTag, 0)
 	k.tests = make([]data.TestTag, 0)
 	for _, hdlr := range bench.HandlerTags() {
-		if k.filter == nil || k.filter.Keep(warns.HandlerName(hdlr)) {
+		if k.filter == nil || k.filter.Keep(bench.HandlerName(hdlr)) {
 			k.handlers = append(k.handlers, hdlr)
 		}
 	}
@@ -166,12 +167,10 @@ func Keepers() []KeeperTag {
 			keeperTags = append(keeperTags, tag)
 		}
 		sort.Slice(keeperTags, func(i, j int) bool {
-			if keeperTags[i][0] == specialChar {
-				if keeperTags[j][0] != specialChar {
-					return false
-				}
-			} else if keeperTags[j][0] == specialChar {
-				return true
+			iSpecial := strings.HasPrefix(string(keeperTags[i]), specialChar)
+			jSpecial := strings.HasPrefix(string(keeperTags[j]), specialChar)
+			if iSpecial != jSpecial {
+				return jSpecial
 			}
 			return keeperTags[i] < keeperTags[j]
 		})
-- 
2.43.0


From 1d88f9bcdc95f3679d330d2172ef2eb7b990dd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 58/69] fix: server: charts of unknown keepers, tags and items;
 handlers without warnings or with a score of zero; stable order

---
 cmd/server/chart/bar.go   |  6 ++---
 cmd/server/chart/score.go | 46 +++++++++++++++++----------------------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/cmd/server/chart/bar.go b/cmd/server/chart/bar.go
index b0e74ce..1bed524 100644
--- a/cmd/server/chart/bar.go
+++ b/cmd/server/chart/bar.go
@@ -17,7 +17,7 @@ func Bar(c *gin.Context, bench *data.Benchmarks) {
 	item, err := data.BenchItemsString(itemArg)
 	if err != nil {
 		slog.Error("Bad URL parameter", "param", itemArg, "err", err)
-		// TODO: what to do here?
+		c.String(http.StatusBadRequest, "No benchmark item "+itemArg)
 		return
 	}
 	tag := c.Param("tag")
@@ -34,9 +34,7 @@ func Bar(c *gin.Context, bench *data.Benchmarks) {
 			labels, values = chartHandler(bench, records, item)
 		} else {
 			slog.Error("Neither handler nor benchmark records found", "fn", "chartFunction")
-			c.HTML(http.StatusBadRequest, "pageFunction", gin.H{
-				"ErrorTitle":   "Template failed execution",
-				"ErrorMessage": "No records for " + tag})
+			c.String(http.StatusBadRequest, "No records for "+tag)
 			return
 		}
 		const verticalPadding = 100
diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index ab655b1..f9eda54 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -126,9 +126,14 @@ func Score(c *gin.Context, warns *data.Warnings) {
 	CacheMutex.Lock()
 	ch, found := Cache[cacheKey]
 	CacheMutex.Unlock()
-	keeper := score.GetKeeper(score.KeeperTag(c.Param("keeper")))
-	chartData := newChartData(keeper, warns, sizes[size])
 	if !found {
+		keeper := score.GetKeeper(score.KeeperTag(c.Param("keeper")))
+		if keeper == nil {
+			slog.Error("No such keeper", "keeper", c.Param("keeper"))
+			c.String(http.StatusBadRequest, "No keeper "+c.Param("keeper"))
+			return
+		}
+		chartData := newChartData(keeper, warns, sizes[size])
 		graph := chartData.generate()
 		var buf bytes.Buffer
 		if err := graph.Render(chart.SVG, &buf); err != nil {
@@ -197,22 +202,12 @@ func newChartData(keeper *score.Keeper, warns *data.Warnings, size *sizeData) *s
 	// Initializes a map from data.HandlerTag to *handlerCoords.
 	// Handler records are only used if the handler scores are within the size of the chart.
 	for _, hdlr := range cd.keeper.HandlerTags() {
-		// Only make handler record if y value is within bounds (above size.low.y).
-		if cd.keeper.Y().ScoreFor(hdlr) >= cd.size.low.y {
-			cd.handlers[hdlr] = &handlerCoords{y: cd.keeper.Y().ScoreFor(hdlr)}
-		}
-	}
-	for _, hdlr := range cd.warns.HandlerTags() {
-		// Only add value if there is already a benchmark score.
-		if coords, found := cd.handlers[hdlr]; found {
-			// Only add x-value if it is within bounds (above size.low.x).
-			if cd.keeper.X().ScoreFor(hdlr) >= cd.size.low.x {
-				coords.x = cd.keeper.X().ScoreFor(hdlr)
-			} else {
-				// The x-value is out of bounds but y-value was in bounds,
-				// remove handler record previously added.
-				delete(cd.handlers, hdlr)
-			}
+		x := cd.keeper.X().ScoreFor(hdlr)
+		y := cd.keeper.Y().ScoreFor(hdlr)
+		// Only make handler record if both values are within bounds.
+		// This is never the case for handlers without a score (NaN).
+		if x >= cd.size.low.x && y >= cd.size.low.y {
+			cd.handlers[hdlr] = &handlerCoords{x: x, y: y}
 		}
 	}
 	cd.items = make([]scoreChartDataItem, 0, len(cd.handlers)+1)
@@ -288,14 +283,13 @@ func (cd *scoreChartData) annotations() []chart.Value2 {
 
 // dataMarkers generates chart points and labels to represent score values.
 func (cd *scoreChartData) dataMarkers() {
-	for hdlr, coords := range cd.handlers {
-		if coords.y > 0.00001 {
-			x := float64(coords.x)
-			y := float64(coords.y)
+	// Use the order of the handlers in the keeper so that the chart is always the same.
+	for _, hdlr := range cd.keeper.HandlerTags() {
+		if coords, found := cd.handlers[hdlr]; found {
 			cd.items = append(cd.items, scoreChartDataItem{
 				label: cd.warns.HandlerName(hdlr),
-				x:     x,
-				y:     y,
+				x:     float64(coords.x),
+				y:     float64(coords.y),
 			})
 		}
 	}
@@ -316,8 +310,8 @@ func (cd *scoreChartData) dataMarkers() {
 		top = 100
 	}
 	// Sort data items by decreasing y-value.
-	sort.Slice(cd.items, func(i, j int) bool {
-		return cd.items[i].y >= cd.items[j].y
+	sort.SliceStable(cd.items, func(i, j int) bool {
+		return cd.items[i].y > cd.items[j].y
 	})
 	for i, item := range cd.items {
 		cd.series = append(cd.series, chart.ContinuousSeries{
-- 
2.43.0


From a956cdc98c30e1f9b1eec0d493f0592483565773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 59/69] fix: server: show texts from the data as text, not as
 markup

---
 cmd/server/pages/handler.gohtml | 2 +-
 cmd/server/pages/test.gohtml    | 2 +-
 cmd/server/pages/text.gohtml    | 2 +-
 cmd/server/parts/header.gohtml  | 2 +-
 cmd/server/server.go            | 3 ---
 cmd/server/text.go              | 6 +++---
 internal/data/warnings.go       | 7 +++++--
 7 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cmd/server/pages/handler.gohtml b/cmd/server/pages/handler.gohtml
index fd8d073..4ba3cc8 100644
--- a/cmd/server/pages/handler.gohtml
+++ b/cmd/server/pages/handler.gohtml
@@ -9,7 +9,7 @@
 <div class="wrapper">
   <div class="header">
     {{ $name := .Benchmarks.HandlerName .Handler }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" "Handler" "name" $name }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/test.gohtml b/cmd/server/pages/test.gohtml
index d413c83..c42106e 100644
--- a/cmd/server/pages/test.gohtml
+++ b/cmd/server/pages/test.gohtml
@@ -14,7 +14,7 @@
     {{ else }}
       {{ $name = .Warnings.TestName .Test }}
     {{ end }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" "Test" "name" $name }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/text.gohtml b/cmd/server/pages/text.gohtml
index 8adcaf0..aa1f7b4 100644
--- a/cmd/server/pages/text.gohtml
+++ b/cmd/server/pages/text.gohtml
@@ -8,7 +8,7 @@
 <body>
 <div class="wrapper">
   <div class="header">
-    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" $.Item.Name) }}
+    {{ template "partHeader" dict "top" $ "title" "Text File" "name" $.Item.Name }}
   </div>
   <div class="text-summary">{{ $.Item.Summary }}</div>
   <div class="text">{{ $.Item.Data }}</div>
diff --git a/cmd/server/parts/header.gohtml b/cmd/server/parts/header.gohtml
index d8c455f..4738b19 100644
--- a/cmd/server/parts/header.gohtml
+++ b/cmd/server/parts/header.gohtml
@@ -7,7 +7,7 @@
             {{ else }}
               <a href="/go-slog/index.html"><img src="/go-slog/home.svg" alt="Home" class="home" /></a>
             {{ end }}
-            <h2 class="home">{{ unescape .title }}</h2>
+            <h2 class="home">{{ .title }}{{ with .name }} <span class="fixed">{{ . }}</span>{{ end }}</h2>
           </td>
           <td>
             <table class="choice">
diff --git a/cmd/server/server.go b/cmd/server/server.go
index 612d018..a50ebba 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -469,9 +469,6 @@ func functions() map[string]any {
 			result := score.List(name...)
 			return result
 		},
-		"unescape": func(s string) template.HTML {
-			return template.HTML(s)
-		},
 	}
 }
 
diff --git a/cmd/server/text.go b/cmd/server/text.go
index f182c8e..d60d3d5 100644
--- a/cmd/server/text.go
+++ b/cmd/server/text.go
@@ -12,7 +12,7 @@ type TextItem struct {
 	Name    string
 	Path    string
 	Summary template.HTML
-	Data    template.HTML
+	Data    string
 }
 
 func (ti *TextItem) SafeName() string {
@@ -39,7 +39,7 @@ func NewTextCache(items ...*TextItem) *TextCache {
 			slog.Warn("Unable to load text file",
 				"Path", item.Path, "error", err.Error())
 		} else if len(data) > 0 {
-			item.Data = template.HTML(data)
+			item.Data = string(data)
 			tc.cache[item.Name] = item
 			tc.names = append(tc.names, item.Name)
 		} else {
@@ -65,7 +65,7 @@ func (tc *TextCache) TextItem(path string) *TextItem {
 		item = &TextItem{
 			Path:    path,
 			Summary: "Text Not Found",
-			Data:    template.HTML("Path: " + path),
+			Data:    "Path: " + path,
 		}
 	}
 	return item
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 217017e..3f28f85 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -449,7 +449,7 @@ func (di *dataInstance) Extra() string {
 const srcRoot = "https://cs.opensource.google/go/go/+/master:src"
 
 // test message: longer description (/snap/go/10535/src/testing/slogtest/slogtest.go:61)
-var ptnCaller = regexp.MustCompile(`^\s*(.+?):(.+?)\s*\(.*/(testing/.*\.go):(\d+)\)`)
+var ptnCaller = regexp.MustCompile(`^\s*(.+?):(.+?)\s*\([^(]*/(testing/[^)]*\.go):(\d+)\)\s*$`)
 
 func (di *dataInstance) ExtraHTML() template.HTML {
 	fix := func(lines []string) []string {
@@ -458,7 +458,10 @@ func (di *dataInstance) ExtraHTML() template.HTML {
 				// Error from slog/slogtest.
 				line = fmt.Sprintf(
 					"%s<br/><a href=\"%s/%s;l=%s\">%s</a>",
-					matches[1], srcRoot, matches[3], matches[4], matches[2])
+					template.HTMLEscapeString(matches[1]), srcRoot, template.HTMLEscapeString(matches[3]),
+					matches[4], template.HTMLEscapeString(matches[2]))
+			} else {
+				line = template.HTMLEscapeString(line)
 			}
 			lines[i] = "<p>" + line + "</p>"
 		}
-- 
2.43.0


From ff636e842b30c06f48d866896ee8d580b5947401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 60/69] fix: server: answer one request at a time from the
 shared data

---
 cmd/server/server.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/cmd/server/server.go b/cmd/server/server.go
index a50ebba..a3af098 100644
--- a/cmd/server/server.go
+++ b/cmd/server/server.go
@@ -57,6 +57,7 @@ import (
 	"net/http"
 	"os"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/gin-gonic/gin"
@@ -163,6 +164,11 @@ func main() {
 
 // -----------------------------------------------------------------------------
 
+// dataMutex guards the benchmark, warning, and score data.
+// Much of that data is calculated and cached during the first request that needs it
+// so that even requests that only show data must not run at the same time.
+var dataMutex sync.Mutex
+
 var (
 	bench     = data.NewBenchmarks()
 	warns     = data.NewWarnings()
@@ -421,7 +427,7 @@ func pageFunction(page pageType) gin.HandlerFunc {
 			tmplData.Errors = c.Errors.Errors()
 		}
 		var buf bytes.Buffer
-		if err := templates[page].Execute(&buf, tmplData); err != nil {
+		if err := executeTemplate(page, &buf, tmplData); err != nil {
 			slog.Error("Error executing template", "err", err, "page", page)
 			_ = c.Error(err)
 			if page != pageError {
@@ -434,6 +440,13 @@ func pageFunction(page pageType) gin.HandlerFunc {
 	}
 }
 
+// executeTemplate executes the template for the specified page using the template Data.
+func executeTemplate(page pageType, w io.Writer, tmplData *templateData) error {
+	dataMutex.Lock()
+	defer dataMutex.Unlock()
+	return templates[page].Execute(w, tmplData)
+}
+
 // functions returns required template functions.
 func functions() map[string]any {
 	return map[string]any{
@@ -496,10 +509,14 @@ func textFunction(text string) gin.HandlerFunc {
 
 // barChart generates an SVG chart for the current object tags.
 func barChart(c *gin.Context) {
+	dataMutex.Lock()
+	defer dataMutex.Unlock()
 	chart.Bar(c, bench)
 }
 
 // scoreChart generates an SVG chart for the specified score Data.
 func scoreChart(c *gin.Context) {
+	dataMutex.Lock()
+	defer dataMutex.Unlock()
 	chart.Score(c, warns)
 }
-- 
2.43.0


From 14c40664fec079bfa5d2c953c5065874877bbd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 61/69] fix: data: always the same order of handlers or tests
 with the same name

---
 internal/data/bench.go    | 19 +++++++++++++------
 internal/data/warnings.go | 12 ++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index d51e926..90bf554 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -130,9 +130,7 @@ func (b *Benchmarks) HandlerTags() []HandlerTag {
 		for handler := range b.ByHandler {
 			b.handlers = append(b.handlers, handler)
 		}
-		sort.Slice(b.handlers, func(i, j int) bool {
-			return b.HandlerName(b.handlers[i]) < b.HandlerName(b.handlers[j])
-		})
+		sortTags(b.handlers, b.HandlerName)
 	}
 	return b.handlers
 }
@@ -158,13 +156,22 @@ func (b *Benchmarks) TestTags() []TestTag {
 		for test := range b.byTest {
 			b.tests = append(b.tests, test)
 		}
-		sort.Slice(b.tests, func(i, j int) bool {
-			return b.TestName(b.tests[i]) < b.TestName(b.tests[j])
-		})
+		sortTags(b.tests, b.TestName)
 	}
 	return b.tests
 }
 
+// sortTags sorts handler or test tags by their names.
+// Tags that have the same name are sorted by tag so that their order is always the same.
+func sortTags[T ~string](tags []T, name func(T) string) {
+	sort.Slice(tags, func(i, j int) bool {
+		if iName, jName := name(tags[i]), name(tags[j]); iName != jName {
+			return iName < jName
+		}
+		return tags[i] < tags[j]
+	})
+}
+
 // HasWarningText from end of benchmark run.
 func (b *Benchmarks) HasWarningText() bool {
 	return len(b.warningText) > 0
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 3f28f85..27bc390 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -109,9 +109,7 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 		for handler := range w.ByHandler {
 			w.handlers = append(w.handlers, handler)
 		}
-		sort.Slice(w.handlers, func(i, j int) bool {
-			return w.HandlerName(w.handlers[i]) < w.HandlerName(w.handlers[j])
-		})
+		sortTags(w.handlers, w.HandlerName)
 	}
 	return w.handlers
 }
@@ -156,9 +154,7 @@ func (w *Warnings) TestTags() []TestTag {
 		for test := range w.byTest {
 			w.tests = append(w.tests, test)
 		}
-		sort.Slice(w.tests, func(i, j int) bool {
-			return w.TestName(w.tests[i]) < w.TestName(w.tests[j])
-		})
+		sortTags(w.tests, w.TestName)
 	}
 	return w.tests
 }
@@ -255,7 +251,7 @@ func (wd *WarningData) Handlers() []HandlerTag {
 		for key := range wd.hdlrMap {
 			wd.handlers = append(wd.handlers, key)
 		}
-		sort.Slice(wd.handlers, func(i, j int) bool { return wd.handlers[i].Name() < wd.handlers[j].Name() })
+		sortTags(wd.handlers, HandlerTag.Name)
 	}
 
 	return wd.handlers
@@ -271,7 +267,7 @@ func (wd *WarningData) Tests() []TestTag {
 		for key := range wd.testMap {
 			wd.tests = append(wd.tests, key)
 		}
-		sort.Slice(wd.tests, func(i, j int) bool { return wd.tests[i].Name() < wd.tests[j].Name() })
+		sortTags(wd.tests, TestTag.Name)
 	}
 
 	return wd.tests
-- 
2.43.0


From a43b1a877fd8e1073cc805fb3d085d373be38dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 62/69] fix: scoring: benchmark scores always added up in the
 same order

---
 internal/scoring/axis/benchmarks.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index 1028c0e..70644fa 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -93,8 +93,9 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 			handlerData = b.handlerData[handler]
 		}
 		tested := false
-		for test, record := range benchMarks.ByHandler[handler] {
-			if testTags[test] {
+		// Always in the same order, the sum of floating-point numbers depends on it.
+		for _, test := range benchMarks.TestTags() {
+			if record, found := benchMarks.ByHandler[handler][test]; found && testTags[test] {
 				// Original calculation.
 				original.HandlerTest(test, record)
 				// Data ranges for newer calculations.
-- 
2.43.0


From 54f9545a361d0cb4e12ca8c099c8522cad6fd63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 63/69] fix: server: every Log button shows the log of its own
 instance

---
 cmd/server/parts/warnings.gohtml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/parts/warnings.gohtml b/cmd/server/parts/warnings.gohtml
index 5a235cd..ba7e421 100644
--- a/cmd/server/parts/warnings.gohtml
+++ b/cmd/server/parts/warnings.gohtml
@@ -29,7 +29,7 @@
                 <td colspan=3>
                   <table class="instance">
                     {{ range $index, $instance := $warning.Instances }}
-                      {{ $id := printf "%v-%v" $warning.Name $instance.Name }}
+                      {{ $id := printf "%v-%v" $warning.Name $index }}
                       {{ if eq (mod $index 2) 0 }}
                         {{ $color = "cornsilk" }}
                       {{ else }}
-- 
2.43.0


From 906b42d59971ed536630f505d2ba14933c2387d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 64/69] fix: find the test function for a warning at any call
 depth

---
 internal/misc/function.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/misc/function.go b/internal/misc/function.go
index 2459788..6ec52dd 100644
--- a/internal/misc/function.go
+++ b/internal/misc/function.go
@@ -10,8 +10,13 @@ import (
 // The function name is found by checking for the specified prefix.
 // If no appropriate test function is found "Unknown" is returned.
 func CurrentFunctionName(prefix string) string {
+	// There may be any number of calls between the test function and this one.
 	pc := make([]uintptr, 10)
 	n := runtime.Callers(2, pc)
+	for n == len(pc) {
+		pc = make([]uintptr, 2*len(pc))
+		n = runtime.Callers(2, pc)
+	}
 	frames := runtime.CallersFrames(pc[:n])
 	more := true
 	for more {
-- 
2.43.0


From d55c7282f8616726bbcc8313f35dadc8d6397bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:28 +0000
Subject: [PATCH 65/69] fix: lock the warning registry when looking up a
 warning by name

ByName read the map without the lock that NewWarning writes it with, which is
a data race that ends the process (concurrent map read and map write) when
warnings are looked up while others are being defined.
---
 infra/warning/warning.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index fd4923d..e6570f3 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -68,6 +68,8 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 
 // ByName returns the warning with the specified name, if any, else nil.
 func ByName(name string) *Warning {
+	warningLock.Lock()
+	defer warningLock.Unlock()
 	return byName[name]
 }
 
-- 
2.43.0


From 7acf3d5fd4e164ca8ce3b8c98d515d64701fed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:24 +0000
Subject: [PATCH 66/69] fix: tabular: indent every line of a log record

---
 cmd/tabular/tabular.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tabular/tabular.go b/cmd/tabular/tabular.go
index da00263..f31d692 100644
--- a/cmd/tabular/tabular.go
+++ b/cmd/tabular/tabular.go
@@ -132,7 +132,7 @@ func main() {
 					}
 					fmt.Printf("         %s\n", line)
 					if line := instance.Line(); line != "" {
-						fmt.Printf("           %s\n", line)
+						fmt.Printf("           %s\n", strings.ReplaceAll(line, "\n", "\n           "))
 					}
 				}
 			}
-- 
2.43.0


From 4d7e69712d145d072f479f44b78249ee8c5b2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:00 +0000
Subject: [PATCH 67/69] fix: server: escape names in the labels of charts

---
 cmd/server/chart/bar.go   |  4 ++--
 cmd/server/chart/score.go |  2 +-
 cmd/server/chart/text.go  | 15 +++++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)
 create mode 100644 cmd/server/chart/text.go

diff --git a/cmd/server/chart/bar.go b/cmd/server/chart/bar.go
index 1bed524..dac0f7c 100644
--- a/cmd/server/chart/bar.go
+++ b/cmd/server/chart/bar.go
@@ -78,7 +78,7 @@ func chartTest(bench *data.Benchmarks, records data.HandlerRecords, item data.Be
 	values = make([]float64, 0, len(records))
 	for _, tag := range bench.HandlerTags() {
 		if record, found := records[tag]; found {
-			labels = append(labels, bench.HandlerName(tag))
+			labels = append(labels, svgText(bench.HandlerName(tag)))
 			values = append(values, record.ItemValue(item))
 		}
 	}
@@ -93,7 +93,7 @@ func chartHandler(bench *data.Benchmarks, records data.TestRecords, item data.Be
 	values = make([]float64, 0, len(records))
 	for _, tag := range bench.TestTags() {
 		if record, found := records[tag]; found {
-			labels = append(labels, bench.TestName(tag))
+			labels = append(labels, svgText(bench.TestName(tag)))
 			values = append(values, record.ItemValue(item))
 		}
 	}
diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index f9eda54..768e0a5 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -287,7 +287,7 @@ func (cd *scoreChartData) dataMarkers() {
 	for _, hdlr := range cd.keeper.HandlerTags() {
 		if coords, found := cd.handlers[hdlr]; found {
 			cd.items = append(cd.items, scoreChartDataItem{
-				label: cd.warns.HandlerName(hdlr),
+				label: svgText(cd.warns.HandlerName(hdlr)),
 				x:     float64(coords.x),
 				y:     float64(coords.y),
 			})
diff --git a/cmd/server/chart/text.go b/cmd/server/chart/text.go
new file mode 100644
index 0000000..8ac7828
--- /dev/null
+++ b/cmd/server/chart/text.go
@@ -0,0 +1,15 @@
+package chart
+
+import (
+	"encoding/xml"
+	"strings"
+)
+
+// svgText escapes text for use within an SVG document.
+// The chart libraries write the text of labels as it is.
+func svgText(text string) string {
+	var builder strings.Builder
+	// Writing to a strings.Builder never fails.
+	_ = xml.EscapeText(&builder, []byte(text))
+	return builder.String()
+}
-- 
2.43.0


From 083dffca94198bf40bb863680b69b218d2601add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 68/69] fix: server: no zeros in score pages for results a
 handler doesn't have

---
 cmd/server/pages/scores.gohtml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/server/pages/scores.gohtml b/cmd/server/pages/scores.gohtml
index bcf1792..1c6f131 100644
--- a/cmd/server/pages/scores.gohtml
+++ b/cmd/server/pages/scores.gohtml
@@ -170,7 +170,7 @@
                                             {{ range $test := $.Benchmarks.TestTags }}
                                                 {{ if $b.HasTest $test }}
                                                     {{ $data := index $testMap $test }}
-                                                    <td class="number">{{ $.FixFloat (div $data.NanosPerOp 1000.0) 3 }}</td>
+                                                    <td class="number">{{ if $data.Runs }}{{ $.FixFloat (div $data.NanosPerOp 1000.0) 3 }}{{ end }}</td>
                                                 {{ end }}
                                             {{ end }}
                                             {{ range $scoreType := $scoresByData }}
@@ -220,7 +220,7 @@
                                             {{ range $test := $.Benchmarks.TestTags }}
                                                 {{ if $b.HasTest $test }}
                                                     {{ $data := index $testMap $test }}
-                                                    <td class="number">{{ $.FixUint $data.MemAllocsPerOp }}</td>
+                                                    <td class="number">{{ if $data.Runs }}{{ $.FixUint $data.MemAllocsPerOp }}{{ end }}</td>
                                                 {{ end }}
                                             {{ end }}
                                             {{ range $scoreType := $scoresByData }}
@@ -270,7 +270,7 @@
                                             {{ range $test := $.Benchmarks.TestTags }}
                                                 {{ if $b.HasTest $test }}
                                                     {{ $data := index $testMap $test }}
-                                                    <td class="number">{{ $.FixUint $data.MemBytesPerOp }}</td>
+                                                    <td class="number">{{ if $data.Runs }}{{ $.FixUint $data.MemBytesPerOp }}{{ end }}</td>
                                                 {{ end }}
                                             {{ end }}
                                             {{ range $scoreType := $scoresByData }}
-- 
2.43.0


From ba947aafa4d4ecfbd16226ef10ee5084f812f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:11 +0000
Subject: [PATCH 69/69] fix: names of handlers missing in the benchmarks lost a
 first letter that isn't ASCII

---
 internal/data/warnings_parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 5149368..7c0fa2e 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra/warning"
 )
@@ -147,7 +148,8 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 				parts := strings.Split(string(handler), "/")
 				for i, part := range parts {
 					if len(part) > 0 {
-						parts[i] = strings.ToUpper(part[:1]) + strings.ToLower(part[1:])
+						_, size := utf8.DecodeRuneInString(part)
+						parts[i] = strings.ToUpper(part[:size]) + strings.ToLower(part[size:])
 					}
 				}
 				w.getHandlerData(handler).name = strings.Join(parts, " ")
-- 
2.43.0

