From 1f99a0096c4c56e77741b0b9bdcc758f590da294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 01/62] fix: flash escapes malformed UTF-8 instead of copying
 it or swallowing what follows

---
 handlers/flash/composer.go | 48 +++++++++++---------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 94d4572..6c0e6ad 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -7,6 +7,7 @@ import (
 	"log/slog"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra"
 )
@@ -173,20 +174,10 @@ var hexDigit = `0123456789ABCDEF`
 // should not reflect on the source material. ;-)
 func (c *composer) addEscaped(s []byte) {
 	var b byte
-	var begin, index int
-	uniByte := make([]byte, 0, 4)
-	uniMore := 0
+	var begin, index, next int
 	for index, b = range s {
-		if uniMore > 0 {
-			uniByte = append(uniByte, b)
-			uniMore--
-			if uniMore < 1 {
-				// All unicode bytes collected in uniByte array.
-				// When they are all collected push them out.
-				c.buffer = append(c.buffer, uniByte...)
-				uniByte = uniByte[:0]
-				begin = index + 1
-			}
+		if index < next {
+			// Inside a multi-byte UTF8 sequence.
 			continue
 		}
 
@@ -230,27 +221,6 @@ func (c *composer) addEscaped(s []byte) {
 		default:
 			if b >= 32 && b < 127 {
 				// Just a normal lower ASCII character.
-			} else if b&0b11100000 == 0b11000000 {
-				// UTF8 two bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 1
-			} else if b&0b11110000 == 0b11100000 {
-				// UTF8 three bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 2
-			} else if b&0b11111000 == 0b11110000 {
-				// UTF8 four bytes
-				if index > begin {
-					c.buffer = append(c.buffer, s[begin:index]...)
-				}
-				uniByte = append(uniByte, b)
-				uniMore = 3
 			} else if b < 128 {
 				// Control character from lower 7 bits not previously handled.
 				if index > begin {
@@ -260,8 +230,16 @@ func (c *composer) addEscaped(s []byte) {
 				c.buffer = append(c.buffer, hexDigit[b>>4])
 				c.buffer = append(c.buffer, hexDigit[b&0xF])
 				begin = index + 1
+			} else if _, size := utf8.DecodeRune(s[index:]); size > 1 {
+				// Valid UTF8 sequence of size bytes, none of which need escaping.
+				next = index + size
 			} else {
-				// Some character from upper 7 bits not previously handled but likely printable.
+				// Not valid UTF8 so it can't appear in JSON, use the replacement character.
+				if index > begin {
+					c.buffer = append(c.buffer, s[begin:index]...)
+				}
+				c.buffer = append(c.buffer, `\ufffd`...)
+				begin = index + 1
 			}
 		}
 	}
-- 
2.43.0


From 58dccf211a66aefb91af6d33cf10051ed6a9a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 02/62] fix: handlers derived from the same flash or sloggy
 handler no longer share prefix, suffix and group storage

---
 handlers/flash/handler.go  | 13 +++++++++----
 handlers/sloggy/handler.go |  3 ++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 1f6a39b..cca0c13 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"slices"
 	"sync"
 )
 
@@ -145,7 +146,9 @@ func (h *Handler) WithAttrs(attrs []slog.Attr) slog.Handler {
 	}
 	var prefixStarted bool
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Clip the slice so that appending makes a copy instead of
+		// overwriting data added by another handler derived from this one.
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(hdlr.prefix, []byte{'{'}) {
 			prefixStarted = true
 		}
@@ -178,7 +181,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	if h.options.ReplaceAttr != nil {
 		// Only need this if there is a ReplaceAttr function.
 		// Even then, the function may not care, but we don't know that here.
-		groups = append(h.groups, name)
+		groups = append(slices.Clip(h.groups), name)
 	}
 	hdlr := &group{
 		Handler: &Handler{
@@ -193,7 +196,9 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	}
 	prefixStart := ""
 	if len(h.prefix) > 0 {
-		hdlr.prefix = h.prefix
+		// Clip the slice so that appending makes a copy instead of
+		// overwriting data added by another handler derived from this one.
+		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
 			prefixStart = ", "
 		}
@@ -208,7 +213,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
-	hdlr.suffix = append(h.suffix, '}')
+	hdlr.suffix = append(slices.Clip(h.suffix), '}')
 	return hdlr
 }
 
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 38be0e7..dcaf757 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"log/slog"
 	"runtime"
+	"slices"
 	"sync"
 )
 
@@ -144,7 +145,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			prefix:  bytes.Buffer{},
 			suffix:  bytes.Buffer{},
-			groups:  append(h.groups, name),
+			groups:  append(slices.Clip(h.groups), name),
 		},
 		name:   name,
 		parent: h,
-- 
2.43.0


From 95f2863bb6f787470c39668b45e6b7ede5ae5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:36 +0000
Subject: [PATCH 03/62] fix: sloggy writes strings as JSON strings, not as Go
 literals

---
 handlers/sloggy/composer.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 926ccda..f9bf997 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"strconv"
 	"time"
+	"unicode/utf8"
 
 	"github.com/madkins23/go-slog/infra"
 )
@@ -256,7 +257,7 @@ func (c *composer) addMacAddress(mac net.HardwareAddr) error {
 }
 
 func (c *composer) addString(str string) error {
-	if _, err := c.Write([]byte(strconv.Quote(str))); err != nil {
+	if _, err := c.Write(quoteJSON(str)); err != nil {
 		return fmt.Errorf("write quoted string: %w", err)
 	}
 	return nil
@@ -314,6 +315,36 @@ func emptyGroup(attrs []slog.Attr) bool {
 	return true
 }
 
+const hexDigit = "0123456789abcdef"
+
+// quoteJSON returns the specified string as a JSON string.
+// Can't use strconv.Quote as some Go escapes (e.g. \a, \x7f, or \U000e0001) are not legal in JSON.
+func quoteJSON(str string) []byte {
+	buf := make([]byte, 0, len(str)+2)
+	buf = append(buf, '"')
+	for _, r := range str { // Invalid UTF8 bytes show up as utf8.RuneError.
+		switch {
+		case r == '"' || r == '\\':
+			buf = append(buf, '\\', byte(r))
+		case r == '\b':
+			buf = append(buf, '\\', 'b')
+		case r == '\f':
+			buf = append(buf, '\\', 'f')
+		case r == '\n':
+			buf = append(buf, '\\', 'n')
+		case r == '\r':
+			buf = append(buf, '\\', 'r')
+		case r == '\t':
+			buf = append(buf, '\\', 't')
+		case r < 0x20 || r == 0x7f:
+			buf = append(buf, '\\', 'u', '0', '0', hexDigit[r>>4], hexDigit[r&0xf])
+		default:
+			buf = utf8.AppendRune(buf, r)
+		}
+	}
+	return append(buf, '"')
+}
+
 // -----------------------------------------------------------------------------
 
 // ComposeAttributes is a public function provided to support benchmark testing
-- 
2.43.0


From de72135894eca27608689cbcfd171c0960a5d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 04/62] fix: flash and sloggy escape the name of a WithGroup
 group

---
 handlers/flash/handler.go  | 11 ++++++++---
 handlers/sloggy/handler.go |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index cca0c13..0e59577 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -194,13 +194,13 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		name:   name,
 		parent: h,
 	}
-	prefixStart := ""
+	var prefixStarted bool
 	if len(h.prefix) > 0 {
 		// Clip the slice so that appending makes a copy instead of
 		// overwriting data added by another handler derived from this one.
 		hdlr.prefix = slices.Clip(h.prefix)
 		if !bytes.HasSuffix(h.prefix, []byte{'{'}) {
-			prefixStart = ", "
+			prefixStarted = true
 		}
 	} else {
 		hdlr.prefix = make([]byte, 0, lenPrefix)
@@ -210,7 +210,12 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 	} else {
 		hdlr.suffix = make([]byte, 0, lenSuffix)
 	}
-	hdlr.prefix = append(hdlr.prefix, []byte(fmt.Sprintf("%s\"%s\": {", prefixStart, name))...)
+	c := newComposer(hdlr.prefix, prefixStarted, nil, nil, h.extras)
+	defer reuseComposer(c)
+	c.addSeparator()
+	c.addKey(name)
+	c.addBytes('{')
+	hdlr.prefix = c.getBytes()
 	// Should really be prepending the right brace into the suffix,
 	// but suffix only contains right braces, so it doesn't really matter.
 	hdlr.suffix = append(slices.Clip(h.suffix), '}')
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index dcaf757..be7618d 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -161,7 +161,7 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 		hdlr.suffix.Write(h.suffix.Bytes())
 	}
 
-	if _, err := fmt.Fprintf(&hdlr.prefix, "%s\"%s\": {", prefixStart, name); err != nil {
+	if _, err := fmt.Fprintf(&hdlr.prefix, "%s%s: {", prefixStart, quoteJSON(name)); err != nil {
 		slog.Error("open group", "err", err)
 	}
 	if _, err := hdlr.suffix.Write(braceRight); err != nil {
-- 
2.43.0


From 08ad4a34ecabfaca0457fd8ef9c3029917b08adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 05/62] fix: flash writes the comma after a group that turns
 out to be empty

---
 handlers/flash/composer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 6c0e6ad..786d9b4 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -256,6 +256,7 @@ func (c *composer) addGroup(attrs []slog.Attr) error {
 		return fmt.Errorf("add attributes: %w", err)
 	}
 	c.addBytes('}')
+	c.started = true // The group might have written nothing (e.g. ReplaceAttr removed everything).
 	return nil
 }
 
-- 
2.43.0


From 7542bd7cee3fcd75b6ae56c064f47b9949a8db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 06/62] fix: flash and sloggy write NaN and infinities as
 strings, JSON has no such numbers

---
 handlers/flash/composer.go  | 12 +++++++++++-
 handlers/sloggy/composer.go |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 786d9b4..2ad82c9 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log/slog"
+	"math"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -97,7 +98,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	case slog.KindDuration:
 		c.buffer = strconv.AppendInt(c.buffer, value.Duration().Nanoseconds(), 10)
 	case slog.KindFloat64:
-		c.buffer = strconv.AppendFloat(c.buffer, value.Float64(), 'f', -1, 64)
+		c.addFloat64(value.Float64())
 	case slog.KindInt64:
 		c.buffer = strconv.AppendInt(c.buffer, value.Int64(), 10)
 	case slog.KindString:
@@ -248,6 +249,15 @@ func (c *composer) addEscaped(s []byte) {
 	}
 }
 
+func (c *composer) addFloat64(f float64) {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// Not available as JSON numbers, use strings like slog.JSONHandler.
+		c.addString(strconv.FormatFloat(f, 'f', -1, 64))
+	} else {
+		c.buffer = strconv.AppendFloat(c.buffer, f, 'f', -1, 64)
+	}
+}
+
 func (c *composer) addGroup(attrs []slog.Attr) error {
 	var err error
 	c.buffer = append(c.buffer, '{')
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index f9bf997..1ef2c0d 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"net"
 	"strconv"
 	"time"
@@ -199,6 +200,10 @@ func (c *composer) addError(e error) error {
 }
 
 func (c *composer) addFloat64(f float64) error {
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		// Not available as JSON numbers, use strings like slog.JSONHandler.
+		return c.addString(strconv.FormatFloat(f, 'f', -1, 64))
+	}
 	if _, err := c.Write(strconv.AppendFloat([]byte{}, f, 'f', -1, 64)); err != nil {
 		return fmt.Errorf("float64: %w", err)
 	}
-- 
2.43.0


From 950362c4c59061acf3e62584b9dddd82f0565e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 07/62] fix: flash names levels that have no configured name

---
 handlers/flash/extras.go  | 9 +++++++++
 handlers/flash/handler.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index 3672f86..d3658ed 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -43,6 +43,15 @@ type Extras struct {
 	TimeKey string
 }
 
+// levelName returns the configured name for the specified level.
+// Levels without a configured name (e.g. slog.LevelInfo+1) have their usual name.
+func (extras *Extras) levelName(level slog.Level) string {
+	if name := extras.LevelNames[level]; name != "" {
+		return name
+	}
+	return level.String()
+}
+
 // fixExtras makes certain that an Extras object has been properly created and
 // configured with default values.
 //
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 0e59577..64c8f5f 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -76,8 +76,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if h.options.ReplaceAttr == nil {
 		c.addSeparator()
 		c.addKey(h.extras.LevelKey)
-		c.addString(h.extras.LevelNames[record.Level])
-	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.LevelNames[record.Level])); err != nil {
+		c.addString(h.extras.levelName(record.Level))
+	} else if err := c.addAttribute(slog.String(h.extras.LevelKey, h.extras.levelName(record.Level))); err != nil {
 		return fmt.Errorf("add level: %w", err)
 	}
 	if h.options.ReplaceAttr == nil {
-- 
2.43.0


From ee45467f6970a53a70ee82cd4610f85a53dc656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 08/62] fix: flash formats the value of a LogValuer by the kind
 of the resolved value

---
 handlers/flash/composer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 2ad82c9..fad12cd 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -60,6 +60,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	kind := attr.Value.Kind()
 	if kind == slog.KindLogValuer {
 		attr.Value = attr.Value.Resolve()
+		kind = attr.Value.Kind()
 	}
 	if c.replace != nil {
 		var groups []string
-- 
2.43.0


From e984017905ea36c9c7fd3f8312e851acc5ff833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 09/62] fix: a value that fails to marshal no longer loses or
 damages the flash or sloggy record

---
 handlers/flash/composer.go  | 8 ++++----
 handlers/sloggy/composer.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index fad12cd..c410125 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -142,10 +142,10 @@ func (c *composer) addAny(a any) error {
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			slog.Error("json.Marshal error", "err", err)
+			c.addString("!ERROR:" + err.Error())
 		} else {
 			c.buffer = append(c.buffer, b...)
-			return nil
 		}
 	}
 	return nil
@@ -280,7 +280,7 @@ func (c *composer) addJSONMarshaler(m json.Marshaler) error {
 	if txt, err := m.MarshalJSON(); err != nil {
 		slog.Error("MarshalJSON error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal JSON: %w", err)
+		return nil
 	} else {
 		c.addString(string(txt))
 		return nil
@@ -297,7 +297,7 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 	if txt, err := m.MarshalText(); err != nil {
 		slog.Error("MarshalText error", "err", err)
 		c.addString("!ERROR:" + err.Error())
-		return fmt.Errorf("marshal text: %w", err)
+		return nil
 	} else {
 		c.addString(string(txt))
 		return nil
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 1ef2c0d..df73acf 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -172,7 +172,7 @@ func (c *composer) addAny(a any) error {
 		// Note: Important stuff buried in some random structure may be ignored.
 		//       For example, a LogValuer or a Stringer might show up as an empty map.
 		if b, err := json.Marshal(a); err != nil {
-			return fmt.Errorf("marshal %v: %w", a, err)
+			return c.addString("!ERROR:" + err.Error())
 		} else if _, err := c.Write(b); err != nil {
 			return fmt.Errorf("write bytes: %w", err)
 		} else {
-- 
2.43.0


From 9181d3c47ddbe2b11c3f381502b1e6fa9b55ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 10/62] fix: flash and sloggy decide from the record alone
 whether a WithGroup group is empty

---
 handlers/flash/group.go    | 33 ++++++---------------------------
 handlers/flash/handler.go  |  1 -
 handlers/sloggy/group.go   | 33 ++++++---------------------------
 handlers/sloggy/handler.go |  1 -
 4 files changed, 12 insertions(+), 56 deletions(-)

diff --git a/handlers/flash/group.go b/handlers/flash/group.go
index 504c9fa..6442aa6 100644
--- a/handlers/flash/group.go
+++ b/handlers/flash/group.go
@@ -3,17 +3,12 @@ package flash
 import (
 	"context"
 	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
 )
 
 // group structure provides embedded group support to flash handler.
 type group struct {
 	*Handler
 
-	// name of group.
-	name string
-
 	// parent handler or group.
 	parent slog.Handler
 	// Unlike the Handler, which doesn't know its parent,
@@ -21,33 +16,17 @@ type group struct {
 }
 
 func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
+	empty := true
 	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
+		empty = emptyGroup([]slog.Attr{attr})
+		return empty
 	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
+	if empty {
+		// There is nothing in the record attributes so the group is empty.
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
+		return g.parent.Handle(ctx, record)
 	}
 	return g.Handler.Handle(ctx, record)
 }
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 64c8f5f..4f1834c 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -191,7 +191,6 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			mutex:   h.mutex,
 			groups:  groups,
 		},
-		name:   name,
 		parent: h,
 	}
 	var prefixStarted bool
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
index 2009082..0bcb46a 100644
--- a/handlers/sloggy/group.go
+++ b/handlers/sloggy/group.go
@@ -3,17 +3,12 @@ package sloggy
 import (
 	"context"
 	"log/slog"
-
-	"github.com/madkins23/go-slog/infra"
 )
 
 // group structure provides embedded group support to sloggy handler.
 type group struct {
 	*Handler
 
-	// name of group.
-	name string
-
 	// parent handler or group.
 	parent slog.Handler
 	// Unlike the Handler, which doesn't know its parent,
@@ -21,33 +16,17 @@ type group struct {
 }
 
 func (g *group) Handle(ctx context.Context, record slog.Record) error {
-	count := 0
-	var dead = false
-	var deadGroup string
-	if deadVal := ctx.Value("deadGroup"); deadVal != nil {
-		// This is a call back to remove a (now empty) group.
-		deadGroup = deadVal.(string)
-	}
+	empty := true
 	record.Attrs(func(attr slog.Attr) bool {
-		if !attr.Equal(infra.EmptyAttr()) {
-			count++
-			if deadGroup != "" && attr.Key == deadGroup {
-				if attr.Value.Kind() == slog.KindGroup {
-					dead = true
-				}
-			}
-			return false
-		}
-		return true
+		empty = emptyGroup([]slog.Attr{attr})
+		return empty
 	})
-	if count < 1 || // There is nothing in the record attributes, the group is empty or...
-		(count < 2 && dead) { // ...there is only a single attribute which is the dead group that called.
+	if empty {
+		// There is nothing in the record attributes so the group is empty.
 		// Since the normal handler prefix already includes group name and open brace
 		// it isn't possible to use the current handler prefix.
 		// The parent handler prefix, however, should work just fine.
-		// Pass in the context variable "deadGroup" to specify the name of this (now empty) group.
-		return g.parent.Handle(context.WithValue(ctx, "deadGroup", g.name), record)
-		// This is a weird solution, but it seems to work.
+		return g.parent.Handle(ctx, record)
 	}
 	return g.Handler.Handle(ctx, record)
 }
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index be7618d..1a0d373 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -147,7 +147,6 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 			suffix:  bytes.Buffer{},
 			groups:  append(slices.Clip(h.groups), name),
 		},
-		name:   name,
 		parent: h,
 	}
 	prefixStart := emptyString
-- 
2.43.0


From 2dd99c6f5f3da9ed7e041931e16d4770ecebc181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 11/62] fix: flash and sloggy groups stay empty after WithAttrs
 without attributes or WithGroup without name

---
 handlers/flash/group.go  | 13 +++++++++++++
 handlers/sloggy/group.go | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/handlers/flash/group.go b/handlers/flash/group.go
index 6442aa6..f1dce81 100644
--- a/handlers/flash/group.go
+++ b/handlers/flash/group.go
@@ -31,7 +31,20 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 	return g.Handler.Handle(ctx, record)
 }
 
+func (g *group) WithAttrs(attrs []slog.Attr) slog.Handler {
+	hdlr := g.Handler.WithAttrs(attrs)
+	if h, ok := hdlr.(*Handler); ok && len(h.prefix) == len(g.prefix) {
+		// Nothing was added so the group is still empty.
+		return g
+	}
+	return hdlr
+}
+
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
diff --git a/handlers/sloggy/group.go b/handlers/sloggy/group.go
index 0bcb46a..2bd822b 100644
--- a/handlers/sloggy/group.go
+++ b/handlers/sloggy/group.go
@@ -31,7 +31,20 @@ func (g *group) Handle(ctx context.Context, record slog.Record) error {
 	return g.Handler.Handle(ctx, record)
 }
 
+func (g *group) WithAttrs(attrs []slog.Attr) slog.Handler {
+	hdlr := g.Handler.WithAttrs(attrs)
+	if h, ok := hdlr.(*Handler); ok && h.prefix.Len() == g.prefix.Len() {
+		// Nothing was added so the group is still empty.
+		return g
+	}
+	return hdlr
+}
+
 func (g *group) WithGroup(name string) slog.Handler {
+	if name == "" {
+		// Groups with empty names are to be inlined.
+		return g
+	}
 	hdlr := g.Handler.WithGroup(name)
 	if group, ok := hdlr.(*group); ok {
 		// Override the previously set parent to be this object.
-- 
2.43.0


From bd5f2270e942e7ef6bd0a3ade18d7476aa9e5568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 12/62] fix: flash and sloggy call ReplaceAttr as slog
 documents it: never on groups, with the open groups, with resolved values

---
 handlers/flash/composer.go  | 39 +++++++++++++++++++------------------
 handlers/flash/handler.go   |  4 +++-
 handlers/sloggy/composer.go | 29 ++++++++++++---------------
 handlers/sloggy/handler.go  |  4 +++-
 4 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index c410125..7b2881a 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"math"
+	"slices"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -19,12 +20,11 @@ var composerPool = newGenPool[composer]()
 
 // composer handles writing attributes to an io.Writer.
 type composer struct {
-	buffer     []byte
-	started    bool
-	replace    infra.AttrFn
-	groups     []string
-	extras     *Extras
-	basicField map[string]bool
+	buffer  []byte
+	started bool
+	replace infra.AttrFn
+	groups  []string
+	extras  *Extras
 }
 
 func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []string, extras *Extras) *composer {
@@ -34,11 +34,6 @@ func newComposer(buffer []byte, started bool, replace infra.AttrFn, groups []str
 	comp.started = started
 	comp.replace = replace
 	comp.groups = groups
-	comp.basicField = make(map[string]bool, 4)
-	comp.basicField[extras.LevelKey] = true
-	comp.basicField[extras.MessageKey] = true
-	comp.basicField[extras.SourceKey] = true
-	comp.basicField[extras.TimeKey] = true
 	return comp
 }
 
@@ -50,6 +45,10 @@ func (c *composer) reset() {
 	c.started = false
 }
 
+func (c *composer) setGroups(groups []string) {
+	c.groups = groups
+}
+
 func (c *composer) getBytes() []byte {
 	return c.buffer
 }
@@ -62,12 +61,9 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 		attr.Value = attr.Value.Resolve()
 		kind = attr.Value.Kind()
 	}
-	if c.replace != nil {
-		var groups []string
-		if !c.basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
+	if c.replace != nil && kind != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
+		attr.Value = attr.Value.Resolve()
 		kind = attr.Value.Kind()
 	}
 	if attr.Equal(infra.EmptyAttr()) {
@@ -89,7 +85,7 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	c.addKey(attr.Key)
 	switch kind {
 	case slog.KindGroup:
-		return c.addGroup(value.Group())
+		return c.addGroup(attr.Key, value.Group())
 	case slog.KindBool:
 		if value.Bool() {
 			c.buffer = append(c.buffer, "true"...)
@@ -259,8 +255,13 @@ func (c *composer) addFloat64(f float64) {
 	}
 }
 
-func (c *composer) addGroup(attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	var err error
+	if c.replace != nil {
+		// Only need this if there is a ReplaceAttr function.
+		defer func(groups []string) { c.groups = groups }(c.groups)
+		c.groups = append(slices.Clip(c.groups), name)
+	}
 	c.buffer = append(c.buffer, '{')
 	c.reset() // Reset composer (started = false) to avoid comma.
 	if err = c.addAttributes(attrs); err != nil {
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index 4f1834c..d231497 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -56,7 +56,7 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	buffer := logPool.get()[:0]
 	defer func() { logPool.put(buffer) }()
 
-	c := newComposer(buffer, false, h.options.ReplaceAttr, h.groups, h.extras)
+	c := newComposer(buffer, false, h.options.ReplaceAttr, nil, h.extras)
 	defer reuseComposer(c)
 	c.addBytes('{')
 
@@ -103,6 +103,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		}
 	}
 
+	// The basic attributes are not in any group, the rest are.
+	c.setGroups(h.groups)
 	if len(h.prefix) > 0 {
 		c.addSeparator()
 		c.addByteArray(h.prefix)
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index df73acf..23655cd 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"math"
 	"net"
+	"slices"
 	"strconv"
 	"time"
 	"unicode/utf8"
@@ -27,13 +28,6 @@ var (
 	newLine     = []byte{'\r', '\n'}
 )
 
-var basicField = map[string]bool{
-	slog.TimeKey:    true,
-	slog.LevelKey:   true,
-	slog.MessageKey: true,
-	slog.SourceKey:  true,
-}
-
 // -----------------------------------------------------------------------------
 
 // composer handles writing attributes to an io.Writer.
@@ -53,6 +47,10 @@ func newComposer(writer io.Writer, started bool, replace infra.AttrFn, groups []
 	}
 }
 
+func (c *composer) setGroups(groups []string) {
+	c.groups = groups
+}
+
 func (c *composer) setStarted(started bool) {
 	c.started = started
 }
@@ -70,15 +68,12 @@ func (c *composer) addAttribute(attr slog.Attr) error {
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
-	value := attr.Value.Resolve()
-	if c.replace != nil {
-		var groups []string
-		if !basicField[attr.Key] {
-			groups = c.groups
-		}
-		attr = c.replace(groups, attr)
-		value = attr.Value
+	attr.Value = attr.Value.Resolve()
+	if c.replace != nil && attr.Value.Kind() != slog.KindGroup {
+		attr = c.replace(c.groups, attr)
+		attr.Value = attr.Value.Resolve()
 	}
+	value := attr.Value
 	if attr.Equal(infra.EmptyAttr()) {
 		return nil
 	}
@@ -210,12 +205,12 @@ func (c *composer) addFloat64(f float64) error {
 	return nil
 }
 
-func (c *composer) addGroup(_ string, attrs []slog.Attr) error {
+func (c *composer) addGroup(name string, attrs []slog.Attr) error {
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
 	// Local composer object resets started flag
-	cg := newComposer(c.Writer, false, c.replace, c.groups)
+	cg := newComposer(c.Writer, false, c.replace, append(slices.Clip(c.groups), name))
 	if err := cg.addAttributes(attrs); err != nil {
 		return fmt.Errorf("add attributes: %w", err)
 	}
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 1a0d373..f348827 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -40,7 +40,7 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, h.groups)
+	c := newComposer(h.writer, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -65,6 +65,8 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 		return fmt.Errorf("add basic attributes: %w", err)
 	}
 
+	// The basic attributes are not in any group, the rest are.
+	c.setGroups(h.groups)
 	if h.prefix.Len() > 0 {
 		if _, err := c.Write(commaSpace); err != nil {
 			return fmt.Errorf("comma space: %w", err)
-- 
2.43.0


From d712e08fb8dbed92db7a6d0f7ad8f3d45964481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 13/62] fix: sloggy writes each record with a single Write made
 under its mutex

---
 handlers/sloggy/handler.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index f348827..15aa58e 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -40,7 +40,10 @@ func (h *Handler) Enabled(_ context.Context, level slog.Level) bool {
 }
 
 func (h *Handler) Handle(_ context.Context, record slog.Record) error {
-	c := newComposer(h.writer, false, h.options.ReplaceAttr, nil)
+	// Compose the entire record before writing it so that
+	// there is only a single call to the writer, made while holding the mutex.
+	var buffer bytes.Buffer
+	c := newComposer(&buffer, false, h.options.ReplaceAttr, nil)
 	if err := c.begin(); err != nil {
 		return fmt.Errorf("begin: %w", err)
 	}
@@ -97,12 +100,15 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	if err := c.end(); err != nil {
 		return fmt.Errorf("end: %w", err)
 	}
+	if _, err := c.Write(newLine); err != nil {
+		return fmt.Errorf("newLine: %w", err)
+	}
 
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
-	if _, err := c.Write(newLine); err != nil {
-		return fmt.Errorf("newLine: %w", err)
+	if _, err := h.writer.Write(buffer.Bytes()); err != nil {
+		return fmt.Errorf("write log line: %w", err)
 	}
 
 	return nil
-- 
2.43.0


From 2f828f66e12cafd9fcffdc702dd280bfe16b12df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:12 +0000
Subject: [PATCH 14/62] fix: sloggy writes no comma before WithAttrs attributes
 when ReplaceAttr removed all basic ones

---
 handlers/sloggy/handler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 15aa58e..31322e9 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -71,9 +71,12 @@ func (h *Handler) Handle(_ context.Context, record slog.Record) error {
 	// The basic attributes are not in any group, the rest are.
 	c.setGroups(h.groups)
 	if h.prefix.Len() > 0 {
-		if _, err := c.Write(commaSpace); err != nil {
-			return fmt.Errorf("comma space: %w", err)
+		if c.started {
+			if _, err := c.Write(commaSpace); err != nil {
+				return fmt.Errorf("comma space: %w", err)
+			}
 		}
+		c.setStarted(true)
 		if _, err := c.Write(h.prefix.Bytes()); err != nil {
 			return fmt.Errorf("write prefix: %w", err)
 		}
-- 
2.43.0


From 3d94fea59e8ffac2ab3682926481038dc2e19c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 15/62] fix: gin writer logs at the configured traffic level
 and at any slog.Leveler

The level for traffic lines was always INFO, and a level other than the four
named ones (or a slog.LevelVar) lost the message with an error.
---
 gin/writer.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/gin/writer.go b/gin/writer.go
index 6d0ede9..ac1d3f9 100644
--- a/gin/writer.go
+++ b/gin/writer.go
@@ -1,6 +1,7 @@
 package gin
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"log/slog"
@@ -154,7 +155,7 @@ func (w *writer) Write(p []byte) (int, error) {
 			// Use the pre-existing log message in variable msg.
 		} else {
 			// The traffic data in the log message parsed.
-			level = slog.LevelInfo
+			level = w.Traffic.Level
 			msg = w.Traffic.Message
 			if !w.Traffic.Embed {
 				args = []any{slog.Group(w.Traffic.Group, args...)}
@@ -162,19 +163,7 @@ func (w *writer) Write(p []byte) (int, error) {
 		}
 	}
 
-	switch level {
-	case slog.LevelDebug:
-		slog.Debug(msg, args...)
-	case slog.LevelError:
-		slog.Error(msg, args...)
-	case slog.LevelInfo:
-		slog.Info(msg, args...)
-	case slog.LevelWarn:
-		slog.Warn(msg, args...)
-	default:
-		// Shouldn't ever happen so no test code coverage here.
-		return 0, fmt.Errorf("unknown log level %s", w.Level)
-	}
+	slog.Log(context.Background(), level.Level(), msg, args...)
 
 	return len(p), nil
 }
-- 
2.43.0


From f359e010e4a574dd4ed060da387e018e856ac377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 16/62] fix: gin.Parse no longer drops the method and URL of a
 line whose URL contains spaces

Gin logs the decoded path so it may contain spaces. Lines without both fields
are now an error (the writer then logs the original text) instead of losing data.
---
 gin/parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gin/parser.go b/gin/parser.go
index 3df5b7d..152e624 100644
--- a/gin/parser.go
+++ b/gin/parser.go
@@ -50,10 +50,11 @@ func Parse(message string) ([]any, error) {
 	// Parse HTTP method and URL from fourth part.
 	// Example of parts[3]:
 	//  GET      "/chart.svg?tag=samber_zap&item=MemAllocs" System=gin
-	parts = ptnSplit.Split(strings.Trim(parts[3], " "), -1)
-	if len(parts) == 2 {
-		result = append(result, slog.String(string(Method), parts[0]))
-		result = append(result, slog.String(string(Url), strings.Trim(parts[1], "\"")))
+	fields := ptnSplit.Split(strings.Trim(parts[3], " "), 2) // The URL may contain spaces.
+	if len(fields) != 2 {
+		return nil, fmt.Errorf("parse Method and Url from '%s'", parts[3])
 	}
+	result = append(result, slog.String(string(Method), fields[0]))
+	result = append(result, slog.String(string(Url), strings.Trim(fields[1], "\"")))
 	return result, nil
 }
-- 
2.43.0


From 6f6e383aa116461645260d7647cddca6785233d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 17/62] fix: a closing bracket in the summary of a warning no
 longer becomes part of its parsed name

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 03c7563..2ff738d 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -20,7 +20,7 @@ import (
 var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
-	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[(.*)]\s*(.*?)\s*$`)
+	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[([^]]*)]\s*(.*?)\s*$`)
 	ptnInstance     = regexp.MustCompile(`^\s*(\S+)(?::\s*(.*?))?\s*$`)
 	ptnExtra        = regexp.MustCompile(`^\s*\+(.*?)\s*$`)
 	ptnLogLine      = regexp.MustCompile(`^\s*\{`)
-- 
2.43.0


From 8d2baaa2c12ce30e1d08ebd51defe4bc5406d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 18/62] fix: ParseWarningData no longer panics at a log record
 that follows no instance

---
 internal/data/warnings_parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 2ff738d..d15091b 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -173,6 +173,10 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		// Do this before ptnInstance as they can otherwise get confused.
 		if ptnLogLine.Match(line) {
+			if instance == nil {
+				slog.Warn("Log record without instance", "line", string(line))
+				continue
+			}
 			instance.line = string(line)
 			// Attempt to pretty-print the log line.
 			var jm map[string]any
-- 
2.43.0


From e2e606fcb2afa7bf94a01e1bf8f1cca5d6363a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 19/62] fix: a handler without verification warnings keeps its
 benchmark warnings

---
 internal/data/warnings_parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index d15091b..a42ceba 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -148,9 +148,12 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 		}
 		if ptnNone.Match(line) {
 			// Minimal amount of data to support score chart.
-			w.ByHandler[handler] = &Levels{
-				lookup: make(map[string]*DataLevel),
-				levels: make([]*DataLevel, 0),
+			// Keep any warnings from data parsed earlier (e.g. benchmark before verification).
+			if !w.HasHandler(handler) {
+				w.ByHandler[handler] = &Levels{
+					lookup: make(map[string]*DataLevel),
+					levels: make([]*DataLevel, 0),
+				}
 			}
 			continue
 		}
-- 
2.43.0


From d2530c938aa6d51311b989b12d640e0af53b080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 20/62] fix: benchmark records by handler have gigabytes and
 terabytes per second like those by test

---
 internal/data/bench_parser.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index f061cc7..19c63fc 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -102,7 +102,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			if b.byTest[test] == nil {
 				b.byTest[test] = make(HandlerRecords)
 			}
-			b.byTest[test][handler] = TestRecord{
+			record := TestRecord{
 				Runs:           runs,
 				NanosPerOp:     nsOps,
 				MemBytesPerOp:  bytesOp,
@@ -111,17 +111,12 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 				GbPerSec:       mbSec / 1_000.0,
 				TbPerSec:       mbSec / 1_000_000.0,
 			}
+			b.byTest[test][handler] = record
 
 			if b.ByHandler[handler] == nil {
 				b.ByHandler[handler] = make(TestRecords)
 			}
-			b.ByHandler[handler][test] = TestRecord{
-				Runs:           runs,
-				NanosPerOp:     nsOps,
-				MemBytesPerOp:  bytesOp,
-				MemAllocsPerOp: allocsOp,
-				MbPerSec:       mbSec,
-			}
+			b.ByHandler[handler][test] = record
 		}
 	}
 	if scanner.Err() != nil {
-- 
2.43.0


From 53203130020cb1d8650fbf9edb770e1fefe910dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 21/62] fix: the end of a handler summary is no longer parsed
 as an instance of a warning

---
 internal/data/warnings_parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index a42ceba..9ca350b 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -137,10 +137,13 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 							w.getHandlerData(h).links = hdlrLinks
 						}
 					}
-					line = sumLine
+					line = bytes.Trim(sumLine, " ")
 					break
 				}
 			}
+			if ptnSummaryEnd.Match(line) {
+				continue
+			}
 		}
 		if handler == "" {
 			// Can't do anything until we recognize something.
-- 
2.43.0


From 1a5a2c2195d858538508648256d7691c0057866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 22/62] fix: HandlerWarningCount is zero for a warning nobody
 issued instead of a panic

---
 internal/data/warnings.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9390806..6a45942 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -116,7 +116,10 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
-	return w.ByWarning[warning.Name].Count[handler]
+	if data, found := w.ByWarning[warning.Name]; found {
+		return data.Count[handler]
+	}
+	return 0
 }
 
 // HasTest returns true if a test is defined with the specified tag.
-- 
2.43.0


From aad8301b342148540da0bb452e68c3d5e1f0802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 23/62] fix: benchmark lines without a CPU suffix
 (GOMAXPROCS=1) are no longer dropped

---
 internal/data/bench_parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 19c63fc..41ad292 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -12,7 +12,7 @@ import (
 var (
 	ptnHandlerDef = regexp.MustCompile(`^#\s*Handler\[(\S+)\]\s*=\s*"(\S+)"\s*$`)
 	ptnWarnLine   = regexp.MustCompile(`^# (.*)`)
-	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-]+)-(\d+)\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
+	ptnDataLine   = regexp.MustCompile(`^Benchmark([^/]+)/Benchmark([^-\s]+)(?:-(\d+))?\s+(\d+)\s+(\d+(?:\.\d+)?)\s+ns/op\b`)
 	ptnAllocsOp   = regexp.MustCompile(`\s(\d+)\s+allocs/op\b`)
 	ptnBytesOp    = regexp.MustCompile(`\s(\d+)\s+B/op\b`)
 	ptnMbSec      = regexp.MustCompile(`\s(\d+(?:\.\d+)?)\s+MB/s`)
@@ -62,7 +62,9 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			// Process a data line.
 			hdlrBytes = matches[1]
 			testBytes = matches[2]
-			if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
+			if len(matches[3]) == 0 {
+				cpus = 1 // Go writes no suffix when GOMAXPROCS is one.
+			} else if cpus, err = strconv.ParseUint(string(matches[3]), 10, 64); err != nil {
 				return fmt.Errorf("parse cpus: %w", err)
 			}
 			if runs, err = strconv.ParseUint(string(matches[4]), 10, 64); err != nil {
-- 
2.43.0


From 777bc7fee54c2244bf3404e63cd143ef0070d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 24/62] fix: ShowHandlersByWarning no longer panics after a
 warning that was not predefined

---
 infra/warning/manager.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index 2756f48..bc77583 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -306,11 +306,16 @@ func (mgr *Manager) ShowWarnings(output io.Writer) {
 				_, _ = fmt.Fprintf(output, "%s  %s\n", mgr.showPrefix, level.String())
 				for _, w := range list {
 					// Track handlers that invoke warning for use in TestMain.
-					warn := mgr.predefined[w.Name]
-					if byWarning[warn] == nil {
-						byWarning[warn] = make(map[string]bool)
+					warn, found := mgr.predefined[w.Name]
+					if !found {
+						warn = ByName(w.Name)
+					}
+					if warn != nil {
+						if byWarning[warn] == nil {
+							byWarning[warn] = make(map[string]bool)
+						}
+						byWarning[warn][mgr.Name] = true
 					}
-					byWarning[warn][mgr.Name] = true
 
 					_, _ = fmt.Fprintf(output, "%s  %4d [%s] %s\n", mgr.showPrefix, w.Count, w.Name, w.Summary)
 					lineSep := "\n" + mgr.showPrefix + "           +"
-- 
2.43.0


From 9f5e7a9a0b9a683c8ba552dbd13d28acee936450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 25/62] fix: ShowHandlersByWarning lists handlers in order
 instead of at random

---
 infra/warning/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index bc77583..ff18125 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -367,6 +367,7 @@ func ShowHandlersByWarning(showPrefix string) {
 				for handler := range handlers {
 					hdlrNames = append(hdlrNames, handler)
 				}
+				sort.Strings(hdlrNames)
 				for _, hdlrName := range hdlrNames {
 					fmt.Printf("%s      %s\n", showPrefix, hdlrName)
 				}
-- 
2.43.0


From cd9508b9ac97995dbf3339cbabf4f1e101fc8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 26/62] fix: a warning created after the first WarningsForLevel
 call is no longer missing from its level

---
 infra/warning/warning.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/infra/warning/warning.go b/infra/warning/warning.go
index 841b57c..01c4425 100644
--- a/infra/warning/warning.go
+++ b/infra/warning/warning.go
@@ -60,6 +60,7 @@ func NewWarning(level Level, name, summary, description string) *Warning {
 		}
 		allWarnings = append(allWarnings, warning)
 		byName[name] = warning
+		clear(warningTree) // Rebuilt when next required.
 	}
 	return warning
 }
-- 
2.43.0


From 30568e4f736a8bcb657816a7c7b23d27be3a3255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:01 +0000
Subject: [PATCH 27/62] fix: handlers, tests, levels and warnings parsed after
 a list was asked for are no longer missing from it

---
 internal/data/bench_parser.go    | 1 +
 internal/data/warnings.go        | 3 +++
 internal/data/warnings_parser.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/internal/data/bench_parser.go b/internal/data/bench_parser.go
index 41ad292..e6a6948 100644
--- a/internal/data/bench_parser.go
+++ b/internal/data/bench_parser.go
@@ -37,6 +37,7 @@ func (b *Benchmarks) ParseBenchmarkData(in io.Reader) error {
 			in = os.Stdin
 		}
 	}
+	b.handlers, b.tests, b.lookup = nil, nil, nil // Lists from before this data.
 	scanner := bufio.NewScanner(in)
 
 	for scanner.Scan() {
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 6a45942..9cfc658 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -318,6 +318,7 @@ func (l *Levels) findLevel(lvl warning.Level, warningName string) *dataWarning {
 			lookup: make(map[string]*dataWarning),
 		}
 		l.lookup[lvl.String()] = lv
+		l.levels = nil
 	}
 	return lv.findWarningGroup(warningName)
 }
@@ -363,6 +364,7 @@ func (l *DataLevel) findWarningGroup(warningName string) *dataWarning {
 		}
 		grp.warning.name = warningName
 		l.lookup[warningName] = grp
+		l.warnings = nil
 	}
 	return grp
 }
@@ -402,6 +404,7 @@ func (w *dataWarning) Summary() string {
 
 func (w *dataWarning) AddInstance(instance *dataInstance) {
 	w.instances = append(w.instances, instance)
+	w.sorted = false
 }
 
 func (w *dataWarning) Instances() []*dataInstance {
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 9ca350b..c0c2f8e 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -49,6 +49,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 			return nil
 		}
 	}
+	w.handlers, w.tests = nil, nil // Lists from before this data.
 	scanner := bufio.NewScanner(in)
 
 	var handler HandlerTag
@@ -74,6 +75,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 				wd.Count[handler]++
 				wd.hdlrMap[handler] = true
 				wd.testMap[test] = true
+				wd.handlers, wd.tests = nil, nil
 			}
 			instance = nil
 		}
-- 
2.43.0


From 25ed1d6f5fe30224182a3805b81fe2de2ccabb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 28/62] fix: FieldCounter.String lists duplicate fields in
 order instead of at random

---
 internal/json/field.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index ee3f90f..4882652 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -106,11 +106,13 @@ func (ctr *FieldCounter) String() string {
 	duplicates := ctr.Duplicates()
 	if len(duplicates) > 0 {
 		builder.WriteRune(',')
-		for field, count := range duplicates {
-			builder.WriteByte(' ')
-			builder.WriteString(field)
-			builder.WriteByte(':')
-			builder.WriteString(strconv.Itoa(int(count)))
+		for _, field := range ctr.Fields() {
+			if count, found := duplicates[field]; found {
+				builder.WriteByte(' ')
+				builder.WriteString(field)
+				builder.WriteByte(':')
+				builder.WriteString(strconv.Itoa(int(count)))
+			}
 		}
 	} else {
 		builder.WriteString(", no duplicates")
-- 
2.43.0


From 5e324e4a50731d6a13993339bc75f7136932747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 29/62] fix: NewHandler no longer changes the options and
 extras of its caller

---
 handlers/flash/extras.go   |  9 +++++++--
 handlers/flash/handler.go  | 12 +++++++-----
 handlers/sloggy/handler.go | 12 +++++++-----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/handlers/flash/extras.go b/handlers/flash/extras.go
index d3658ed..77eb3c1 100644
--- a/handlers/flash/extras.go
+++ b/handlers/flash/extras.go
@@ -2,6 +2,7 @@ package flash
 
 import (
 	"log/slog"
+	"maps"
 	"time"
 )
 
@@ -59,9 +60,13 @@ func (extras *Extras) levelName(level slog.Level) string {
 // Using &Extras{} for this purpose will likely end in tears and a pointer exception
 // when some piece of code goes looking for one of the field values.
 func fixExtras(extras *Extras) *Extras {
-	if extras == nil {
-		extras = &Extras{}
+	var fixed Extras
+	if extras != nil {
+		// Use a copy, the extras of the caller may be shared with other handlers.
+		fixed = *extras
+		fixed.LevelNames = maps.Clone(extras.LevelNames)
 	}
+	extras = &fixed
 	if extras.TimeFormat == "" {
 		extras.TimeFormat = DefaultTimeFormat
 	}
diff --git a/handlers/flash/handler.go b/handlers/flash/handler.go
index d231497..128c46b 100644
--- a/handlers/flash/handler.go
+++ b/handlers/flash/handler.go
@@ -228,11 +228,13 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 // fixOptions makes certain that a slog.HandlerOptions object has been properly created and
 // configured with default values.
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
-	if options == nil {
-		options = &slog.HandlerOptions{}
+	var fixed slog.HandlerOptions
+	if options != nil {
+		// Use a copy, the options of the caller may be shared with other handlers.
+		fixed = *options
 	}
-	if options.Level == nil {
-		options.Level = slog.LevelInfo
+	if fixed.Level == nil {
+		fixed.Level = slog.LevelInfo
 	}
-	return options
+	return &fixed
 }
diff --git a/handlers/sloggy/handler.go b/handlers/sloggy/handler.go
index 31322e9..bb75ad6 100644
--- a/handlers/sloggy/handler.go
+++ b/handlers/sloggy/handler.go
@@ -186,11 +186,13 @@ func (h *Handler) WithGroup(name string) slog.Handler {
 // fixOptions makes certain that a slog.HandlerOptions object has been properly created and
 // configured with default values.
 func fixOptions(options *slog.HandlerOptions) *slog.HandlerOptions {
-	if options == nil {
-		options = &slog.HandlerOptions{}
+	var fixed slog.HandlerOptions
+	if options != nil {
+		// Use a copy, the options of the caller may be shared with other handlers.
+		fixed = *options
 	}
-	if options.Level == nil {
-		options.Level = slog.LevelInfo
+	if fixed.Level == nil {
+		fixed.Level = slog.LevelInfo
 	}
-	return options
+	return &fixed
 }
-- 
2.43.0


From c43a361b1c743d1aaf0aec004cb9d4efee8b2555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 30/62] fix: gin.Parse accepts a URL that contains a bar

---
 gin/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gin/parser.go b/gin/parser.go
index 152e624..5d9ef97 100644
--- a/gin/parser.go
+++ b/gin/parser.go
@@ -29,7 +29,7 @@ var (
 func Parse(message string) ([]any, error) {
 	// Example line:
 	//  200 |    9.522199ms |             ::1 | GET      "/chart.svg?tag=samber_zap&item=MemAllocs"
-	parts := strings.Split(message, "|")
+	parts := strings.SplitN(message, "|", 4) // The URL may contain bars.
 	if len(parts) != 4 {
 		return nil, fmt.Errorf("wrong number of parts: %d", len(parts))
 	}
-- 
2.43.0


From 9611220104bb68b8f05502425bba2358acc5c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 31/62] fix: groups holding only LogValuers that are empty
 groups are left out

---
 handlers/flash/composer.go  | 5 +++--
 handlers/sloggy/composer.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 7b2881a..6a39917 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -326,8 +326,9 @@ func emptyGroup(attrs []slog.Attr) bool {
 		if attr.Equal(infra.EmptyAttr()) {
 			continue
 		}
-		if attr.Value.Kind() == slog.KindGroup {
-			if !emptyGroup(attr.Value.Group()) {
+		// A LogValuer may turn out to be a group, even an empty one.
+		if value := attr.Value.Resolve(); value.Kind() == slog.KindGroup {
+			if !emptyGroup(value.Group()) {
 				return false
 			}
 		} else {
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 23655cd..24c5d8b 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -303,8 +303,9 @@ func emptyGroup(attrs []slog.Attr) bool {
 		if attr.Equal(infra.EmptyAttr()) {
 			continue
 		}
-		if attr.Value.Kind() == slog.KindGroup {
-			if !emptyGroup(attr.Value.Group()) {
+		// A LogValuer may turn out to be a group, even an empty one.
+		if value := attr.Value.Resolve(); value.Kind() == slog.KindGroup {
+			if !emptyGroup(value.Group()) {
 				return false
 			}
 		} else {
-- 
2.43.0


From 43a5fef1b0caffe978672b24851ef0d4a26233d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 32/62] fix: the flash time format may contain characters that
 JSON escapes

---
 handlers/flash/composer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index 6a39917..af0ffaa 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -306,8 +306,10 @@ func (c *composer) addTextMarshaler(m encoding.TextMarshaler) error {
 }
 
 func (c *composer) addTime(t time.Time) {
+	var buf [64]byte
 	c.buffer = append(c.buffer, '"')
-	c.buffer = t.AppendFormat(c.buffer, c.extras.TimeFormat)
+	// The configured format may contain characters that must be escaped.
+	c.addEscaped(t.AppendFormat(buf[:0], c.extras.TimeFormat))
 	c.buffer = append(c.buffer, '"')
 }
 
-- 
2.43.0


From 9e4a844cfd23e7fcf3480bb69e3b891f7dd81538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 33/62] fix: a value whose methods panic no longer makes Handle
 panic

---
 handlers/flash/composer.go  | 14 +++++++++++++-
 handlers/sloggy/composer.go | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/handlers/flash/composer.go b/handlers/flash/composer.go
index af0ffaa..c0b3d29 100644
--- a/handlers/flash/composer.go
+++ b/handlers/flash/composer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"log/slog"
 	"math"
+	"reflect"
 	"slices"
 	"strconv"
 	"time"
@@ -123,7 +124,18 @@ func (c *composer) addAttributes(attrs []slog.Attr) error {
 
 // -----------------------------------------------------------------------------
 
-func (c *composer) addAny(a any) error {
+func (c *composer) addAny(a any) (err error) {
+	defer func() {
+		// Like slog.JSONHandler: a method of the value may panic (e.g. on a nil pointer).
+		if r := recover(); r != nil {
+			if v := reflect.ValueOf(a); v.Kind() == reflect.Pointer && v.IsNil() {
+				c.addString("<nil>")
+			} else {
+				c.addString(fmt.Sprintf("!PANIC: %v", r))
+			}
+			err = nil
+		}
+	}()
 	switch v := a.(type) {
 	case fmt.Stringer:
 		c.addString(v.String())
diff --git a/handlers/sloggy/composer.go b/handlers/sloggy/composer.go
index 24c5d8b..381fe85 100644
--- a/handlers/sloggy/composer.go
+++ b/handlers/sloggy/composer.go
@@ -9,6 +9,7 @@ import (
 	"log/slog"
 	"math"
 	"net"
+	"reflect"
 	"slices"
 	"strconv"
 	"time"
@@ -146,7 +147,17 @@ var boolImage = map[bool][]byte{
 	true:  boolTrue,
 }
 
-func (c *composer) addAny(a any) error {
+func (c *composer) addAny(a any) (err error) {
+	defer func() {
+		// Like slog.JSONHandler: a method of the value may panic (e.g. on a nil pointer).
+		if r := recover(); r != nil {
+			if v := reflect.ValueOf(a); v.Kind() == reflect.Pointer && v.IsNil() {
+				err = c.addString("<nil>")
+			} else {
+				err = c.addString(fmt.Sprintf("!PANIC: %v", r))
+			}
+		}
+	}()
 	switch v := a.(type) {
 	case net.IP:
 		return c.addIPAddress(v)
-- 
2.43.0


From 5e0a48abebbb6dea40517389a21a07b6451e1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 34/62] fix: a test or item in which no handler differs no
 longer makes benchmark scores NaN

---
 internal/scoring/axis/bench/original.go | 6 ++++--
 internal/scoring/axis/benchmarks.go     | 8 ++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/scoring/axis/bench/original.go b/internal/scoring/axis/bench/original.go
index bbf18d1..7d85892 100644
--- a/internal/scoring/axis/bench/original.go
+++ b/internal/scoring/axis/bench/original.go
@@ -71,8 +71,10 @@ func (o *Original) HandlerTest(test data.TestTag, record data.TestRecord) {
 		o.collect += score.Value(float64(o.weight[Nanoseconds]) * 100.0 * (rngTest.nanosHigh - record.NanosPerOp) / scoreRange)
 		o.count += o.weight[Nanoseconds]
 	}
-	o.total += o.collect / score.Value(o.count)
-	o.tests++
+	if o.count > 0 {
+		o.total += o.collect / score.Value(o.count)
+		o.tests++
+	}
 }
 
 // CheckRanges checks the ranges contained in this Original object to the ranges
diff --git a/internal/scoring/axis/benchmarks.go b/internal/scoring/axis/benchmarks.go
index 2ed837a..379c63f 100644
--- a/internal/scoring/axis/benchmarks.go
+++ b/internal/scoring/axis/benchmarks.go
@@ -106,7 +106,9 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 					}
 				}
 				// Newer algorithm.
-				handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
+				if handlerData.ByTest(test).Count > 0 {
+					handlerData.Rollup(bench.OverTests).Add(handlerData.ByTest(test).Average())
+				}
 				original.CheckTest(handlerData, test)
 			}
 		}
@@ -116,7 +118,9 @@ func (b *Benchmarks) Setup(benchMarks *data.Benchmarks, _ *data.Warnings) error
 		handlerData.SetScore(score.ByTest, handlerData.Rollup(bench.OverTests).Average())
 		// Newer algorithm rollup over BenchWeight subs
 		for _, weight := range bench.WeightOrder {
-			handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			if handlerData.SubScore(weight).Count > 0 {
+				handlerData.Rollup(bench.OverData).AddMultiple(handlerData.SubScore(weight).Average(), b.benchWeight[weight])
+			}
 		}
 		handlerData.SetScore(score.ByData, handlerData.Rollup(bench.OverData).Average())
 		original.CheckTotal(handlerData)
-- 
2.43.0


From 3af966202b7fccd4c12d3a40e9360a3fd28d7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 35/62] fix: the data behind pages may be used by several
 requests at the same time

---
 internal/data/bench.go               |  8 +++++++
 internal/data/tags.go                |  8 +++++++
 internal/data/warnings.go            | 36 ++++++++++++++++++++++++++--
 internal/scoring/axis/common/data.go |  5 ++++
 internal/scoring/axis/warn/data.go   |  5 ++++
 internal/scoring/score/keeper.go     | 13 ++++++++--
 6 files changed, 71 insertions(+), 4 deletions(-)

diff --git a/internal/data/bench.go b/internal/data/bench.go
index d51e926..5a95bf1 100644
--- a/internal/data/bench.go
+++ b/internal/data/bench.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"log/slog"
 	"sort"
+	"sync"
 )
 
 var benchFile = flag.String("bench", "", "Load benchmark data from path (optional)")
@@ -68,6 +69,7 @@ type Benchmarks struct {
 	handlerNames map[HandlerTag]string
 	warningText  []byte
 	lookup       map[string]HandlerTag
+	cacheLock    sync.Mutex // Guards handlers, tests, and lookup, which are filled when first used.
 }
 
 func NewBenchmarks() *Benchmarks {
@@ -100,6 +102,8 @@ func (b *Benchmarks) HasTest(tag TestTag) bool {
 // where it will be used to convert handler names to tags.
 // This makes all handler tags the same between Benchmarks and Warnings.
 func (b *Benchmarks) HandlerLookup() map[string]HandlerTag {
+	b.cacheLock.Lock()
+	defer b.cacheLock.Unlock()
 	if b.lookup == nil {
 		b.lookup = make(map[string]HandlerTag, len(b.handlerNames))
 		for tag, name := range b.handlerNames {
@@ -126,6 +130,8 @@ func (b *Benchmarks) HandlerRecordsFor(test TestTag) HandlerRecords {
 
 // HandlerTags returns an array of all handler tags sorted alphabetically.
 func (b *Benchmarks) HandlerTags() []HandlerTag {
+	b.cacheLock.Lock()
+	defer b.cacheLock.Unlock()
 	if b.handlers == nil {
 		for handler := range b.ByHandler {
 			b.handlers = append(b.handlers, handler)
@@ -154,6 +160,8 @@ func (b *Benchmarks) TestRecordsFor(handler HandlerTag) TestRecords {
 
 // TestTags returns an array of all test names sorted alphabetically.
 func (b *Benchmarks) TestTags() []TestTag {
+	b.cacheLock.Lock()
+	defer b.cacheLock.Unlock()
 	if b.tests == nil {
 		for test := range b.byTest {
 			b.tests = append(b.tests, test)
diff --git a/internal/data/tags.go b/internal/data/tags.go
index 1c31fc1..6946e55 100644
--- a/internal/data/tags.go
+++ b/internal/data/tags.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"strings"
+	"sync"
 
 	"github.com/fatih/camelcase"
 )
@@ -17,10 +18,15 @@ const TagSeparator = "."
 // The type is an alias for string so that types can't be confused.
 type TestTag string
 
+// tagNamesLock guards the cached names, which pages of the server ask for at the same time.
+var tagNamesLock sync.Mutex
+
 var testTagNames = make(map[TestTag]string)
 
 // Name returns a name string calculated from the TestTag string and cached for reuse.
 func (tt TestTag) Name() string {
+	tagNamesLock.Lock()
+	defer tagNamesLock.Unlock()
 	name, found := testTagNames[tt]
 	if !found {
 		var builder strings.Builder
@@ -51,6 +57,8 @@ var handlerTagNames = make(map[HandlerTag]string)
 
 // Name returns a name string calculated from the HandlerTag string and cached for reuse.
 func (ht HandlerTag) Name() string {
+	tagNamesLock.Lock()
+	defer tagNamesLock.Unlock()
 	name, found := handlerTagNames[ht]
 	if !found {
 		var builder strings.Builder
diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 9cfc658..60035bf 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -7,6 +7,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/madkins23/go-slog/infra/warning"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -31,6 +32,7 @@ type Warnings struct {
 	handlers    []HandlerTag
 	handlerData map[HandlerTag]*handlerData
 	testNames   map[TestTag]string
+	cacheLock   sync.Mutex // Guards ByWarning, tests, and handlers, which are filled when used.
 }
 
 func NewWarnings() *Warnings {
@@ -103,6 +105,8 @@ func (w *Warnings) HandlerLinks(handler HandlerTag) map[string]string {
 
 // HandlerTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) HandlerTags() []HandlerTag {
+	w.cacheLock.Lock()
+	defer w.cacheLock.Unlock()
 	if len(w.handlers) < 1 {
 		for handler := range w.ByHandler {
 			w.handlers = append(w.handlers, handler)
@@ -116,6 +120,8 @@ func (w *Warnings) HandlerTags() []HandlerTag {
 
 // HandlerWarningCount returns the number of the specified warning associated with the specified handler.
 func (w *Warnings) HandlerWarningCount(handler HandlerTag, warning *warning.Warning) uint {
+	w.cacheLock.Lock()
+	defer w.cacheLock.Unlock()
 	if data, found := w.ByWarning[warning.Name]; found {
 		return data.Count[handler]
 	}
@@ -150,6 +156,8 @@ func (w *Warnings) TestRecordsFor(handler HandlerTag) *Levels {
 
 // TestTags returns an array of all handler names sorted alphabetically.
 func (w *Warnings) TestTags() []TestTag {
+	w.cacheLock.Lock()
+	defer w.cacheLock.Unlock()
 	if len(w.tests) < 1 {
 		for test := range w.byTest {
 			w.tests = append(w.tests, test)
@@ -166,8 +174,9 @@ func (w *Warnings) TestTagsForSource(source string) []TestTag {
 	if !strings.HasSuffix(source, ":") {
 		source += TagSeparator
 	}
-	result := make([]TestTag, 0, len(w.TestTags())) // Causes w.tests to be loaded
-	for _, test := range w.tests {
+	tests := w.TestTags() // Causes w.tests to be loaded
+	result := make([]TestTag, 0, len(tests))
+	for _, test := range tests {
 		if strings.HasPrefix(string(test), source) {
 			result = append(result, test)
 		}
@@ -207,6 +216,8 @@ func (w *Warnings) findTest(test TestTag, level warning.Level, warningName strin
 //
 // This method is public so that it can be used during template expansion in cmd/server.
 func (w *Warnings) FindWarning(name string) *WarningData {
+	w.cacheLock.Lock()
+	defer w.cacheLock.Unlock()
 	data, found := w.ByWarning[name]
 	if !found {
 		data = &WarningData{
@@ -241,6 +252,8 @@ type WarningData struct {
 	handlers []HandlerTag
 	testMap  map[TestTag]bool
 	tests    []TestTag
+
+	cacheLock sync.Mutex // Guards handlers and tests, which are filled when first used.
 }
 
 func (wd *WarningData) HasHandlers() bool {
@@ -248,6 +261,8 @@ func (wd *WarningData) HasHandlers() bool {
 }
 
 func (wd *WarningData) Handlers() []HandlerTag {
+	wd.cacheLock.Lock()
+	defer wd.cacheLock.Unlock()
 	if wd.handlers == nil {
 		wd.handlers = make([]HandlerTag, 0, len(wd.hdlrMap))
 		for key := range wd.hdlrMap {
@@ -264,6 +279,8 @@ func (wd *WarningData) HasTests() bool {
 }
 
 func (wd *WarningData) Tests() []TestTag {
+	wd.cacheLock.Lock()
+	defer wd.cacheLock.Unlock()
 	if wd.tests == nil {
 		wd.tests = make([]TestTag, 0, len(wd.testMap))
 		for key := range wd.testMap {
@@ -284,6 +301,8 @@ func (wd *WarningData) HasUsage() bool {
 type Levels struct {
 	lookup map[string]*DataLevel
 	levels []*DataLevel
+
+	cacheLock sync.Mutex // Guards levels, which are filled when first used.
 }
 
 func (l *Levels) Level(level warning.Level) *DataLevel {
@@ -299,6 +318,8 @@ func (l *Levels) LevelCount(level warning.Level) uint64 {
 }
 
 func (l *Levels) Levels() []*DataLevel {
+	l.cacheLock.Lock()
+	defer l.cacheLock.Unlock()
 	if len(l.levels) < 1 {
 		l.levels = make([]*DataLevel, 0, len(warning.LevelOrder))
 		for _, lvl := range warning.LevelOrder {
@@ -329,6 +350,8 @@ type DataLevel struct {
 	Level    warning.Level
 	lookup   map[string]*dataWarning
 	warnings []*dataWarning
+
+	cacheLock sync.Mutex // Guards warnings, which are filled when first used.
 }
 
 func (l *DataLevel) Count() uint64 {
@@ -344,6 +367,8 @@ func (l *DataLevel) String() string {
 }
 
 func (l *DataLevel) Warnings() []*dataWarning {
+	l.cacheLock.Lock()
+	defer l.cacheLock.Unlock()
 	if l.warnings == nil {
 		l.warnings = make([]*dataWarning, 0, len(l.lookup))
 		for _, w := range l.lookup {
@@ -378,6 +403,7 @@ type dataWarning struct {
 	}
 	instances []*dataInstance
 	sorted    bool
+	cacheLock sync.Mutex // Guards the warning instance and the order of instances.
 }
 
 func (w *dataWarning) Name() string {
@@ -385,6 +411,8 @@ func (w *dataWarning) Name() string {
 }
 
 func (w *dataWarning) HasDescription() bool {
+	w.cacheLock.Lock()
+	defer w.cacheLock.Unlock()
 	if w.warning.instance == nil {
 		w.warning.instance = warning.ByName(w.warning.name)
 	}
@@ -392,6 +420,8 @@ func (w *dataWarning) HasDescription() bool {
 }
 
 func (w *dataWarning) Description() template.HTML {
+	w.cacheLock.Lock()
+	defer w.cacheLock.Unlock()
 	if w.warning.instance == nil {
 		w.warning.instance = warning.ByName(w.warning.name)
 	}
@@ -408,6 +438,8 @@ func (w *dataWarning) AddInstance(instance *dataInstance) {
 }
 
 func (w *dataWarning) Instances() []*dataInstance {
+	w.cacheLock.Lock()
+	defer w.cacheLock.Unlock()
 	if !w.sorted {
 		sort.Slice(w.instances, func(i, j int) bool {
 			return w.instances[i].name < w.instances[j].name
diff --git a/internal/scoring/axis/common/data.go b/internal/scoring/axis/common/data.go
index a0a8834..a84e95c 100644
--- a/internal/scoring/axis/common/data.go
+++ b/internal/scoring/axis/common/data.go
@@ -1,6 +1,8 @@
 package common
 
 import (
+	"sync"
+
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/scoring/score"
 )
@@ -8,6 +10,7 @@ import (
 type HandlerData struct {
 	byTest map[data.TestTag]*score.Average
 	scores map[score.Type]score.Value
+	lock   sync.Mutex // Guards byTest, which is filled when used.
 }
 
 func NewHandlerData() *HandlerData {
@@ -18,6 +21,8 @@ func NewHandlerData() *HandlerData {
 }
 
 func (hd *HandlerData) ByTest(test data.TestTag) *score.Average {
+	hd.lock.Lock()
+	defer hd.lock.Unlock()
 	if hd.byTest[test] == nil {
 		hd.byTest[test] = &score.Average{}
 	}
diff --git a/internal/scoring/axis/warn/data.go b/internal/scoring/axis/warn/data.go
index e00c6f9..59a86e7 100644
--- a/internal/scoring/axis/warn/data.go
+++ b/internal/scoring/axis/warn/data.go
@@ -1,6 +1,8 @@
 package warn
 
 import (
+	"sync"
+
 	"github.com/madkins23/go-slog/infra/warning"
 	"github.com/madkins23/go-slog/internal/scoring/axis/common"
 	"github.com/madkins23/go-slog/internal/scoring/score"
@@ -10,6 +12,7 @@ type HandlerData struct {
 	*common.HandlerData
 	byLevel map[warning.Level]*score.Average
 	counts  map[warning.Level]uint64
+	lock    sync.Mutex // Guards byLevel, which is filled when used.
 }
 
 func NewHandlerData() *HandlerData {
@@ -30,6 +33,8 @@ func (hd *HandlerData) SetCountFor(level warning.Level, count uint64) {
 }
 
 func (hd *HandlerData) ByLevel(level warning.Level) *score.Average {
+	hd.lock.Lock()
+	defer hd.lock.Unlock()
 	if hd.byLevel[level] == nil {
 		hd.byLevel[level] = &score.Average{}
 	}
diff --git a/internal/scoring/score/keeper.go b/internal/scoring/score/keeper.go
index af96567..c7cbffb 100644
--- a/internal/scoring/score/keeper.go
+++ b/internal/scoring/score/keeper.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"html/template"
 	"sort"
+	"sync"
 
 	"github.com/madkins23/go-slog/internal/data"
 	"github.com/madkins23/go-slog/internal/markdown"
@@ -113,13 +114,14 @@ var (
 	//go:embed doc/overview.md
 	overviewMD   string
 	overviewHTML template.HTML
+	overviewOnce sync.Once
 )
 
 // Overview returns documentation applicable to all scorekeepers.
 func (k *Keeper) Overview() template.HTML {
-	if overviewHTML == "" {
+	overviewOnce.Do(func() {
 		overviewHTML = markdown.TemplateHTML(overviewMD, false)
-	}
+	})
 	return overviewHTML
 }
 
@@ -140,9 +142,12 @@ func (k *Keeper) Y() Axis {
 var (
 	keepers    map[KeeperTag]*Keeper
 	keeperTags []KeeperTag
+	keeperLock sync.Mutex // Guards keepers and keeperTags.
 )
 
 func AddKeeper(keeper *Keeper) error {
+	keeperLock.Lock()
+	defer keeperLock.Unlock()
 	if keepers == nil {
 		keepers = make(map[KeeperTag]*Keeper)
 	}
@@ -156,10 +161,14 @@ func AddKeeper(keeper *Keeper) error {
 }
 
 func GetKeeper(tag KeeperTag) *Keeper {
+	keeperLock.Lock()
+	defer keeperLock.Unlock()
 	return keepers[tag]
 }
 
 func Keepers() []KeeperTag {
+	keeperLock.Lock()
+	defer keeperLock.Unlock()
 	if keeperTags == nil {
 		keeperTags = make([]KeeperTag, 0, len(keepers))
 		for tag := range keepers {
-- 
2.43.0


From b7d288106703c591cd9325ea4048e69d079a21f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:54 +0000
Subject: [PATCH 36/62] fix: rendering Markdown no longer depends on what was
 rendered before

---
 internal/markdown/html.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/markdown/html.go b/internal/markdown/html.go
index fbf3c4e..7c8af34 100644
--- a/internal/markdown/html.go
+++ b/internal/markdown/html.go
@@ -9,13 +9,6 @@ import (
 	"github.com/gomarkdown/markdown/parser"
 )
 
-var renderer *html.Renderer
-
-func init() {
-	// Prebuild the HTML renderer.
-	renderer = html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
-}
-
 // TemplateHTML renders Markdown into template.HTML suitable for use in cmd/server.
 // Embedded Markdown in Go code blocks is typically quoted using back quotes ("`")
 // which are used within Markdown for fixed font markup.
@@ -29,6 +22,8 @@ func TemplateHTML(md string, fixCarets bool) template.HTML {
 	// Can't pre-build the parser in init(), it fails the second time it's used.
 	mdParser := parser.NewWithExtensions(
 		parser.CommonExtensions | parser.AutoHeadingIDs | parser.NoEmptyLineBeforeBlock)
+	// The renderer keeps what it has rendered, so there must be one for each text as well.
+	renderer := html.NewRenderer(html.RendererOptions{Flags: html.HrefTargetBlank})
 	if fixCarets {
 		md = strings.Replace(md, "^", "`", -1)
 	}
-- 
2.43.0


From 6408849f6768194329aff5d07510f474f3b4568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 37/62] fix: instances of a warning stay in the order of the
 report

---
 internal/data/warnings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 60035bf..edb8b68 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -441,7 +441,7 @@ func (w *dataWarning) Instances() []*dataInstance {
 	w.cacheLock.Lock()
 	defer w.cacheLock.Unlock()
 	if !w.sorted {
-		sort.Slice(w.instances, func(i, j int) bool {
+		sort.SliceStable(w.instances, func(i, j int) bool {
 			return w.instances[i].name < w.instances[j].name
 		})
 		w.sorted = true
-- 
2.43.0


From dc7ea590d87cdc272ff52e163f41f8acf96f58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 38/62] fix: the benchmark suite looks for duplicate fields

---
 bench/tests/checks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index ae1f904..929481d 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -165,6 +165,10 @@ func noDuplicates(testName string) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
 		logMap = getLogMap(captured, logMap, manager)
 		counter := intJSON.NewFieldCounter(captured)
+		if err := counter.Parse(); err != nil {
+			manager.AddWarningFnText(warning.TestError, testName, err.Error(), string(captured))
+			return fmt.Errorf("count fields: %w", err)
+		}
 		if len(counter.Duplicates()) > 0 {
 			manager.AddWarningFn(warning.Duplicates, testName, string(captured))
 			return warning.Duplicates.ErrorExtra(testName)
-- 
2.43.0


From 310ccf7524ce9d7a1353d2086261a6e6349f7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 39/62] fix: the benchmark suite notices that the big group is
 missing

---
 bench/tests/checks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index 929481d..0eb43c5 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -37,6 +37,10 @@ func bigGroupChecker(testName string) VerifyFn {
 				manager.AddWarning(warning.Mismatch, text, "")
 				return warning.Mismatch.ErrorExtra(text)
 			}
+		} else {
+			text := testName + ": no group"
+			manager.AddWarning(warning.Mismatch, text, "")
+			return warning.Mismatch.ErrorExtra(text)
 		}
 		return nil
 	}
-- 
2.43.0


From 6eff09f068a9dec5a897ee778e3dba6c0069d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 40/62] fix: the benchmark suite notices that nothing was
 logged

---
 bench/tests/checks.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index 0eb43c5..7f0942a 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -241,8 +241,14 @@ func verify(fns ...VerifyFn) VerifyFn {
 }
 
 // verifyLines applies the specified function(s) to each line in the captured bytes.
+// There must be at least one line.
 func verifyLines(fns ...VerifyFn) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
+		if len(captured) == 0 {
+			text := "no lines"
+			manager.AddWarning(warning.Mismatch, text, "")
+			return warning.Mismatch.ErrorExtra(text)
+		}
 		var buffer bytes.Buffer
 		lineReader := bufio.NewReader(bytes.NewReader(captured))
 		for {
-- 
2.43.0


From d40f265520f164ac400be1b3b849827cdee646d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 41/62] fix: TestDerivedInvariantWithGroup derives with
 WithGroup

---
 verify/tests/documented.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verify/tests/documented.go b/verify/tests/documented.go
index 1844c9c..87e42e9 100644
--- a/verify/tests/documented.go
+++ b/verify/tests/documented.go
@@ -127,7 +127,7 @@ func (suite *SlogTestSuite) TestDerivedInvariantWithGroup() {
 	origLogMap := suite.logMap()
 	delete(origLogMap, slog.TimeKey)
 	suite.bufferReset()
-	withGroupLogger := simpleLogger.With("alpha", "omega")
+	withGroupLogger := simpleLogger.WithGroup("alpha")
 	withGroupLogger.Info(message)
 	suite.bufferReset()
 	simpleLogger.Info(message)
-- 
2.43.0


From 019d256d70ba4690bedcff80a7cf91573e9fbbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 42/62] fix: TestLogAttributes records TimeSeconds for times in
 seconds

---
 verify/tests/documented.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verify/tests/documented.go b/verify/tests/documented.go
index 87e42e9..cb791d0 100644
--- a/verify/tests/documented.go
+++ b/verify/tests/documented.go
@@ -232,9 +232,9 @@ func (suite *SlogTestSuite) TestLogAttributes() {
 	} else if suite.HasWarning(warning.TimeSeconds) {
 		// Some handlers log times as RFC3339 w/seconds instead of RFC3339Nano
 		if t.Format(time.RFC3339) == when {
-			suite.AddWarning(warning.TimeMillis, when, "")
+			suite.AddWarning(warning.TimeSeconds, when, "")
 		} else {
-			suite.AddUnused(warning.TimeMillis, "")
+			suite.AddUnused(warning.TimeSeconds, "")
 		}
 	} else {
 		// Based on the existing behavior of log/slog it should be RFC3339Nano.
-- 
2.43.0


From aa2d6b8fc1d482ab65ae28c7a81461b71292f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 43/62] fix: NoNilValue is recorded when nil values are not
 logged and unused when they are

---
 verify/tests/slogtest.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/verify/tests/slogtest.go b/verify/tests/slogtest.go
index de46244..0959f85 100644
--- a/verify/tests/slogtest.go
+++ b/verify/tests/slogtest.go
@@ -580,9 +580,13 @@ func (suite *SlogTestSuite) TestAttributeNil() {
 		suite.checkFieldCount(6, logMap)
 		suite.Assert().True(found)
 		suite.Assert().Nil(value)
+	} else if found {
+		suite.checkFieldCount(6, logMap)
+		suite.Assert().Nil(value)
+		suite.AddUnused(warning.NoNilValue, suite.String())
 	} else {
 		suite.checkFieldCount(5, logMap)
-		suite.Assert().False(found)
+		suite.AddWarning(warning.NoNilValue, "", suite.String())
 	}
 	suite.Assert().Equal("one", logMap["first"])
 	suite.Assert().Equal(math.Pi, logMap["pi"])
@@ -642,9 +646,13 @@ func (suite *SlogTestSuite) TestAttributeWithNil() {
 		suite.checkFieldCount(6, logMap)
 		suite.Assert().True(found)
 		suite.Assert().Nil(value)
+	} else if found {
+		suite.checkFieldCount(6, logMap)
+		suite.Assert().Nil(value)
+		suite.AddUnused(warning.NoNilValue, suite.String())
 	} else {
 		suite.checkFieldCount(5, logMap)
-		suite.Assert().False(found)
+		suite.AddWarning(warning.NoNilValue, "", suite.String())
 	}
 	suite.Assert().Equal("one", logMap["first"])
 	suite.Assert().Equal(math.Pi, logMap["pi"])
-- 
2.43.0


From 2aec4d5d8f5fb42b008804324b20ab607a620df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 44/62] fix: the line number of a source may be a number when
 SourceKey is declared

---
 verify/tests/checks.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verify/tests/checks.go b/verify/tests/checks.go
index 0417812..3ce9542 100644
--- a/verify/tests/checks.go
+++ b/verify/tests/checks.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"log/slog"
+	"reflect"
 	"strings"
 	"time"
 
@@ -150,13 +151,13 @@ func (suite *SlogTestSuite) checkSourceKey(fieldCount uint, logMap map[string]an
 		}
 		var text strings.Builder
 		sep := ""
-		for field := range sourceKeys {
+		for field, exemplar := range sourceKeys {
 			var state string
 			value := source[field]
 			if value == nil {
 				state = "missing"
-			} else if _, ok := value.(string); !ok {
-				state = "not a string"
+			} else if reflect.TypeOf(value) != reflect.TypeOf(exemplar) {
+				state = fmt.Sprintf("not a %T", exemplar)
 			}
 			if state != "" {
 				text.WriteString(fmt.Sprintf("%s%s: %s", sep, field, state))
-- 
2.43.0


From d7ab29d204a63e3f39a36298b3fdc0cb18a13bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 45/62] fix: DefaultLevel is not recorded when the default
 level is INFO

---
 verify/tests/documented.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verify/tests/documented.go b/verify/tests/documented.go
index cb791d0..944ad77 100644
--- a/verify/tests/documented.go
+++ b/verify/tests/documented.go
@@ -78,7 +78,7 @@ func (suite *SlogTestSuite) TestDefaultLevel() {
 					}
 				}
 			}
-			if name != "" {
+			if name != "" && level != slog.LevelInfo {
 				where := ""
 				if options.AddSource {
 					where = " with AddSource"
-- 
2.43.0


From 84981920427c1e4d9c329abba4545d69acaa9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 46/62] fix: a missing level is not forgiven by LevelCase

---
 verify/tests/checks.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verify/tests/checks.go b/verify/tests/checks.go
index 3ce9542..f783e91 100644
--- a/verify/tests/checks.go
+++ b/verify/tests/checks.go
@@ -48,7 +48,6 @@ func (suite *SlogTestSuite) checkLevelKey(level string, logMap map[string]any) {
 			}
 		}
 		suite.AddUnused(warning.LevelCase, "")
-		return
 	}
 	suite.Assert().Equal(level, logMap[slog.LevelKey])
 }
-- 
2.43.0


From 9e2473b4e2022cd67b675292d7543b85a7f7e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 47/62] fix: TestGroupDuration compares the text of the inner
 duration

---
 verify/tests/other.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verify/tests/other.go b/verify/tests/other.go
index 4995922..78409f5 100644
--- a/verify/tests/other.go
+++ b/verify/tests/other.go
@@ -123,7 +123,7 @@ func (suite *SlogTestSuite) TestGroupDuration() {
 		}
 	} else if ok {
 		suite.Assert().Equal(outer, inner)
-	} else if inStr, ok = out.(string); ok {
+	} else if inStr, ok = in.(string); ok {
 		suite.Assert().Equal(outStr, inStr)
 	}
 }
-- 
2.43.0


From 12ef018a3c4b8c0801e3cc64343fc01de8c6350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 48/62] fix: ReplAttrGroup forgives attributes that come with
 the wrong groups

---
 verify/tests/replace.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/verify/tests/replace.go b/verify/tests/replace.go
index af01394..d5c1817 100644
--- a/verify/tests/replace.go
+++ b/verify/tests/replace.go
@@ -127,6 +127,11 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 		// Nothing to see here, move along.
 		return
 	}
+	unexpected := func(what, key, group string) {
+		if !suite.HasWarning(warning.ReplAttrGroup) {
+			suite.Assert().Failf(what, "'%s' group: '%s'", key, group)
+		}
+	}
 	logger := suite.Logger(&slog.HandlerOptions{
 		Level: slog.LevelInfo,
 		ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
@@ -144,7 +149,7 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 				case slog.TimeKey, slog.LevelKey, slog.MessageKey:
 					// Do nothing here.
 				default:
-					suite.Assert().Fail("unexpected key", "'%s' group: '%s'", a.Key, current)
+					unexpected("unexpected key", a.Key, current)
 				}
 			case "group":
 				switch a.Key {
@@ -153,7 +158,7 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 				case "delta":
 					return infra.EmptyAttr()
 				default:
-					suite.Assert().Fail("unexpected group key", "'%s' group: '%s'", a.Key, current)
+					unexpected("unexpected group key", a.Key, current)
 				}
 			case "subGroup":
 				switch a.Key {
@@ -164,7 +169,7 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 				case "golf", "hotel":
 					return infra.EmptyAttr()
 				default:
-					suite.Assert().Failf("unexpected subGroup key", "'%s' group: '%s'", a.Key, current)
+					unexpected("unexpected subGroup key", a.Key, current)
 				}
 			}
 			return a
-- 
2.43.0


From 7d8d8d933cf36ca916aeafaa4c4284c739bebcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 49/62] fix: the tests of replace functions record NoReplAttr
 only when nothing is replaced

---
 verify/tests/replace.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/verify/tests/replace.go b/verify/tests/replace.go
index d5c1817..f02274e 100644
--- a/verify/tests/replace.go
+++ b/verify/tests/replace.go
@@ -264,8 +264,8 @@ func (suite *SlogTestSuite) TestReplaceAttrFnLevelCase() {
 		if !ok {
 			issues = append(issues, "no level key")
 		}
-		if level != "" {
-			issues = append(issues, "level value not null")
+		if level != fixed {
+			issues = append(issues, "level value not changed: "+level)
 		}
 		if len(issues) > 0 {
 			suite.AddWarning(warnings[0], strings.Join(issues, "\n"), "")
@@ -342,7 +342,7 @@ func (suite *SlogTestSuite) TestReplaceAttrFnChangeKey() {
 	if len(warnings) > 0 {
 		issues := make([]string, 0, 3)
 		value, found := logMap[slog.MessageKey]
-		if len(logMap) < 4 {
+		if len(logMap) < 3 {
 			issues = append(issues, fmt.Sprintf("too few attributes: %d", len(logMap)))
 		}
 		if !found {
@@ -434,14 +434,11 @@ func (suite *SlogTestSuite) TestReplaceAttrFnRemoveTime() {
 	warnings := suite.HasWarnings(warning.NoReplAttrBasic, warning.NoReplAttr)
 	if len(warnings) > 0 {
 		issues := make([]string, 0, 3)
-		if len(logMap) < 3 {
+		if len(logMap) < 2 {
 			issues = append(issues, fmt.Sprintf("too few attributes: %d", len(logMap)))
 		}
-		if !ok {
-			issues = append(issues, "no time key")
-		}
-		if value != "" {
-			issues = append(issues, "time value not empty string")
+		if ok {
+			issues = append(issues, fmt.Sprintf("time still exists: %v", value))
 		}
 		if len(issues) > 0 {
 			suite.AddWarning(warnings[0], strings.Join(issues, "\n"), "")
-- 
2.43.0


From 9e05f9ee480329a34f8361bbba2636adcefa4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 50/62] fix: TestDerivedInvariantWithGroup logs something that
 would be in the group

---
 verify/tests/documented.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verify/tests/documented.go b/verify/tests/documented.go
index 944ad77..0799255 100644
--- a/verify/tests/documented.go
+++ b/verify/tests/documented.go
@@ -123,14 +123,14 @@ func (suite *SlogTestSuite) TestDerivedInvariantWith() {
 //   - https://github.com/golang/example/blob/master/slog-handler-guide/README.md
 func (suite *SlogTestSuite) TestDerivedInvariantWithGroup() {
 	simpleLogger := suite.Logger(infra.SimpleOptions())
-	simpleLogger.Info(message)
+	simpleLogger.Info(message, "key", "value")
 	origLogMap := suite.logMap()
 	delete(origLogMap, slog.TimeKey)
 	suite.bufferReset()
 	withGroupLogger := simpleLogger.WithGroup("alpha")
 	withGroupLogger.Info(message)
 	suite.bufferReset()
-	simpleLogger.Info(message)
+	simpleLogger.Info(message, "key", "value")
 	currLogMap := suite.logMap()
 	delete(currLogMap, slog.TimeKey)
 	suite.Assert().Equal(origLogMap, currLogMap)
-- 
2.43.0


From 21b2f75627a04e9a15e0c73d8e5821d590085c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 51/62] Revert the fixes to the tests of the suites

bench/tests and verify/tests count as test files, which are to stay as they are.
---
 bench/tests/checks.go      | 14 --------------
 verify/tests/checks.go     |  8 ++++----
 verify/tests/documented.go | 12 ++++++------
 verify/tests/other.go      |  2 +-
 verify/tests/replace.go    | 26 ++++++++++++--------------
 verify/tests/slogtest.go   | 12 ++----------
 6 files changed, 25 insertions(+), 49 deletions(-)

diff --git a/bench/tests/checks.go b/bench/tests/checks.go
index 7f0942a..ae1f904 100644
--- a/bench/tests/checks.go
+++ b/bench/tests/checks.go
@@ -37,10 +37,6 @@ func bigGroupChecker(testName string) VerifyFn {
 				manager.AddWarning(warning.Mismatch, text, "")
 				return warning.Mismatch.ErrorExtra(text)
 			}
-		} else {
-			text := testName + ": no group"
-			manager.AddWarning(warning.Mismatch, text, "")
-			return warning.Mismatch.ErrorExtra(text)
 		}
 		return nil
 	}
@@ -169,10 +165,6 @@ func noDuplicates(testName string) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
 		logMap = getLogMap(captured, logMap, manager)
 		counter := intJSON.NewFieldCounter(captured)
-		if err := counter.Parse(); err != nil {
-			manager.AddWarningFnText(warning.TestError, testName, err.Error(), string(captured))
-			return fmt.Errorf("count fields: %w", err)
-		}
 		if len(counter.Duplicates()) > 0 {
 			manager.AddWarningFn(warning.Duplicates, testName, string(captured))
 			return warning.Duplicates.ErrorExtra(testName)
@@ -241,14 +233,8 @@ func verify(fns ...VerifyFn) VerifyFn {
 }
 
 // verifyLines applies the specified function(s) to each line in the captured bytes.
-// There must be at least one line.
 func verifyLines(fns ...VerifyFn) VerifyFn {
 	return func(captured []byte, logMap map[string]any, manager *warning.Manager) error {
-		if len(captured) == 0 {
-			text := "no lines"
-			manager.AddWarning(warning.Mismatch, text, "")
-			return warning.Mismatch.ErrorExtra(text)
-		}
 		var buffer bytes.Buffer
 		lineReader := bufio.NewReader(bytes.NewReader(captured))
 		for {
diff --git a/verify/tests/checks.go b/verify/tests/checks.go
index f783e91..0417812 100644
--- a/verify/tests/checks.go
+++ b/verify/tests/checks.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"fmt"
 	"log/slog"
-	"reflect"
 	"strings"
 	"time"
 
@@ -48,6 +47,7 @@ func (suite *SlogTestSuite) checkLevelKey(level string, logMap map[string]any) {
 			}
 		}
 		suite.AddUnused(warning.LevelCase, "")
+		return
 	}
 	suite.Assert().Equal(level, logMap[slog.LevelKey])
 }
@@ -150,13 +150,13 @@ func (suite *SlogTestSuite) checkSourceKey(fieldCount uint, logMap map[string]an
 		}
 		var text strings.Builder
 		sep := ""
-		for field, exemplar := range sourceKeys {
+		for field := range sourceKeys {
 			var state string
 			value := source[field]
 			if value == nil {
 				state = "missing"
-			} else if reflect.TypeOf(value) != reflect.TypeOf(exemplar) {
-				state = fmt.Sprintf("not a %T", exemplar)
+			} else if _, ok := value.(string); !ok {
+				state = "not a string"
 			}
 			if state != "" {
 				text.WriteString(fmt.Sprintf("%s%s: %s", sep, field, state))
diff --git a/verify/tests/documented.go b/verify/tests/documented.go
index 0799255..1844c9c 100644
--- a/verify/tests/documented.go
+++ b/verify/tests/documented.go
@@ -78,7 +78,7 @@ func (suite *SlogTestSuite) TestDefaultLevel() {
 					}
 				}
 			}
-			if name != "" && level != slog.LevelInfo {
+			if name != "" {
 				where := ""
 				if options.AddSource {
 					where = " with AddSource"
@@ -123,14 +123,14 @@ func (suite *SlogTestSuite) TestDerivedInvariantWith() {
 //   - https://github.com/golang/example/blob/master/slog-handler-guide/README.md
 func (suite *SlogTestSuite) TestDerivedInvariantWithGroup() {
 	simpleLogger := suite.Logger(infra.SimpleOptions())
-	simpleLogger.Info(message, "key", "value")
+	simpleLogger.Info(message)
 	origLogMap := suite.logMap()
 	delete(origLogMap, slog.TimeKey)
 	suite.bufferReset()
-	withGroupLogger := simpleLogger.WithGroup("alpha")
+	withGroupLogger := simpleLogger.With("alpha", "omega")
 	withGroupLogger.Info(message)
 	suite.bufferReset()
-	simpleLogger.Info(message, "key", "value")
+	simpleLogger.Info(message)
 	currLogMap := suite.logMap()
 	delete(currLogMap, slog.TimeKey)
 	suite.Assert().Equal(origLogMap, currLogMap)
@@ -232,9 +232,9 @@ func (suite *SlogTestSuite) TestLogAttributes() {
 	} else if suite.HasWarning(warning.TimeSeconds) {
 		// Some handlers log times as RFC3339 w/seconds instead of RFC3339Nano
 		if t.Format(time.RFC3339) == when {
-			suite.AddWarning(warning.TimeSeconds, when, "")
+			suite.AddWarning(warning.TimeMillis, when, "")
 		} else {
-			suite.AddUnused(warning.TimeSeconds, "")
+			suite.AddUnused(warning.TimeMillis, "")
 		}
 	} else {
 		// Based on the existing behavior of log/slog it should be RFC3339Nano.
diff --git a/verify/tests/other.go b/verify/tests/other.go
index 78409f5..4995922 100644
--- a/verify/tests/other.go
+++ b/verify/tests/other.go
@@ -123,7 +123,7 @@ func (suite *SlogTestSuite) TestGroupDuration() {
 		}
 	} else if ok {
 		suite.Assert().Equal(outer, inner)
-	} else if inStr, ok = in.(string); ok {
+	} else if inStr, ok = out.(string); ok {
 		suite.Assert().Equal(outStr, inStr)
 	}
 }
diff --git a/verify/tests/replace.go b/verify/tests/replace.go
index f02274e..af01394 100644
--- a/verify/tests/replace.go
+++ b/verify/tests/replace.go
@@ -127,11 +127,6 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 		// Nothing to see here, move along.
 		return
 	}
-	unexpected := func(what, key, group string) {
-		if !suite.HasWarning(warning.ReplAttrGroup) {
-			suite.Assert().Failf(what, "'%s' group: '%s'", key, group)
-		}
-	}
 	logger := suite.Logger(&slog.HandlerOptions{
 		Level: slog.LevelInfo,
 		ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
@@ -149,7 +144,7 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 				case slog.TimeKey, slog.LevelKey, slog.MessageKey:
 					// Do nothing here.
 				default:
-					unexpected("unexpected key", a.Key, current)
+					suite.Assert().Fail("unexpected key", "'%s' group: '%s'", a.Key, current)
 				}
 			case "group":
 				switch a.Key {
@@ -158,7 +153,7 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 				case "delta":
 					return infra.EmptyAttr()
 				default:
-					unexpected("unexpected group key", a.Key, current)
+					suite.Assert().Fail("unexpected group key", "'%s' group: '%s'", a.Key, current)
 				}
 			case "subGroup":
 				switch a.Key {
@@ -169,7 +164,7 @@ func (suite *SlogTestSuite) TestReplaceAttrGroup() {
 				case "golf", "hotel":
 					return infra.EmptyAttr()
 				default:
-					unexpected("unexpected subGroup key", a.Key, current)
+					suite.Assert().Failf("unexpected subGroup key", "'%s' group: '%s'", a.Key, current)
 				}
 			}
 			return a
@@ -264,8 +259,8 @@ func (suite *SlogTestSuite) TestReplaceAttrFnLevelCase() {
 		if !ok {
 			issues = append(issues, "no level key")
 		}
-		if level != fixed {
-			issues = append(issues, "level value not changed: "+level)
+		if level != "" {
+			issues = append(issues, "level value not null")
 		}
 		if len(issues) > 0 {
 			suite.AddWarning(warnings[0], strings.Join(issues, "\n"), "")
@@ -342,7 +337,7 @@ func (suite *SlogTestSuite) TestReplaceAttrFnChangeKey() {
 	if len(warnings) > 0 {
 		issues := make([]string, 0, 3)
 		value, found := logMap[slog.MessageKey]
-		if len(logMap) < 3 {
+		if len(logMap) < 4 {
 			issues = append(issues, fmt.Sprintf("too few attributes: %d", len(logMap)))
 		}
 		if !found {
@@ -434,11 +429,14 @@ func (suite *SlogTestSuite) TestReplaceAttrFnRemoveTime() {
 	warnings := suite.HasWarnings(warning.NoReplAttrBasic, warning.NoReplAttr)
 	if len(warnings) > 0 {
 		issues := make([]string, 0, 3)
-		if len(logMap) < 2 {
+		if len(logMap) < 3 {
 			issues = append(issues, fmt.Sprintf("too few attributes: %d", len(logMap)))
 		}
-		if ok {
-			issues = append(issues, fmt.Sprintf("time still exists: %v", value))
+		if !ok {
+			issues = append(issues, "no time key")
+		}
+		if value != "" {
+			issues = append(issues, "time value not empty string")
 		}
 		if len(issues) > 0 {
 			suite.AddWarning(warnings[0], strings.Join(issues, "\n"), "")
diff --git a/verify/tests/slogtest.go b/verify/tests/slogtest.go
index 0959f85..de46244 100644
--- a/verify/tests/slogtest.go
+++ b/verify/tests/slogtest.go
@@ -580,13 +580,9 @@ func (suite *SlogTestSuite) TestAttributeNil() {
 		suite.checkFieldCount(6, logMap)
 		suite.Assert().True(found)
 		suite.Assert().Nil(value)
-	} else if found {
-		suite.checkFieldCount(6, logMap)
-		suite.Assert().Nil(value)
-		suite.AddUnused(warning.NoNilValue, suite.String())
 	} else {
 		suite.checkFieldCount(5, logMap)
-		suite.AddWarning(warning.NoNilValue, "", suite.String())
+		suite.Assert().False(found)
 	}
 	suite.Assert().Equal("one", logMap["first"])
 	suite.Assert().Equal(math.Pi, logMap["pi"])
@@ -646,13 +642,9 @@ func (suite *SlogTestSuite) TestAttributeWithNil() {
 		suite.checkFieldCount(6, logMap)
 		suite.Assert().True(found)
 		suite.Assert().Nil(value)
-	} else if found {
-		suite.checkFieldCount(6, logMap)
-		suite.Assert().Nil(value)
-		suite.AddUnused(warning.NoNilValue, suite.String())
 	} else {
 		suite.checkFieldCount(5, logMap)
-		suite.AddWarning(warning.NoNilValue, "", suite.String())
+		suite.Assert().False(found)
 	}
 	suite.Assert().Equal("one", logMap["first"])
 	suite.Assert().Equal(math.Pi, logMap["pi"])
-- 
2.43.0


From 4cde92d93925a4c977b57c66015d6c9863bd1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 52/62] fix: samber/zap and samber/logrus log every record the
 level in force allows

The inner loggers had the level as it was when the handler was made,
converted to one they have: a LevelVar lowered later, or a level in between,
lost records without a word. The handlers in front of them check the level.
---
 creator/samberlogrus/creator.go | 4 ++--
 creator/samberzap/creator.go    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/creator/samberlogrus/creator.go b/creator/samberlogrus/creator.go
index f9ef176..f62936f 100644
--- a/creator/samberlogrus/creator.go
+++ b/creator/samberlogrus/creator.go
@@ -7,7 +7,6 @@ import (
 	slogrus "github.com/samber/slog-logrus/v2"
 	"github.com/sirupsen/logrus"
 
-	"github.com/madkins23/go-slog/creator/utillogrus"
 	"github.com/madkins23/go-slog/infra"
 )
 
@@ -31,7 +30,8 @@ func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
 		level = slog.LevelInfo
 	}
 	log := logrus.New()
-	log.SetLevel(utillogrus.ConvertSlogLevel2Logrus(level.Level()))
+	// The slog handler checks the level, which may change and may be one that logrus does not have.
+	log.SetLevel(logrus.TraceLevel)
 	log.SetOutput(w)
 	log.SetFormatter(&logrus.JSONFormatter{})
 	return slogrus.Option{
diff --git a/creator/samberzap/creator.go b/creator/samberzap/creator.go
index e2dc348..fd7cd22 100644
--- a/creator/samberzap/creator.go
+++ b/creator/samberzap/creator.go
@@ -8,7 +8,6 @@ import (
 	"go.uber.org/zap"
 	"go.uber.org/zap/zapcore"
 
-	"github.com/madkins23/go-slog/creator/utilzap"
 	"github.com/madkins23/go-slog/infra"
 )
 
@@ -39,7 +38,8 @@ func handlerFn(w io.Writer, options *slog.HandlerOptions) slog.Handler {
 		Logger: zap.New(zapcore.NewCore(
 			zapcore.NewJSONEncoder(productionCfg),
 			zapcore.AddSync(w),
-			zap.NewAtomicLevelAt(utilzap.ConvertLevelToZap(level.Level())))),
+			// The slog handler checks the level, which may change and may be one that zap does not have.
+			zapcore.DebugLevel)),
 		Converter:   nil,
 		AddSource:   options.AddSource,
 		ReplaceAttr: options.ReplaceAttr,
-- 
2.43.0


From 1b0f47eeba1879880036542568a45a9e5887b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 53/62] fix: charts of unknown tags and scorekeepers are
 answered instead of panicking

Bar used c.HTML, for which no templates are loaded, and Score did not
look whether there is a scorekeeper of that name.
---
 cmd/server/chart/bar.go   | 4 +---
 cmd/server/chart/score.go | 5 +++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/server/chart/bar.go b/cmd/server/chart/bar.go
index b0e74ce..b443de7 100644
--- a/cmd/server/chart/bar.go
+++ b/cmd/server/chart/bar.go
@@ -34,9 +34,7 @@ func Bar(c *gin.Context, bench *data.Benchmarks) {
 			labels, values = chartHandler(bench, records, item)
 		} else {
 			slog.Error("Neither handler nor benchmark records found", "fn", "chartFunction")
-			c.HTML(http.StatusBadRequest, "pageFunction", gin.H{
-				"ErrorTitle":   "Template failed execution",
-				"ErrorMessage": "No records for " + tag})
+			c.String(http.StatusBadRequest, "No records for %s", tag)
 			return
 		}
 		const verticalPadding = 100
diff --git a/cmd/server/chart/score.go b/cmd/server/chart/score.go
index ab655b1..1da7d64 100644
--- a/cmd/server/chart/score.go
+++ b/cmd/server/chart/score.go
@@ -127,6 +127,11 @@ func Score(c *gin.Context, warns *data.Warnings) {
 	ch, found := Cache[cacheKey]
 	CacheMutex.Unlock()
 	keeper := score.GetKeeper(score.KeeperTag(c.Param("keeper")))
+	if keeper == nil {
+		slog.Error("No such scorekeeper", "keeper", c.Param("keeper"))
+		c.String(http.StatusBadRequest, "No scorekeeper %s", c.Param("keeper"))
+		return
+	}
 	chartData := newChartData(keeper, warns, sizes[size])
 	if !found {
 		graph := chartData.generate()
-- 
2.43.0


From 703fa1e500e3955cbe03a8e18f3f03dc0117e81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:23 +0000
Subject: [PATCH 54/62] fix: the name of the test function is found however far
 up the stack it is

Only the ten nearest frames were looked at, so that a warning added further
down was reported for function Unknown.
---
 internal/misc/function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/misc/function.go b/internal/misc/function.go
index 2459788..1b5b028 100644
--- a/internal/misc/function.go
+++ b/internal/misc/function.go
@@ -12,6 +12,10 @@ import (
 func CurrentFunctionName(prefix string) string {
 	pc := make([]uintptr, 10)
 	n := runtime.Callers(2, pc)
+	for n == len(pc) { // There may be more of the stack.
+		pc = make([]uintptr, 2*len(pc))
+		n = runtime.Callers(2, pc)
+	}
 	frames := runtime.CallersFrames(pc[:n])
 	more := true
 	for more {
-- 
2.43.0


From e6112be47081f0c1527fe1423d46de1611abbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 55/62] fix: only a top level object named fields is special to
 the field counter

A nested object named fields had its members counted as top level fields
(false duplicates), and any other field of that name was forgotten.
---
 internal/json/field.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/json/field.go b/internal/json/field.go
index 4882652..99dc5d3 100644
--- a/internal/json/field.go
+++ b/internal/json/field.go
@@ -179,7 +179,7 @@ func (ctr *FieldCounter) parseArray() error {
 	})
 }
 
-func (ctr *FieldCounter) parseField(field string) error {
+func (ctr *FieldCounter) parseField(field string, counted bool) error {
 	expectColon := true
 	return ctr.readLoop(func(r rune) error {
 		if unicode.IsSpace(r) {
@@ -194,9 +194,12 @@ func (ctr *FieldCounter) parseField(field string) error {
 		} else if expectColon {
 			return fmt.Errorf(fmtExpectedColon, r)
 		} else if r == '{' {
-			if field == "fields" {
+			if counted && field == "fields" {
 				// Special case for Apex wherein additional fields are in 'fields' object.
-				delete(ctr.counts, field)
+				// Only for a field that was counted, not for one that is nested in another object.
+				if ctr.counts[field]--; ctr.counts[field] == 0 {
+					delete(ctr.counts, field)
+				}
 				return ctr.wrapCallError(ctr.parseObject(true), msgParseObject, true, false)
 			} else {
 				return ctr.wrapCallError(ctr.parseObject(false), msgParseObject, true, false)
@@ -292,7 +295,7 @@ func (ctr *FieldCounter) parseObject(countFields bool) error {
 				ctr.counts[field]++
 			}
 			expectComma = true
-			return ctr.wrapCallError(ctr.parseField(field), msgParseField, false, false)
+			return ctr.wrapCallError(ctr.parseField(field, countFields), msgParseField, false, false)
 		case r == '}':
 			return errFinished
 		default:
-- 
2.43.0


From 0aea6c0a13514af8cf3e3a3e5c2cc6bcf43a2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:45 +0000
Subject: [PATCH 56/62] fix: SkipTestIf skipped tests with -useWarnings=false

---
 infra/warning/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/warning/manager.go b/infra/warning/manager.go
index ff18125..fef92aa 100644
--- a/infra/warning/manager.go
+++ b/infra/warning/manager.go
@@ -200,7 +200,7 @@ func (mgr *Manager) SkipTest(because *Warning) {
 // False is returned if none of the warning are found.
 func (mgr *Manager) SkipTestIf(warns ...*Warning) bool {
 	for _, w := range warns {
-		if mgr.warnOnly[w.Name] {
+		if mgr.HasWarning(w) {
 			mgr.AddWarning(SkippingTest, w.Summary, "")
 			mgr.AddWarning(w, SkippingTest.Summary, "")
 			return true
-- 
2.43.0


From f7eceed21173d6674c6f7a7e48c5ecfcb4b1d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 57/62] fix: names are escaped in the titles of the server's
 pages

---
 cmd/server/pages/handler.gohtml | 2 +-
 cmd/server/pages/test.gohtml    | 2 +-
 cmd/server/pages/text.gohtml    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/server/pages/handler.gohtml b/cmd/server/pages/handler.gohtml
index fd8d073..31a0fee 100644
--- a/cmd/server/pages/handler.gohtml
+++ b/cmd/server/pages/handler.gohtml
@@ -9,7 +9,7 @@
 <div class="wrapper">
   <div class="header">
     {{ $name := .Benchmarks.HandlerName .Handler }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Handler <span class=\"fixed\">%s</span>" (html $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/test.gohtml b/cmd/server/pages/test.gohtml
index d413c83..3df55b3 100644
--- a/cmd/server/pages/test.gohtml
+++ b/cmd/server/pages/test.gohtml
@@ -14,7 +14,7 @@
     {{ else }}
       {{ $name = .Warnings.TestName .Test }}
     {{ end }}
-    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" $name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Test <span class=\"fixed\">%s</span>" (html $name)) }}
   </div>
   <div class="content">
     <div>
diff --git a/cmd/server/pages/text.gohtml b/cmd/server/pages/text.gohtml
index 8adcaf0..22b06c5 100644
--- a/cmd/server/pages/text.gohtml
+++ b/cmd/server/pages/text.gohtml
@@ -8,7 +8,7 @@
 <body>
 <div class="wrapper">
   <div class="header">
-    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" $.Item.Name) }}
+    {{ template "partHeader" dict "top" $ "title" (printf "Text File <span class=\"fixed\">%s</span>" (html $.Item.Name)) }}
   </div>
   <div class="text-summary">{{ $.Item.Summary }}</div>
   <div class="text">{{ $.Item.Data }}</div>
-- 
2.43.0


From 83dccd005e06a1f80d4762aa9c86d2d4bddbe6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 58/62] fix: the page of a text that is not there shows what
 was asked for as text

---
 cmd/server/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/text.go b/cmd/server/text.go
index f182c8e..96bbac9 100644
--- a/cmd/server/text.go
+++ b/cmd/server/text.go
@@ -65,7 +65,7 @@ func (tc *TextCache) TextItem(path string) *TextItem {
 		item = &TextItem{
 			Path:    path,
 			Summary: "Text Not Found",
-			Data:    template.HTML("Path: " + path),
+			Data:    template.HTML(template.HTMLEscapeString("Path: " + path)),
 		}
 	}
 	return item
-- 
2.43.0


From 80451129d14340a94a0274aac5285c18a4bb46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 59/62] fix: texts of warnings are escaped on the server's
 pages

---
 internal/data/warnings.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index edb8b68..940ed36 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -474,9 +474,14 @@ func (di *dataInstance) ExtraHTML() template.HTML {
 		for i, line := range lines {
 			if matches := ptnCaller.FindStringSubmatch(line); len(matches) == 5 {
 				// Error from slog/slogtest.
+				for m, match := range matches {
+					matches[m] = template.HTMLEscapeString(match)
+				}
 				line = fmt.Sprintf(
 					"%s<br/><a href=\"%s/%s;l=%s\">%s</a>",
 					matches[1], srcRoot, matches[3], matches[4], matches[2])
+			} else {
+				line = template.HTMLEscapeString(line)
 			}
 			lines[i] = "<p>" + line + "</p>"
 		}
-- 
2.43.0


From 1d0ccaf917ae3e95b9d3bf82c6b35f3497eeb601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:46 +0000
Subject: [PATCH 60/62] fix: records of warnings that are not JSON are shown on
 the server's pages

---
 internal/data/warnings.go        | 2 +-
 internal/data/warnings_parser.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/data/warnings.go b/internal/data/warnings.go
index 940ed36..1dd4b4a 100644
--- a/internal/data/warnings.go
+++ b/internal/data/warnings.go
@@ -496,7 +496,7 @@ func (di *dataInstance) Line() string {
 }
 
 func (di *dataInstance) HasLog() bool {
-	return len(strings.Trim(di.log, " ")) > 0
+	return len(strings.Trim(di.Log(), " ")) > 0
 }
 
 func (di *dataInstance) Log() string {
diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index c0c2f8e..30f7ad6 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -69,6 +69,7 @@ func (w *Warnings) ParseWarningData(in io.Reader, source string, lookup map[stri
 					&dataInstance{
 						name:  handler.Name(),
 						extra: instance.extra,
+						line:  instance.line,
 						log:   instance.log,
 					})
 				wd := w.FindWarning(dWarning.warning.name)
-- 
2.43.0


From 5a2f2fcff5a74ebd3e0e89e9c05d789d8ae88b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:57 +0000
Subject: [PATCH 61/62] fix: text files are shown as they are on the server's
 pages

---
 cmd/server/text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/text.go b/cmd/server/text.go
index 96bbac9..fe142ef 100644
--- a/cmd/server/text.go
+++ b/cmd/server/text.go
@@ -39,7 +39,7 @@ func NewTextCache(items ...*TextItem) *TextCache {
 			slog.Warn("Unable to load text file",
 				"Path", item.Path, "error", err.Error())
 		} else if len(data) > 0 {
-			item.Data = template.HTML(data)
+			item.Data = template.HTML(template.HTMLEscapeString(string(data)))
 			tc.cache[item.Name] = item
 			tc.names = append(tc.names, item.Name)
 		} else {
-- 
2.43.0


From f4ed37a03f17a646e37e74b1b34e737196cf6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:11 +0000
Subject: [PATCH 62/62] fix: a warning whose text starts with an empty line is
 read back under its test's name

---
 internal/data/warnings_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/data/warnings_parser.go b/internal/data/warnings_parser.go
index 30f7ad6..5b0552f 100644
--- a/internal/data/warnings_parser.go
+++ b/internal/data/warnings_parser.go
@@ -21,7 +21,7 @@ var (
 	ptnWarningsFor  = regexp.MustCompile(`^\s*Warnings\s+for\s+(.*):\s*$`)
 	ptnLevel        = regexp.MustCompile(`^\s*(\S+)\s*$`)
 	ptnWarning      = regexp.MustCompile(`^\s*\d+\s+\[([^]]*)]\s*(.*?)\s*$`)
-	ptnInstance     = regexp.MustCompile(`^\s*(\S+)(?::\s*(.*?))?\s*$`)
+	ptnInstance     = regexp.MustCompile(`^\s*(\S+?)(?::\s*(.*?))?\s*$`)
 	ptnExtra        = regexp.MustCompile(`^\s*\+(.*?)\s*$`)
 	ptnLogLine      = regexp.MustCompile(`^\s*\{`)
 	ptnNone         = regexp.MustCompile(`^\s*None\s*$`)
-- 
2.43.0

