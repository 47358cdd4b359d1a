From 13b4e205111ed9d33959f31caeacab0e966ee66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 01/25] fix: name the package of inlined callers

runtime.Frame.Func is nil for inlined frames, so Package called from a
function the compiler inlined registered its metrics under "unknown".
---
 callers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/callers.go b/callers.go
index e9cec27..2646af0 100644
--- a/callers.go
+++ b/callers.go
@@ -25,10 +25,10 @@ func callerPackage(frames int) string {
 		return "unknown"
 	}
 	frame, _ := runtime.CallersFrames(pc[:]).Next()
-	if frame.Func == nil {
+	if frame.Function == "" {
 		return "unknown"
 	}
-	slash_pieces := strings.Split(frame.Func.Name(), "/")
+	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
 	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
 }
-- 
2.43.0


From a364f1b3430f2ea40a422b99df6ca1f1dc3ca273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:26 +0000
Subject: [PATCH 02/25] fix: stop observing the trace when CollectSpans returns

CollectSpans registered its collector with the current trace and never
removed it, so every call made all later spans of that trace slower.
---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From 5bbd2c37bb6b4fdac40256568e36f963c3754d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:11 +0000
Subject: [PATCH 03/25] fix: keep metrics with distinct names and tags apart

Names and tags were joined without escaping the delimiters, so that for
instance a tag k with value "v,l=w" named the same source as the two tags
k=v and l=w, and a metric called "func:f" clashed with the function f.
---
 scope.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..37bc3b3 100644
--- a/scope.go
+++ b/scope.go
@@ -76,16 +76,32 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceName strings.Builder
 	sourceName.Grow(sourceNameSize)
 	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	writeSourceNamePart(&sourceName, name)
 	for _, tag := range tags {
 		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
+		writeSourceNamePart(&sourceName, tag.Key)
 		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		writeSourceNamePart(&sourceName, tag.Val)
 	}
 	return sourceName.String()
 }
 
+// writeSourceNamePart writes part with the delimiters of sourceName escaped,
+// so that no two combinations of name and tags share a source name.
+func writeSourceNamePart(builder *strings.Builder, part string) {
+	if !strings.ContainsAny(part, `,=\`) {
+		builder.WriteString(part)
+		return
+	}
+	for i := 0; i < len(part); i++ {
+		switch part[i] {
+		case ',', '=', '\\':
+			builder.WriteByte('\\')
+		}
+		builder.WriteByte(part[i])
+	}
+}
+
 // FuncNamed retrieves or creates a Func named using the given name and
 // SeriesTags. See Func() for automatic name determination.
 //
@@ -93,7 +109,7 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 // unique Func. SeriesTags are not sorted, so keep the order consistent to avoid
 // unintentionally creating new unique Funcs.
 func (s *Scope) FuncNamed(name string, tags ...SeriesTag) *Func {
-	source := s.newSource(sourceName("func:", name, tags), func() StatSource {
+	source := s.newSource(sourceName("func=", name, tags), func() StatSource {
 		return newFunc(s, NewSeriesKey("function").WithTag("name", name).WithTags(tags...))
 	})
 	f, ok := source.(*Func)
@@ -264,18 +280,20 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 func (s *Scope) Gauge(name string, cb func() float64) {
 	type gauge struct{ StatSource }
 
+	id := sourceName("", name, nil)
+
 	// gauges allow overwriting
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	if source, exists := s.sources[id]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[id] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
-- 
2.43.0


From fb9e68a36f9b5b6c2d00906d8e3369df2631340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 04/25] fix: quantiles of a distribution that was reset

Query returned the first value from before the Reset as long as nothing was
inserted after it.
---
 distgen.go.m4 | 3 +++
 durdist.go    | 3 +++
 floatdist.go  | 3 +++
 intdist.go    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..7e5a2c0 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -129,6 +129,9 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return _TYPE_`(d.reservoir[0])'
 	}
diff --git a/durdist.go b/durdist.go
index 4d2a281..354021e 100644
--- a/durdist.go
+++ b/durdist.go
@@ -129,6 +129,9 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return time.Duration(d.reservoir[0])
 	}
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..f90ccfa 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -128,6 +128,9 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return float64(d.reservoir[0])
 	}
diff --git a/intdist.go b/intdist.go
index 07817ac..050cc3d 100644
--- a/intdist.go
+++ b/intdist.go
@@ -128,6 +128,9 @@ func (d *IntDist) Query(quantile float64) int64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return int64(d.reservoir[0])
 	}
-- 
2.43.0


From d1f7da0007808968b0013893efc1a3ececacb853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:28 +0000
Subject: [PATCH 05/25] fix: report structures with nil pointers

A nil pointer in an observed structure, a time.Time in UTC included, made
Stats of the whole registry panic.
---
 struct.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 241b715..4aa485e 100644
--- a/struct.go
+++ b/struct.go
@@ -33,15 +33,19 @@ func (emptyStatSource) Stats(cb func(key SeriesKey, field string, val float64))
 func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	val := deref(reflect.ValueOf(structData))
 
-	typ := val.Type()
-	if typ.Kind() != reflect.Struct {
+	if val.Kind() != reflect.Struct {
 		return emptyStatSource{}
 	}
+	typ := val.Type()
 
 	return StatSourceFunc(func(cb func(key SeriesKey, field string, val float64)) {
 	nextField:
 		for i := 0; i < typ.NumField(); i++ {
 			field := deref(val.Field(i))
+			if !field.IsValid() {
+				// nil pointer, nothing to report
+				continue
+			}
 			field_type := field.Type()
 
 			parts := strings.Split(typ.Field(i).Tag.Get("monkit"), ",")
@@ -70,9 +74,10 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	})
 }
 
-// if val is a pointer, deref until it isn't
+// if val is a pointer, deref until it isn't. the result is not valid if there
+// is a nil pointer on the way.
 func deref(val reflect.Value) reflect.Value {
-	for val.Type().Kind() == reflect.Ptr {
+	for val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
 	return val
-- 
2.43.0


From ad9c57b41cc0cc0d771b4d927d4344de54c60e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 06/25] fix: data race in TagSet.String

Tag sets are shared between goroutines and meant to be immutable, but the
cached string form was written without synchronisation.
---
 tags.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..3ee0244 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -33,7 +34,7 @@ func NewSeriesTag(key, val string) SeriesTag {
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
 	all map[string]string
-	str string // cached string form
+	str atomic.Value // cached string form
 }
 
 // Get returns the value associated with the key.
@@ -99,12 +100,14 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
-		var builder strings.Builder
-		t.writeTags(&builder)
-		t.str = builder.String()
+	if str, ok := t.str.Load().(string); ok {
+		return str
 	}
-	return t.str
+	var builder strings.Builder
+	t.writeTags(&builder)
+	str := builder.String()
+	t.str.Store(str)
+	return str
 }
 
 // writeTags writes the tags in the tag set to the builder.
-- 
2.43.0


From aa7a1874bd53a6a671a3248a2e99f670d56a90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:36 +0000
Subject: [PATCH 07/25] fix: name errors without holding the function's mutex

An error name handler, or an error's own Name method, that looked at the
function's statistics or panicked left the function deadlocked.
---
 funcstats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..2d146db 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -87,6 +87,11 @@ func (f *FuncStats) start(parent *Func) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	var errname string
+	if err != nil && !panicked {
+		// error naming runs user code, so don't hold the mutex for it
+		errname = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -100,7 +105,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errname] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From 4ab0351f1172742ec19c59604cc3db56ebcdcd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:52 +0000
Subject: [PATCH 08/25] fix: never repeat identifiers, whatever the seed

Shifting the counter maps two of its values to each identifier, so that an
increment with a small inverse repeated identifiers after a few draws.
---
 id.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index bd12d3d..2ccbef8 100644
--- a/id.go
+++ b/id.go
@@ -44,5 +44,7 @@ func init() {
 // traces. See NewTrace.
 func NewId() int64 {
 	id := atomic.AddUint64(&idCounter, inc)
-	return int64(id >> 1)
+	// inc is odd, so the low 63 bits don't repeat before all have been used,
+	// whatever the seed. shifting would map two counter values to each id.
+	return int64(id &^ (1 << 63))
 }
-- 
2.43.0


From 9d9bf97da93cd3e4fa1c358bee435754b2dc8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:56 +0000
Subject: [PATCH 09/25] fix: propagate negative trace and span ids

Formatted as signed numbers they gave a traceparent header with more than
four parts, which the other side rejects.
---
 http/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
-- 
2.43.0


From 9de73d6a95b20f087733135fda151d916ba64a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:56 +0000
Subject: [PATCH 10/25] fix: hand the handler the context that observers
 extended

TraceHandler passed on the bare span, so that what a SpanCtxObserver added to
the context was lost for the whole request.
---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 861304d..f257889 100644
--- a/http/server.go
+++ b/http/server.go
@@ -66,7 +66,7 @@ func (t traceHandler) ServeHTTP(writer http.ResponseWriter, request *http.Reques
 		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", s.Trace().Id()))
 		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", s.Id()))
 	}
-	t.handler.ServeHTTP(wrapped, request.WithContext(s))
+	t.handler.ServeHTTP(wrapped, request.WithContext(ctx))
 
 	s.Annotate("http.responsecode", fmt.Sprint(statusCode()))
 }
-- 
2.43.0


From 7434828c09f4e4a303ba47d7bb2ce7f49217fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:56 +0000
Subject: [PATCH 11/25] fix: present statistics that are not numbers as null

StatsJSON stopped with an error at the first NaN or infinite value, which
every Counter that has not been used reports.
---
 present/stats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..2df4c80 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,12 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		var jsonVal interface{} = val
+		if math.IsNaN(val) || math.IsInf(val, 0) {
+			// JSON has no such numbers, and a Counter without values has NaNs.
+			jsonVal = nil
+		}
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsonVal})
 	})
 	return lw.done()
 }
-- 
2.43.0


From 0c958c1c535612cb18a9b5558d03351429b84df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:20 +0000
Subject: [PATCH 12/25] fix: draw traces that took no time

With a clock too coarse to see any time pass SpansToSVG divided by zero.
---
 present/trace.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..be85fcd 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -270,6 +270,9 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
 	timeToX := func(t time.Time) int {
+		if !maxEnd.After(minStart) {
+			return 0 // no time passed at all
+		}
 		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
 			(maxEnd.UnixNano() - minStart.UnixNano()))
 	}
-- 
2.43.0


From 18aa4b1d8562b0059b8654c39f8cc313aa6dc777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:00 +0000
Subject: [PATCH 13/25] fix: report every write error of FuncsText

An error while writing a function's parents was overwritten by the next
write's result.
---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From e694398ed21c0f18684740c303ad58476b945399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:44 +0000
Subject: [PATCH 14/25] fix: let keep-alives of trace queries reach the client

They stayed in the buffer around the result (and in that of the HTTP
response), so that connections timed out, and queries of clients that had
gone kept observing every trace.
---
 present/path.go  |  7 +++----
 present/trace.go |  3 +--
 present/utils.go | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..2da922f 100644
--- a/present/path.go
+++ b/present/path.go
@@ -91,12 +91,12 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 		// wrap all functions with buffering
 		unbuffered := f
 		f = func(w io.Writer) (err error) {
-			buf := bufio.NewWriter(w)
+			buf := bufferedWriter{Writer: bufio.NewWriter(w), w: w}
 			err = unbuffered(buf)
 			if err != nil {
 				return err
 			}
-			err = buf.Flush()
+			err = buf.Writer.Flush()
 			return err
 		}
 	}()
@@ -225,8 +225,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 				}
 
 				ctx, stop := keepAlive(context.TODO(), func(context.Context) error {
-					_, err := w.Write([]byte("\n"))
-					return err
+					return writeAndFlush(w, []byte("\n"))
 				})
 				defer stop()
 
diff --git a/present/trace.go b/present/trace.go
index be85fcd..5250b4c 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -433,8 +433,7 @@ func watchForSpansWithKeepalive(ctx context.Context, reg *monkit.Registry, w io.
 	spans []*collect.FinishedSpan, writeErr error) {
 
 	ctx, stop := keepAlive(ctx, func(context.Context) error {
-		_, err := w.Write(keepalive)
-		return err
+		return writeAndFlush(w, keepalive)
 	})
 	defer stop()
 
diff --git a/present/utils.go b/present/utils.go
index a2d3d7d..1ed0874 100644
--- a/present/utils.go
+++ b/present/utils.go
@@ -15,8 +15,10 @@
 package present
 
 import (
+	"bufio"
 	"context"
 	"fmt"
+	"io"
 	"sync"
 	"time"
 )
@@ -100,3 +102,35 @@ func catchPanics(cb func(context.Context) error) func(context.Context) error {
 		return cb(ctx)
 	}
 }
+
+// bufferedWriter buffers writes to w.
+type bufferedWriter struct {
+	*bufio.Writer
+	w io.Writer
+}
+
+// Flush sends everything written so far on its way.
+func (b bufferedWriter) Flush() error {
+	if err := b.Writer.Flush(); err != nil {
+		return err
+	}
+	return flush(b.w)
+}
+
+// writeAndFlush writes data without leaving it in w's buffer, if it has one.
+func writeAndFlush(w io.Writer, data []byte) error {
+	if _, err := w.Write(data); err != nil {
+		return err
+	}
+	return flush(w)
+}
+
+func flush(w io.Writer) error {
+	switch f := w.(type) {
+	case interface{ Flush() error }:
+		return f.Flush()
+	case interface{ Flush() }: // such as http.Flusher
+		f.Flush()
+	}
+	return nil
+}
-- 
2.43.0


From f9e7fc2bb3e285e222cd51ef55d91219fdfc589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:52 +0000
Subject: [PATCH 15/25] fix: count each garbage collection pause once

Runtime never remembered the collection it had counted, so that every report
inserted the latest pause again, and concurrent reports shared the
distribution without synchronisation.
---
 environment/runtime.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..77f4483 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -29,6 +30,7 @@ import (
 // other live memory data. Not expected to be called directly, as this
 // StatSource is added by Register.
 func Runtime() monkit.StatSource {
+	var mtx sync.Mutex // protects durDist and lastNumGC
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
 
@@ -44,10 +46,16 @@ func Runtime() monkit.StatSource {
 		{
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
-			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
+
+			mtx.Lock()
+			if lastNumGC < stats.NumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
+				lastNumGC = stats.NumGC
 			}
-			durDist.Stats(cb)
+			dist := durDist.Copy()
+			mtx.Unlock()
+
+			dist.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From f95d19c58524f3e155ae887f33289f9bb4313899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:27 +0000
Subject: [PATCH 16/25] fix: report proc_stat of programs with spaces in their
 name

fmt.Sscanf's %s stops at the space, so that the whole statistic was missing.
---
 environment/proc_linux.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/environment/proc_linux.go b/environment/proc_linux.go
index 25cdcaf..01ad556 100644
--- a/environment/proc_linux.go
+++ b/environment/proc_linux.go
@@ -15,6 +15,7 @@
 package environment
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 
@@ -87,9 +88,18 @@ func readProcSelfStat(s *procSelfStat) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Sscanf(string(data), "%d %s %c %d %d %d %d %d %d %d %d "+
+	// the command name is in parentheses, and may contain anything itself
+	left, right := bytes.IndexByte(data, '('), bytes.LastIndexByte(data, ')')
+	if left < 0 || right < left {
+		return fmt.Errorf("/proc/self/stat: command name not found")
+	}
+	s.Comm = string(data[left : right+1])
+	if _, err = fmt.Sscanf(string(data[:left]), "%d", &s.Pid); err != nil {
+		return err
+	}
+	_, err = fmt.Sscanf(string(data[right+1:]), " %c %d %d %d %d %d %d %d %d "+
 		"%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d "+
-		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.Comm, &s.State, &s.Ppid,
+		"%d %d %d %d %d %d %d %d %d %d", &s.State, &s.Ppid,
 		&s.Pgrp, &s.Session, &s.TtyNr, &s.Tpgid, &s.Flags, &s.Minflt, &s.Cminflt,
 		&s.Majflt, &s.Cmajflt, &s.Utime, &s.Stime, &s.Cutime, &s.Cstime,
 		&s.Priority, &s.Nice, &s.NumThreads, &s.Itrealvalue, &s.Starttime,
-- 
2.43.0


From be980a4d67fd9fff2997ecd99c8e4b56f2f61214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:21 +0000
Subject: [PATCH 17/25] fix: keep the rows of late descendants clear in trace
 drawings

---
 present/trace.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 5250b4c..9313820 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -169,8 +169,11 @@ func computeSpanTree(spans []*collect.FinishedSpan) map[int64]*spanInformation {
 			}
 			out[pid].Children = append(out[pid].Children, id)
 
-			if span.Finish.After(out[pid].LargestTime) {
-				out[pid].LargestTime = span.Finish
+			// everything below a span takes up its rows, not only its own
+			// children.
+			largest := out[id].LargestTime
+			for p := out[pid]; p != nil && largest.After(p.LargestTime); p = out[p.Parent] {
+				p.LargestTime = largest
 			}
 		}
 	}
-- 
2.43.0


From 5dd7cc2802f75ad82f03f3a3b24c371c5a6a6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 18/25] fix: keep a trace usable after Get or Set with an
 unhashable key

The map operation panics for such a key, and it left the trace's mutex
locked, so that every later use of the trace's values blocked for ever.
---
 trace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace.go b/trace.go
index 6267294..fee15ab 100644
--- a/trace.go
+++ b/trace.go
@@ -122,22 +122,22 @@ func (t *Trace) GetAll() (val map[interface{}]interface{}) {
 // Get returns a value associated with a key on a trace. See Set.
 func (t *Trace) Get(key interface{}) (val interface{}) {
 	t.mtx.Lock()
+	defer t.mtx.Unlock() // an unhashable key panics
 	if t.vals != nil {
 		val = t.vals[key]
 	}
-	t.mtx.Unlock()
 	return val
 }
 
 // Set sets a value associated with a key on a trace. See Get.
 func (t *Trace) Set(key, val interface{}) {
 	t.mtx.Lock()
+	defer t.mtx.Unlock() // an unhashable key panics
 	if t.vals == nil {
 		t.vals = map[interface{}]interface{}{key: val}
 	} else {
 		t.vals[key] = val
 	}
-	t.mtx.Unlock()
 }
 
 func (t *Trace) incrementSpans() { atomic.AddInt64(&t.spanCount, 1) }
-- 
2.43.0


From 541fca4b06ec2945e3aa1fcb10923e4804f8b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 19/25] fix: do not read a live stats source to report a name
 clash

Formatting the source with %#v read all of its fields, including maps,
without its locks: a data race with whoever updates that source, which for
a map can even end the process. Its type says what the name is used for.
---
 scope.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scope.go b/scope.go
index 37bc3b3..3e155c4 100644
--- a/scope.go
+++ b/scope.go
@@ -114,7 +114,7 @@ func (s *Scope) FuncNamed(name string, tags ...SeriesTag) *Func {
 	})
 	f, ok := source.(*Func)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return f
@@ -142,7 +142,7 @@ func (s *Scope) Meter(name string, tags ...SeriesTag) *Meter {
 	})
 	m, ok := source.(*Meter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -161,7 +161,7 @@ func (s *Scope) DiffMeter(name string, m1, m2 *Meter, tags ...SeriesTag) {
 		return NewDiffMeter(NewSeriesKey(name).WithTags(tags...), m1, m2)
 	})
 	if _, ok := source.(*DiffMeter); !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 }
@@ -173,7 +173,7 @@ func (s *Scope) IntVal(name string, tags ...SeriesTag) *IntVal {
 	})
 	m, ok := source.(*IntVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -192,7 +192,7 @@ func (s *Scope) FloatVal(name string, tags ...SeriesTag) *FloatVal {
 	})
 	m, ok := source.(*FloatVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -211,7 +211,7 @@ func (s *Scope) BoolVal(name string, tags ...SeriesTag) *BoolVal {
 	})
 	m, ok := source.(*BoolVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -230,7 +230,7 @@ func (s *Scope) StructVal(name string, tags ...SeriesTag) *StructVal {
 	})
 	m, ok := source.(*StructVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -243,7 +243,7 @@ func (s *Scope) DurationVal(name string, tags ...SeriesTag) *DurationVal {
 	})
 	m, ok := source.(*DurationVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -256,7 +256,7 @@ func (s *Scope) Timer(name string, tags ...SeriesTag) *Timer {
 	})
 	m, ok := source.(*Timer)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -269,7 +269,7 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 	})
 	m, ok := source.(*Counter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -288,7 +288,7 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 
 	if source, exists := s.sources[id]; exists {
 		if _, ok := source.(gauge); !ok {
-			panic(fmt.Sprintf("%s already used for another stats source: %#v",
+			panic(fmt.Sprintf("%s already used for another stats source: %T",
 				name, source))
 		}
 	}
-- 
2.43.0


From 4eaa8c3fa6dfe2ba8dc33b3c79272528b51cc436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:47 +0000
Subject: [PATCH 20/25] fix: answer a NaN quantile instead of indexing out of
 range

Querying a distribution of two or more values for the NaN quantile computed
an index from NaN and panicked; through a Val that left the Val's mutex
locked for ever. NaN now answers like a quantile below 0.
---
 distgen.go.m4 | 2 +-
 durdist.go    | 2 +-
 floatdist.go  | 2 +-
 intdist.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 7e5a2c0..0cc421b 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -142,7 +142,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or NaN
 		return _TYPE_`(reservoir[0])'
 	}
 	if quantile >= 1 {
diff --git a/durdist.go b/durdist.go
index 354021e..485dc6e 100644
--- a/durdist.go
+++ b/durdist.go
@@ -142,7 +142,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or NaN
 		return time.Duration(reservoir[0])
 	}
 	if quantile >= 1 {
diff --git a/floatdist.go b/floatdist.go
index f90ccfa..d4d6db2 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -141,7 +141,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or NaN
 		return float64(reservoir[0])
 	}
 	if quantile >= 1 {
diff --git a/intdist.go b/intdist.go
index 050cc3d..c2107dd 100644
--- a/intdist.go
+++ b/intdist.go
@@ -141,7 +141,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or NaN
 		return int64(reservoir[0])
 	}
 	if quantile >= 1 {
-- 
2.43.0


From 858decda2f5ab7df156a55c8bddcdc75322c4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 21/25] fix: keep quantiles within the values inserted

The reservoir is kept in single precision: a value near the largest int64
rounds up to 2^63 there, which does not fit back into an int64, so that its
quantiles and average came out as the most negative number.
---
 distgen.go.m4 | 22 +++++++++++++++++-----
 durdist.go    | 22 +++++++++++++++++-----
 floatdist.go  | 22 +++++++++++++++++-----
 intdist.go    | 22 +++++++++++++++++-----
 4 files changed, 68 insertions(+), 20 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 0cc421b..0b2f2b6 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -118,7 +118,7 @@ func (d *_NAME_`Dist') ReservoirAverage() _TYPE_ {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return _TYPE_`(sum / float32(amount))'
+	return d.clamp(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -133,7 +133,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		return 0
 	}
 	if rlen < 2 {
-		return _TYPE_`(d.reservoir[0])'
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -143,10 +143,10 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 	}
 
 	if !(quantile > 0) { // or NaN
-		return _TYPE_`(reservoir[0])'
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return _TYPE_`(reservoir[rlen-1])'
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -154,7 +154,19 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return _TYPE_`(prior + diff*(float64(reservoir[idx+1])-prior))'
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts a number computed from the reservoir, which is kept in single
+// precision, and keeps what rounding may have moved out within Low and High.
+func (d *_NAME_`Dist') clamp(val float64) _TYPE_ {
+	if val <= float64(d.Low) {
+		return d.Low
+	}
+	if val >= float64(d.High) {
+		return d.High
+	}
+	return _TYPE_`(val)'
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/durdist.go b/durdist.go
index 485dc6e..e4a59f3 100644
--- a/durdist.go
+++ b/durdist.go
@@ -118,7 +118,7 @@ func (d *DurationDist) ReservoirAverage() time.Duration {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return time.Duration(sum / float32(amount))
+	return d.clamp(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -133,7 +133,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		return 0
 	}
 	if rlen < 2 {
-		return time.Duration(d.reservoir[0])
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -143,10 +143,10 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 	}
 
 	if !(quantile > 0) { // or NaN
-		return time.Duration(reservoir[0])
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return time.Duration(reservoir[rlen-1])
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -154,7 +154,19 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return time.Duration(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts a number computed from the reservoir, which is kept in single
+// precision, and keeps what rounding may have moved out within Low and High.
+func (d *DurationDist) clamp(val float64) time.Duration {
+	if val <= float64(d.Low) {
+		return d.Low
+	}
+	if val >= float64(d.High) {
+		return d.High
+	}
+	return time.Duration(val)
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/floatdist.go b/floatdist.go
index d4d6db2..e7523ec 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -117,7 +117,7 @@ func (d *FloatDist) ReservoirAverage() float64 {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return float64(sum / float32(amount))
+	return d.clamp(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -132,7 +132,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		return 0
 	}
 	if rlen < 2 {
-		return float64(d.reservoir[0])
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -142,10 +142,10 @@ func (d *FloatDist) Query(quantile float64) float64 {
 	}
 
 	if !(quantile > 0) { // or NaN
-		return float64(reservoir[0])
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return float64(reservoir[rlen-1])
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -153,7 +153,19 @@ func (d *FloatDist) Query(quantile float64) float64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return float64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts a number computed from the reservoir, which is kept in single
+// precision, and keeps what rounding may have moved out within Low and High.
+func (d *FloatDist) clamp(val float64) float64 {
+	if val <= float64(d.Low) {
+		return d.Low
+	}
+	if val >= float64(d.High) {
+		return d.High
+	}
+	return float64(val)
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/intdist.go b/intdist.go
index c2107dd..aac813d 100644
--- a/intdist.go
+++ b/intdist.go
@@ -117,7 +117,7 @@ func (d *IntDist) ReservoirAverage() int64 {
 	for i := 0; i < amount; i++ {
 		sum += d.reservoir[i]
 	}
-	return int64(sum / float32(amount))
+	return d.clamp(float64(sum / float32(amount)))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -132,7 +132,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 		return 0
 	}
 	if rlen < 2 {
-		return int64(d.reservoir[0])
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -142,10 +142,10 @@ func (d *IntDist) Query(quantile float64) int64 {
 	}
 
 	if !(quantile > 0) { // or NaN
-		return int64(reservoir[0])
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return int64(reservoir[rlen-1])
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -153,7 +153,19 @@ func (d *IntDist) Query(quantile float64) int64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return int64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts a number computed from the reservoir, which is kept in single
+// precision, and keeps what rounding may have moved out within Low and High.
+func (d *IntDist) clamp(val float64) int64 {
+	if val <= float64(d.Low) {
+		return d.Low
+	}
+	if val >= float64(d.High) {
+		return d.High
+	}
+	return int64(val)
 }
 
 // Copy returns a full copy of the entire distribution.
-- 
2.43.0


From 3864423fc0c313dc1d1c6942bd94ade7acf659ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 22/25] fix: draw traces of more than three months

The position of a span multiplied nanoseconds by the drawing's width in an
int64, which overflows after 89 days: spans were drawn in the wrong place or
with no width.
---
 present/trace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 9313820..63d38fd 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -276,8 +276,8 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 		if !maxEnd.After(minStart) {
 			return 0 // no time passed at all
 		}
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
-			(maxEnd.UnixNano() - minStart.UnixNano()))
+		return int(float64(t.UnixNano()-minStart.UnixNano()) * graphWidth /
+			float64(maxEnd.UnixNano()-minStart.UnixNano()))
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From 8c42bf793f416f4a331154ccdf4a855d5ad46857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:02 +0000
Subject: [PATCH 23/25] fix: escape function names and arguments for the script
 of SVG tooltips

SpansToSVG put a function's name and arguments in a string of the
mouseover script escaped for XML only, so that a quote, a backslash or a
line break in one of them broke the script or ran as part of it.
---
 present/trace.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index 63d38fd..976f181 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -130,7 +130,7 @@ var (
 `))
 
 	svgFunc = template.Must(template.New("func").Parse(`
-  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncName}}({{.FuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
+  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncTip}} Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
     <clipPath id="clip-{{.SpanId}}"><rect x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}"/></clipPath>
     <rect id="rect-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}" fill="{{.SpanColor}}"/>
     <text id="text-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.TextTop}}" fill="rgb(0,0,0)" font-size="{{.FontSize}}" clip-path="url(#clip-{{.SpanId}})">{{.FuncName}}({{.FuncArgs}}) ({{.FuncDuration}})</text>
@@ -319,6 +319,7 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			FontSize          int
 			FuncName          string
 			FuncArgs          string
+			FuncTip           string
 			FuncDuration      string
 			FuncStartDuration string
 			SpanMid           int
@@ -342,7 +343,16 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			SpanMid:           id*(barHeight+barSep) + barHeight/2,
 		}
 
+		// the tooltip is a string in a script in an attribute
 		var buf bytes.Buffer
+		err = xml.EscapeText(&buf, []byte(template.JSEscapeString(
+			templateVals.FuncName+"("+templateVals.FuncArgs+")")))
+		if err != nil {
+			return err
+		}
+		templateVals.FuncTip = buf.String()
+
+		buf.Reset()
 		err = xml.EscapeText(&buf, []byte(templateVals.FuncName))
 		if err != nil {
 			return err
-- 
2.43.0


From fc6c459d1016ea0fe1a63a765f58b09971808a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:15 +0000
Subject: [PATCH 24/25] fix: trace requests that have no headers yet

TraceRequest set the trace's headers in req.Header even if it was nil,
which http.Client.Do accepts, and panicked for sampled traces.
---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index aa2db08..862c428 100644
--- a/http/client.go
+++ b/http/client.go
@@ -20,6 +20,9 @@ func TraceRequest(ctx context.Context, scope *monkit.Scope, cl Client, req *http
 
 	s := monkit.SpanFromCtx(ctx)
 	s.Annotate("http.uri", req.URL.String())
+	if req.Header == nil {
+		req.Header = http.Header{}
+	}
 	TraceInfoFromSpan(s).SetHeader(req.Header)
 	resp, err = cl.Do(req)
 	if err != nil {
-- 
2.43.0


From 2f51255f9d76cce0ff2d2c14e446b10b092fb170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 25/25] fix: run sampling callbacks of remote trace queries
 without a lock

A callback under SampledCBKey that started a span, itself or in a
goroutine it waited for, blocked forever if the span matched the query,
too.
---
 present/path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/path.go b/present/path.go
index 2da922f..ba7717c 100644
--- a/present/path.go
+++ b/present/path.go
@@ -241,6 +241,9 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 						trace = s.Trace()
 						trace.Set(SampledKey, true)
 						if cb, exists := trace.Get(SampledCBKey).(func(*monkit.Trace)); exists {
+							// spans that the callback starts may match as well
+							traceMtx.Unlock()
+							defer traceMtx.Lock()
 							cb(trace)
 						}
 					}
-- 
2.43.0

