From dc34f4db98f9f00b886f4bc2cff79150cb3b2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 01/32] fix: snapshotting a live span must not change attribute
 eviction order

Reading attributes for a snapshot (e.g. ReportActiveSpans, used by zPages) went
through lru.Cache.Get, which marks every key as recently used in random map
order, so observing a live span changed which attributes were later evicted.
---
 trace/lrumap.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/trace/lrumap.go b/trace/lrumap.go
index 80095a5..c0d6d79 100644
--- a/trace/lrumap.go
+++ b/trace/lrumap.go
@@ -21,19 +21,19 @@ import (
 // A simple lru.Cache wrapper that tracks the keys of the current contents and
 // the cumulative number of evicted items.
 type lruMap struct {
-	cacheKeys    map[lru.Key]bool
+	values       map[lru.Key]interface{}
 	cache        *lru.Cache
 	droppedCount int
 }
 
 func newLruMap(size int) *lruMap {
 	lm := &lruMap{
-		cacheKeys:    make(map[lru.Key]bool),
+		values:       make(map[lru.Key]interface{}),
 		cache:        lru.New(size),
 		droppedCount: 0,
 	}
 	lm.cache.OnEvicted = func(key lru.Key, value interface{}) {
-		delete(lm.cacheKeys, key)
+		delete(lm.values, key)
 		lm.droppedCount++
 	}
 	return lm
@@ -44,18 +44,21 @@ func (lm lruMap) len() int {
 }
 
 func (lm lruMap) keys() []interface{} {
-	keys := make([]interface{}, 0, len(lm.cacheKeys))
-	for k := range lm.cacheKeys {
+	keys := make([]interface{}, 0, len(lm.values))
+	for k := range lm.values {
 		keys = append(keys, k)
 	}
 	return keys
 }
 
 func (lm *lruMap) add(key, value interface{}) {
-	lm.cacheKeys[lru.Key(key)] = true
+	lm.values[lru.Key(key)] = value
 	lm.cache.Add(lru.Key(key), value)
 }
 
+// get returns the value of key. Unlike a lookup in the LRU cache it does not
+// count as a use of the key, so taking a snapshot leaves the eviction order alone.
 func (lm *lruMap) get(key interface{}) (interface{}, bool) {
-	return lm.cache.Get(key)
+	value, ok := lm.values[lru.Key(key)]
+	return value, ok
 }
-- 
2.43.0


From 0555dfa39b65a73031b27959281a343a628d5e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 02/32] fix: TraceZ links list exactly the spans they count

The last latency links used other bounds than the span store, a latency on a
bucket bound was listed under two links, an out-of-range latency subtype listed
every span and the error code of an error link was ignored.
---
 zpages/tracez.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/zpages/tracez.go b/zpages/tracez.go
index 330022c..4f6342d 100644
--- a/zpages/tracez.go
+++ b/zpages/tracez.go
@@ -52,7 +52,7 @@ var (
 		100 * time.Millisecond,
 		time.Second,
 		10 * time.Second,
-		100 * time.Second,
+		time.Minute,
 	}
 	canonicalCodes = [...]string{
 		"OK",
@@ -342,18 +342,24 @@ func traceSpans(spanName string, spanType, spanSubtype int) []*trace.SpanData {
 	case 0: // active
 		spans = internalTrace.ReportActiveSpans(spanName)
 	case 1: // latency
-		var min, max time.Duration
+		// The buckets contain the latencies in [min, max), and the last one is
+		// unbounded; ReportSpansByLatency includes both ends of its range.
 		n := len(defaultLatencies)
-		if spanSubtype == 0 {
-			max = defaultLatencies[0]
-		} else if spanSubtype == n {
-			min, max = defaultLatencies[spanSubtype-1], (1<<63)-1
-		} else if 0 < spanSubtype && spanSubtype < n {
-			min, max = defaultLatencies[spanSubtype-1], defaultLatencies[spanSubtype]
+		if spanSubtype < 0 || spanSubtype > n {
+			break
+		}
+		var min, max time.Duration = 0, 1<<63 - 1
+		if spanSubtype > 0 {
+			min = defaultLatencies[spanSubtype-1]
+		}
+		if spanSubtype < n {
+			max = defaultLatencies[spanSubtype] - 1
 		}
 		spans = internalTrace.ReportSpansByLatency(spanName, min, max)
 	case 2: // error
-		spans = internalTrace.ReportSpansByError(spanName, 0)
+		if code := int32(spanSubtype); int(code) == spanSubtype {
+			spans = internalTrace.ReportSpansByError(spanName, code)
+		}
 	}
 	return spans
 }
-- 
2.43.0


From 6b8a47b57cc3ee5130e5c616490940095eb11a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 03/32] fix: tag.Decode must not panic on a length beyond the
 int range

---
 tag/map_codec.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tag/map_codec.go b/tag/map_codec.go
index c242e69..74b5769 100644
--- a/tag/map_codec.go
+++ b/tag/map_codec.go
@@ -126,10 +126,10 @@ func (eg *encoderGRPC) readBytesWithVarintLen() ([]byte, error) {
 	}
 
 	valueStart += eg.readIdx
-	valueEnd := valueStart + int(length)
-	if valueEnd > len(eg.buf) {
-		return nil, fmt.Errorf("malformed encoding: length:%v, upper:%v, maxLength:%v", length, valueEnd, len(eg.buf))
+	if length > uint64(len(eg.buf)-valueStart) {
+		return nil, fmt.Errorf("malformed encoding: length:%v, start:%v, maxLength:%v", length, valueStart, len(eg.buf))
 	}
+	valueEnd := valueStart + int(length)
 
 	eg.readIdx = valueEnd
 	return eg.buf[valueStart:valueEnd], nil
-- 
2.43.0


From 69d0405c8dae0f4e8f04070a7cbab88d613980f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 04/32] fix: tag.Do must not panic in a context without tags

---
 tag/profile_19.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag/profile_19.go b/tag/profile_19.go
index 8fb1722..5435c8e 100644
--- a/tag/profile_19.go
+++ b/tag/profile_19.go
@@ -24,6 +24,9 @@ import (
 
 func do(ctx context.Context, f func(ctx context.Context)) {
 	m := FromContext(ctx)
+	if m == nil {
+		m = newMap()
+	}
 	keyvals := make([]string, 0, 2*len(m.m))
 	for k, v := range m.m {
 		keyvals = append(keyvals, k.Name(), v.value)
-- 
2.43.0


From 3b28462ab2d1ded33625d777263762e1d10d9a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 05/32] fix: tag mutators must refuse an invalid key

The zero Key was accepted, and made every later tag.New from that context and
every decoding of the encoded map fail.
---
 tag/map.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tag/map.go b/tag/map.go
index 0272ef8..d623cb8 100644
--- a/tag/map.go
+++ b/tag/map.go
@@ -107,6 +107,9 @@ type Mutator interface {
 func Insert(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.Name()) {
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
@@ -126,6 +129,9 @@ func Insert(k Key, v string, mds ...Metadata) Mutator {
 func Update(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.Name()) {
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
@@ -146,6 +152,9 @@ func Update(k Key, v string, mds ...Metadata) Mutator {
 func Upsert(k Key, v string, mds ...Metadata) Mutator {
 	return &mutator{
 		fn: func(m *Map) (*Map, error) {
+			if !checkKeyName(k.Name()) {
+				return nil, errInvalidKeyName
+			}
 			if !checkValue(v) {
 				return nil, errInvalidValue
 			}
-- 
2.43.0


From 0f0a8e42b8b2e6f6f3790a2383cd1e5d38398a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 06/32] fix: meter calls during or after Stop must not panic or
 hang

Stop closed the command channel under concurrent senders, left callers whose
command was still queued waiting forever, could close quit twice, blocked on a
meter that was never started, and raced with the registration of a just
started meter as a metric producer.
---
 stats/view/worker.go | 115 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 92 insertions(+), 23 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 6a79cd8..c14de04 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -16,6 +16,7 @@
 package view
 
 import (
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -49,7 +50,10 @@ type worker struct {
 	timer      *time.Ticker
 	c          chan command
 	quit, done chan bool
+	quitOnce   sync.Once
+	runOnce    sync.Once
 	mu         sync.RWMutex
+	stopped    bool
 	r          *resource.Resource
 
 	exportersMu sync.RWMutex
@@ -117,6 +121,8 @@ var defaultWorker *worker
 
 var defaultReportingDuration = 10 * time.Second
 
+var errStopped = errors.New("the meter has been stopped")
+
 // Find returns a registered view associated with this name.
 // If no registered view is found, nil is returned.
 func Find(name string) (v *View) {
@@ -130,9 +136,15 @@ func (w *worker) Find(name string) (v *View) {
 		name: name,
 		c:    make(chan *getViewByNameResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.v
+	if !w.send(req) {
+		return nil
+	}
+	select {
+	case resp := <-req.c:
+		return resp.v
+	case <-w.done:
+		return nil
+	}
 }
 
 // Register begins collecting data for the given views.
@@ -148,8 +160,15 @@ func (w *worker) Register(views ...*View) error {
 		views: views,
 		err:   make(chan error),
 	}
-	w.c <- req
-	return <-req.err
+	if !w.send(req) {
+		return errStopped
+	}
+	select {
+	case err := <-req.err:
+		return err
+	case <-w.done:
+		return errStopped
+	}
 }
 
 // Unregister the given views. Data will not longer be exported for these views
@@ -173,8 +192,13 @@ func (w *worker) Unregister(views ...*View) {
 		views: names,
 		done:  make(chan struct{}),
 	}
-	w.c <- req
-	<-req.done
+	if !w.send(req) {
+		return
+	}
+	select {
+	case <-req.done:
+	case <-w.done:
+	}
 }
 
 // RetrieveData gets a snapshot of the data collected for the the view registered
@@ -191,9 +215,15 @@ func (w *worker) RetrieveData(viewName string) ([]*Row, error) {
 		v:   viewName,
 		c:   make(chan *retrieveDataResp),
 	}
-	w.c <- req
-	resp := <-req.c
-	return resp.rows, resp.err
+	if !w.send(req) {
+		return nil, errStopped
+	}
+	select {
+	case resp := <-req.c:
+		return resp.rows, resp.err
+	case <-w.done:
+		return nil, errStopped
+	}
 }
 
 func record(tags *tag.Map, ms interface{}, attachments map[string]interface{}) {
@@ -218,7 +248,7 @@ func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attach
 		attachments: attachments,
 		t:           time.Now(),
 	}
-	w.c <- req
+	w.send(req)
 }
 
 // SetReportingPeriod sets the interval between reporting aggregated views in
@@ -251,8 +281,14 @@ func (w *worker) SetReportingPeriod(d time.Duration) {
 		d: d,
 		c: make(chan bool),
 	}
-	w.c <- req
-	<-req.c // don't return until the timer is set to the new duration.
+	if !w.send(req) {
+		return
+	}
+	// don't return until the timer is set to the new duration.
+	select {
+	case <-req.c:
+	case <-w.done:
+	}
 }
 
 // NewMeter constructs a Meter instance. You should only need to use this if
@@ -280,13 +316,43 @@ func (w *worker) SetResource(r *resource.Resource) {
 	w.r = r
 }
 
+// send passes a command to the worker. It returns false if the worker has
+// been stopped; a command it accepts may still never be handled if the worker
+// is stopped meanwhile.
+func (w *worker) send(cmd command) bool {
+	select {
+	case <-w.quit:
+		return false
+	default:
+	}
+	select {
+	case w.c <- cmd:
+		return true
+	case <-w.quit:
+		return false
+	}
+}
+
 func (w *worker) Start() {
+	w.addProducer()
 	go w.start()
 }
 
 func (w *worker) start() {
-	prodMgr := metricproducer.GlobalManager()
-	prodMgr.AddProducer(w)
+	w.runOnce.Do(w.run)
+}
+
+// addProducer makes the worker a metric producer unless it has been stopped.
+func (w *worker) addProducer() {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	if !w.stopped {
+		metricproducer.GlobalManager().AddProducer(w)
+	}
+}
+
+func (w *worker) run() {
+	w.addProducer()
 
 	for {
 		select {
@@ -296,7 +362,6 @@ func (w *worker) start() {
 			w.reportUsage()
 		case <-w.quit:
 			w.timer.Stop()
-			close(w.c)
 			close(w.done)
 			return
 		}
@@ -304,14 +369,18 @@ func (w *worker) start() {
 }
 
 func (w *worker) Stop() {
-	prodMgr := metricproducer.GlobalManager()
-	prodMgr.DeleteProducer(w)
-	select {
-	case <-w.quit:
-	default:
-		close(w.quit)
-	}
+	w.quitOnce.Do(func() { close(w.quit) })
+	// A worker that was never started has nothing to wait for.
+	w.runOnce.Do(func() {
+		w.timer.Stop()
+		close(w.done)
+	})
 	<-w.done
+
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	w.stopped = true
+	metricproducer.GlobalManager().DeleteProducer(w)
 }
 
 func (w *worker) getMeasureRef(name string) *measureRef {
-- 
2.43.0


From 20590d5c06b2a1aa1f5274bc481879f51e71fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 07/32] fix: Unregister must not clear rows while a reader
 copies them

---
 stats/view/worker_commands.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stats/view/worker_commands.go b/stats/view/worker_commands.go
index 9ac4cc0..1fd5ca6 100644
--- a/stats/view/worker_commands.go
+++ b/stats/view/worker_commands.go
@@ -101,7 +101,9 @@ func (cmd *unregisterFromViewReq) handleCommand(w *worker) {
 		if !vi.isSubscribed() {
 			// this was the last subscription and view is not collecting anymore.
 			// The collected data can be cleared.
+			w.mu.Lock()
 			vi.clearRows()
+			w.mu.Unlock()
 		}
 		w.unregisterView(vi)
 	}
-- 
2.43.0


From bb60ac8f617ea35941bd399b7446ec47846b54f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 08/32] fix: SetResource races with reading the meter

---
 stats/view/worker.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index c14de04..cea05d2 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"go.opencensus.io/resource"
@@ -54,7 +55,7 @@ type worker struct {
 	runOnce    sync.Once
 	mu         sync.RWMutex
 	stopped    bool
-	r          *resource.Resource
+	r          atomic.Value // of *resource.Resource
 
 	exportersMu sync.RWMutex
 	exporters   map[Exporter]struct{}
@@ -313,7 +314,7 @@ func NewMeter() Meter {
 // it is not provided when used with ExportView/RegisterExporter, because that
 // interface does not provide a means for reporting the Resource.
 func (w *worker) SetResource(r *resource.Resource) {
-	w.r = r
+	w.r.Store(r)
 }
 
 // send passes a command to the worker. It returns false if the worker has
@@ -459,7 +460,8 @@ func (w *worker) toMetric(v *viewInternal, now time.Time) *metricdata.Metric {
 		return nil
 	}
 
-	return viewToMetric(v, w.r, now)
+	r, _ := w.r.Load().(*resource.Resource)
+	return viewToMetric(v, r, now)
 }
 
 // Read reads all view data and returns them as metrics.
-- 
2.43.0


From 47dbf489b5c12945123080a3e81abbacbdee16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 09/32] fix: maximum of a distribution of values that are all
 zero or negative

---
 stats/view/aggregation_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/aggregation_data.go b/stats/view/aggregation_data.go
index d93b520..03a333d 100644
--- a/stats/view/aggregation_data.go
+++ b/stats/view/aggregation_data.go
@@ -149,7 +149,7 @@ func newDistributionData(agg *Aggregation, t time.Time) *DistributionData {
 		ExemplarsPerBucket: make([]*metricdata.Exemplar, bucketCount),
 		bounds:             agg.Buckets,
 		Min:                math.MaxFloat64,
-		Max:                math.SmallestNonzeroFloat64,
+		Max:                -math.MaxFloat64,
 		Start:              t,
 	}
 }
-- 
2.43.0


From 3158c74b6b5ee9c258f3d67574023d4f4916d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 10/32] fix: registering an equal view again is a no-op
 whatever its aggregation

Aggregations were compared including their constructor function, so equal
distribution or last-value views were refused; registering a view also always
wrote to its (possibly shared) aggregation.
---
 stats/view/aggregation.go | 13 +++++++++++++
 stats/view/view.go        |  9 ++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/stats/view/aggregation.go b/stats/view/aggregation.go
index 61f72d2..45d8958 100644
--- a/stats/view/aggregation.go
+++ b/stats/view/aggregation.go
@@ -50,6 +50,19 @@ type Aggregation struct {
 	newData func(time.Time) AggregationData
 }
 
+// same compares two canonicalized aggregations.
+func (a *Aggregation) same(other *Aggregation) bool {
+	if a.Type != other.Type || len(a.Buckets) != len(other.Buckets) {
+		return false
+	}
+	for i, b := range a.Buckets {
+		if b != other.Buckets[i] {
+			return false
+		}
+	}
+	return true
+}
+
 var (
 	aggCount = &Aggregation{
 		Type: AggTypeCount,
diff --git a/stats/view/view.go b/stats/view/view.go
index 293b54e..9cbf196 100644
--- a/stats/view/view.go
+++ b/stats/view/view.go
@@ -64,7 +64,7 @@ func (v *View) same(other *View) bool {
 	if v == nil {
 		return false
 	}
-	return reflect.DeepEqual(v.Aggregation, other.Aggregation) &&
+	return v.Aggregation.same(other.Aggregation) &&
 		v.Measure.Name() == other.Measure.Name()
 }
 
@@ -100,8 +100,11 @@ func (v *View) canonicalize() error {
 			return ErrNegativeBucketBounds
 		}
 	}
-	// drop 0 bucket silently.
-	v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	// drop 0 bucket silently. Aggregations may be shared between views and
+	// meters, so they are only written to if there is something to drop.
+	if len(v.Aggregation.Buckets) > 0 && v.Aggregation.Buckets[0] == 0 {
+		v.Aggregation.Buckets = dropZeroBounds(v.Aggregation.Buckets...)
+	}
 
 	return nil
 }
-- 
2.43.0


From 414cdcd56b5aab448c7920a479811c47bbc053f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 11/32] fix: stats.Record must not keep the caller's slice of
 measurements

Measurements are aggregated after Record returns; a caller reusing its slice
had other values recorded than it passed.
---
 stats/view/worker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index cea05d2..74af402 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -245,7 +245,7 @@ func (w *worker) Record(tags *tag.Map, ms interface{}, attachments map[string]in
 func (w *worker) recordMeasurement(tags *tag.Map, ms []stats.Measurement, attachments map[string]interface{}) {
 	req := &recordReq{
 		tm:          tags,
-		ms:          ms,
+		ms:          append([]stats.Measurement(nil), ms...), // the caller may reuse ms
 		attachments: attachments,
 		t:           time.Now(),
 	}
-- 
2.43.0


From 6506b9937259272462d4829bb805e8bdae9b5f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 12/32] fix: label values of 255 bytes and more must not be
 truncated or panic

---
 internal/tagencoding/tagencoding.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/tagencoding/tagencoding.go b/internal/tagencoding/tagencoding.go
index 41b2c3f..e280063 100644
--- a/internal/tagencoding/tagencoding.go
+++ b/internal/tagencoding/tagencoding.go
@@ -17,6 +17,8 @@
 // used interally by the stats collector.
 package tagencoding // import "go.opencensus.io/internal/tagencoding"
 
+import "encoding/binary"
+
 // Values represent the encoded buffer for the values.
 type Values struct {
 	Buffer     []byte
@@ -34,12 +36,14 @@ func (vb *Values) growIfRequired(expected int) {
 
 // WriteValue is the helper method to encode Values from map[Key][]byte.
 func (vb *Values) WriteValue(v []byte) {
-	length := len(v) & 0xff
-	vb.growIfRequired(1 + length)
+	length := len(v)
+	var prefix [binary.MaxVarintLen64]byte
+	n := binary.PutUvarint(prefix[:], uint64(length))
+	vb.growIfRequired(n + length)
 
 	// writing length of v
-	vb.Buffer[vb.WriteIndex] = byte(length)
-	vb.WriteIndex++
+	copy(vb.Buffer[vb.WriteIndex:], prefix[:n])
+	vb.WriteIndex += n
 
 	if length == 0 {
 		// No value was encoded for this key
@@ -47,15 +51,16 @@ func (vb *Values) WriteValue(v []byte) {
 	}
 
 	// writing v
-	copy(vb.Buffer[vb.WriteIndex:], v[:length])
+	copy(vb.Buffer[vb.WriteIndex:], v)
 	vb.WriteIndex += length
 }
 
 // ReadValue is the helper method to decode Values to a map[Key][]byte.
 func (vb *Values) ReadValue() []byte {
 	// read length of v
-	length := int(vb.Buffer[vb.ReadIndex])
-	vb.ReadIndex++
+	l, n := binary.Uvarint(vb.Buffer[vb.ReadIndex:])
+	length := int(l)
+	vb.ReadIndex += n
 	if length == 0 {
 		// No value was encoded for this key
 		return nil
-- 
2.43.0


From 1d8613536fc8a2a0d69ebefabc621e0645ee160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 13/32] fix: replacing a derived entry must not make it
 disappear for a moment

---
 metric/common.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metric/common.go b/metric/common.go
index 42acaae..1dd4075 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -138,7 +138,6 @@ func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry fu
 		return errKeyValueMismatch
 	}
 	mapKey := bm.encodeLabelVals(labelVals)
-	bm.vals.Delete(mapKey)
 	bm.vals.Store(mapKey, newEntry())
 	return nil
 }
-- 
2.43.0


From d3ddb886d2db3e05d0e1cc4666aebd8eab0cde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 14/32] fix: concurrent entries of a metric with constant
 labels must not share a slice

---
 metric/common.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/metric/common.go b/metric/common.go
index 1dd4075..9b31fd9 100644
--- a/metric/common.go
+++ b/metric/common.go
@@ -119,8 +119,17 @@ func (bm *baseMetric) decodeLabelVals(s string) []metricdata.LabelValue {
 	return vals
 }
 
+// allLabelVals returns the constant label values followed by labelVals, in a
+// slice of its own: callers run concurrently and constLabelValues may have
+// spare capacity.
+func (bm *baseMetric) allLabelVals(labelVals []metricdata.LabelValue) []metricdata.LabelValue {
+	all := make([]metricdata.LabelValue, 0, len(bm.constLabelValues)+len(labelVals))
+	all = append(all, bm.constLabelValues...)
+	return append(all, labelVals...)
+}
+
 func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry func() baseEntry) (interface{}, error) {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return nil, errKeyValueMismatch
 	}
@@ -133,7 +142,7 @@ func (bm *baseMetric) entryForValues(labelVals []metricdata.LabelValue, newEntry
 }
 
 func (bm *baseMetric) upsertEntry(labelVals []metricdata.LabelValue, newEntry func() baseEntry) error {
-	labelVals = append(bm.constLabelValues, labelVals...)
+	labelVals = bm.allLabelVals(labelVals)
 	if len(labelVals) != len(bm.keys) {
 		return errKeyValueMismatch
 	}
-- 
2.43.0


From 677720009d1329ca678a25dc5cb6ba0915d90f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 15/32] fix: tracestate.New must not write to or keep its
 caller slice of entries

---
 trace/tracestate/tracestate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trace/tracestate/tracestate.go b/trace/tracestate/tracestate.go
index 2d6c713..7444987 100644
--- a/trace/tracestate/tracestate.go
+++ b/trace/tracestate/tracestate.go
@@ -81,7 +81,9 @@ func (ts *Tracestate) add(entries []Entry) error {
 		return fmt.Errorf("adding %d key-value pairs to current %d pairs exceeds the limit of %d",
 			len(entries), len(ts.entries), maxKeyValuePairs)
 	}
-	ts.entries = append(entries, ts.entries...)
+	all := make([]Entry, 0, len(entries)+len(ts.entries))
+	all = append(all, entries...)
+	ts.entries = append(all, ts.entries...)
 	return nil
 }
 
-- 
2.43.0


From 28d783e8d8b96569a8427fad59e0987161872ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:28 +0000
Subject: [PATCH 16/32] fix: traceparent flags of more than two digits are
 malformed

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 48d8152..476bb9a 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -97,7 +97,7 @@ func (f *HTTPFormat) SpanContextFromHeaders(tp string, ts string) (sc trace.Span
 	copy(sc.SpanID[:], sid)
 
 	opts, err := hex.DecodeString(sections[3])
-	if err != nil || len(opts) < 1 {
+	if err != nil || len(opts) != 1 {
 		return trace.SpanContext{}, false
 	}
 	sc.TraceOptions = trace.TraceOptions(opts[0])
-- 
2.43.0


From 4800cdc1828680b90ddb531644e67752cd23f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 17/32] fix: tracecontext must not leave an older tracestate
 header in the request

---
 plugin/ochttp/propagation/tracecontext/propagation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin/ochttp/propagation/tracecontext/propagation.go b/plugin/ochttp/propagation/tracecontext/propagation.go
index 476bb9a..096a2e0 100644
--- a/plugin/ochttp/propagation/tracecontext/propagation.go
+++ b/plugin/ochttp/propagation/tracecontext/propagation.go
@@ -198,5 +198,8 @@ func (f *HTTPFormat) SpanContextToRequest(sc trace.SpanContext, req *http.Reques
 	req.Header.Set(traceparentHeader, tp)
 	if ts != "" {
 		req.Header.Set(tracestateHeader, ts)
+	} else {
+		// Do not send the tracestate of another span context.
+		req.Header.Del(tracestateHeader)
 	}
 }
-- 
2.43.0


From 7b3c58b5dd838471c3787f8ccd7fec3b42b30ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 18/32] fix: Stackdriver header with a trace ID of the wrong
 length or too large options is malformed

---
 exporter/stackdriver/propagation/http.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exporter/stackdriver/propagation/http.go b/exporter/stackdriver/propagation/http.go
index 7cc02a1..b1201ba 100644
--- a/exporter/stackdriver/propagation/http.go
+++ b/exporter/stackdriver/propagation/http.go
@@ -57,7 +57,7 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	tid, h := h[:slash], h[slash+1:]
 
 	buf, err := hex.DecodeString(tid)
-	if err != nil {
+	if err != nil || len(buf) != len(sc.TraceID) {
 		return trace.SpanContext{}, false
 	}
 	copy(sc.TraceID[:], buf)
@@ -78,7 +78,7 @@ func (f *HTTPFormat) SpanContextFromRequest(req *http.Request) (sc trace.SpanCon
 	if !strings.HasPrefix(h, "o=") {
 		return sc, true
 	}
-	o, err := strconv.ParseUint(h[2:], 10, 64)
+	o, err := strconv.ParseUint(h[2:], 10, 32)
 	if err != nil {
 		return trace.SpanContext{}, false
 	}
-- 
2.43.0


From 3b2d41c91cb0bc8b15791240a9d8af1d649575cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 19/32] fix: response bytes sent through io.ReaderFrom must be
 counted

---
 plugin/ochttp/server.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index 946b22e..caa2929 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -210,11 +210,24 @@ func (t *trackingResponseWriter) Header() http.Header {
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 	n, err := t.writer.Write(data)
-	t.respSize += int64(n)
+	t.wrote(int64(n))
+	return n, err
+}
+
+// ReadFrom is only offered to the handler if the original ResponseWriter is an
+// io.ReaderFrom too.
+func (t *trackingResponseWriter) ReadFrom(r io.Reader) (int64, error) {
+	n, err := t.writer.(io.ReaderFrom).ReadFrom(r)
+	t.wrote(n)
+	return n, err
+}
+
+// wrote accounts for n bytes of the response body.
+func (t *trackingResponseWriter) wrote(n int64) {
+	t.respSize += n
 	// Add message event for request bytes sent.
 	span := trace.FromContext(t.ctx)
-	span.AddMessageSendEvent(0 /* TODO: messageID */, int64(n), -1)
-	return n, err
+	span.AddMessageSendEvent(0 /* TODO: messageID */, n, -1)
 }
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
@@ -235,8 +248,9 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		cn, i1 = t.writer.(http.CloseNotifier)
 		pu, i2 = t.writer.(http.Pusher)
 		fl, i3 = t.writer.(http.Flusher)
-		rf, i4 = t.writer.(io.ReaderFrom)
+		_, i4  = t.writer.(io.ReaderFrom)
 	)
+	var rf io.ReaderFrom = t // counts what it sends
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From 68645c40dc66df5b2eb1bc87604558653839b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 20/32] fix: the status recorded for a request is the one sent
 to the client

---
 plugin/ochttp/server.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index caa2929..d6f22df 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -210,6 +210,7 @@ func (t *trackingResponseWriter) Header() http.Header {
 
 func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 	n, err := t.writer.Write(data)
+	t.sentStatus(http.StatusOK)
 	t.wrote(int64(n))
 	return n, err
 }
@@ -218,6 +219,9 @@ func (t *trackingResponseWriter) Write(data []byte) (int, error) {
 // io.ReaderFrom too.
 func (t *trackingResponseWriter) ReadFrom(r io.Reader) (int64, error) {
 	n, err := t.writer.(io.ReaderFrom).ReadFrom(r)
+	if n > 0 {
+		t.sentStatus(http.StatusOK)
+	}
 	t.wrote(n)
 	return n, err
 }
@@ -232,6 +236,22 @@ func (t *trackingResponseWriter) wrote(n int64) {
 
 func (t *trackingResponseWriter) WriteHeader(statusCode int) {
 	t.writer.WriteHeader(statusCode)
+	t.sentStatus(statusCode)
+}
+
+// Flush is only offered to the handler if the original ResponseWriter is an
+// http.Flusher too.
+func (t *trackingResponseWriter) Flush() {
+	t.writer.(http.Flusher).Flush()
+	t.sentStatus(http.StatusOK)
+}
+
+// sentStatus remembers the status the client gets, which is the first one that
+// is not informational.
+func (t *trackingResponseWriter) sentStatus(statusCode int) {
+	if t.statusCode != 0 || statusCode < 200 && statusCode != http.StatusSwitchingProtocols {
+		return
+	}
 	t.statusCode = statusCode
 	t.statusLine = http.StatusText(t.statusCode)
 }
@@ -247,10 +267,13 @@ func (t *trackingResponseWriter) wrappedResponseWriter() http.ResponseWriter {
 		hj, i0 = t.writer.(http.Hijacker)
 		cn, i1 = t.writer.(http.CloseNotifier)
 		pu, i2 = t.writer.(http.Pusher)
-		fl, i3 = t.writer.(http.Flusher)
+		_, i3  = t.writer.(http.Flusher)
 		_, i4  = t.writer.(io.ReaderFrom)
 	)
-	var rf io.ReaderFrom = t // counts what it sends
+	var (
+		fl http.Flusher  = t // notes that the header is sent
+		rf io.ReaderFrom = t // counts what it sends
+	)
 
 	switch {
 	case !i0 && !i1 && !i2 && !i3 && !i4:
-- 
2.43.0


From f44328603d92d1826793f1f9f9c791e142203e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 21/32] fix: the route tag is recorded also for requests whose
 handler panics

---
 plugin/ochttp/route.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/plugin/ochttp/route.go b/plugin/ochttp/route.go
index 5e6a343..29b9cd4 100644
--- a/plugin/ochttp/route.go
+++ b/plugin/ochttp/route.go
@@ -33,27 +33,17 @@ func SetRoute(ctx context.Context, route string) {
 // WithRouteTag returns an http.Handler that records stats with the
 // http_server_route tag set to the given value.
 func WithRouteTag(handler http.Handler, route string) http.Handler {
-	return taggedHandlerFunc(func(w http.ResponseWriter, r *http.Request) []tag.Mutator {
-		addRoute := []tag.Mutator{tag.Upsert(KeyServerRoute, route)}
-		ctx, _ := tag.New(r.Context(), addRoute...)
-		r = r.WithContext(ctx)
-		handler.ServeHTTP(w, r)
-		return addRoute
+	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		addRoute := tag.Upsert(KeyServerRoute, route)
+		if a, ok := r.Context().Value(addedTagsKey{}).(*addedTags); ok {
+			// Also if the handler panics.
+			defer func() { a.t = append(a.t, addRoute) }()
+		}
+		ctx, _ := tag.New(r.Context(), addRoute)
+		handler.ServeHTTP(w, r.WithContext(ctx))
 	})
 }
 
-// taggedHandlerFunc is a http.Handler that returns tags describing the
-// processing of the request. These tags will be recorded along with the
-// measures in this package at the end of the request.
-type taggedHandlerFunc func(w http.ResponseWriter, r *http.Request) []tag.Mutator
-
-func (h taggedHandlerFunc) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	tags := h(w, r)
-	if a, ok := r.Context().Value(addedTagsKey{}).(*addedTags); ok {
-		a.t = append(a.t, tags...)
-	}
-}
-
 type addedTagsKey struct{}
 
 type addedTags struct {
-- 
2.43.0


From c6c599be36f24dae25cf51c3a6b5902c813f3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 22/32] fix: a response without a body ends the client span and
 keeps its nil body

---
 plugin/ochttp/trace.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/ochttp/trace.go b/plugin/ochttp/trace.go
index ed3a5db..751f6e2 100644
--- a/plugin/ochttp/trace.go
+++ b/plugin/ochttp/trace.go
@@ -94,6 +94,10 @@ func (t *traceTransport) RoundTrip(req *http.Request) (*http.Response, error) {
 	// span.End() will be invoked after
 	// a read from resp.Body returns io.EOF or when
 	// resp.Body.Close() is invoked.
+	if resp.Body == nil {
+		span.End()
+		return resp, err
+	}
 	bt := &bodyTracker{rc: resp.Body, span: span}
 	resp.Body = wrappedBody(bt, resp.Body)
 	return resp, err
-- 
2.43.0


From 6cee500a1feb187654d4bc8ea629c4577835cc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 23/32] fix: a request without a body sent 0 bytes, not -1

---
 plugin/ochttp/client_stats.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 17142aa..1abcbc5 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -104,8 +104,12 @@ func (t *tracker) end() {
 		if t.respSize == 0 && t.respContentLength > 0 {
 			respSize = t.respContentLength
 		}
+		sentBytes := t.reqSize
+		if sentBytes < 0 {
+			sentBytes = 0 // no body
+		}
 		m := []stats.Measurement{
-			ClientSentBytes.M(t.reqSize),
+			ClientSentBytes.M(sentBytes),
 			ClientReceivedBytes.M(respSize),
 			ClientRoundtripLatency.M(latencyMs),
 			ClientLatency.M(latencyMs),
-- 
2.43.0


From e781f9526bb6aba54ad9a76f1ac976d4dc93b1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 24/32] fix: runtime memory gauges must be refreshed when read

---
 plugin/runmetrics/producer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index d76bebe..944e1a7 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -165,6 +165,10 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	if p.deprecatedMemStats != nil {
+		p.deprecatedMemStats.read()
+	}
+
 	if p.memStats != nil {
 		p.memStats.read()
 	}
-- 
2.43.0


From 87e8f76c86e7acc3f96def6fcfce657281f158c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 25/32] fix: concurrent reads of the runtime metrics producer
 must not race

---
 plugin/runmetrics/producer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugin/runmetrics/producer.go b/plugin/runmetrics/producer.go
index 944e1a7..32131c7 100644
--- a/plugin/runmetrics/producer.go
+++ b/plugin/runmetrics/producer.go
@@ -16,6 +16,8 @@ type (
 	//
 	// Enable collection of runtime metrics with Enable().
 	producer struct {
+		mu sync.Mutex // one read at a time
+
 		options RunMetricOptions
 		reg     *metric.Registry
 
@@ -165,6 +167,9 @@ func Disable() {
 
 // Read reads the current runtime metrics.
 func (p *producer) Read() []*metricdata.Metric {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	if p.deprecatedMemStats != nil {
 		p.deprecatedMemStats.read()
 	}
-- 
2.43.0


From 3d20b5c32c379e25f6aa4700c3e5e65e97d75ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 26/32] fix: the begin of an RPC without rpcData must not panic

---
 plugin/ocgrpc/stats_common.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugin/ocgrpc/stats_common.go b/plugin/ocgrpc/stats_common.go
index 9cb2732..e4ecf71 100644
--- a/plugin/ocgrpc/stats_common.go
+++ b/plugin/ocgrpc/stats_common.go
@@ -103,6 +103,7 @@ func handleRPCBegin(ctx context.Context, s *stats.Begin) {
 		if grpclog.V(2) {
 			grpclog.Infoln("Failed to retrieve *rpcData from context.")
 		}
+		return
 	}
 
 	if s.IsClient() {
-- 
2.43.0


From e12daf7c478e0d455445008b201ae6437b23c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 27/32] fix: the client must replace an older trace context in
 the outgoing metadata

---
 plugin/ocgrpc/trace_common.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plugin/ocgrpc/trace_common.go b/plugin/ocgrpc/trace_common.go
index 61bc543..b233e8d 100644
--- a/plugin/ocgrpc/trace_common.go
+++ b/plugin/ocgrpc/trace_common.go
@@ -40,6 +40,12 @@ func (c *ClientHandler) traceTagRPC(ctx context.Context, rti *stats.RPCTagInfo)
 		trace.WithSampler(c.StartOptions.Sampler),
 		trace.WithSpanKind(trace.SpanKindClient)) // span is ended by traceHandleRPC
 	traceContextBinary := propagation.Binary(span.SpanContext())
+	if md, ok := metadata.FromOutgoingContext(ctx); ok && len(md[traceContextKey]) > 0 {
+		// Replace the trace context of another span, for example in
+		// metadata that was copied from an incoming RPC.
+		md.Set(traceContextKey, string(traceContextBinary))
+		return metadata.NewOutgoingContext(ctx, md)
+	}
 	return metadata.AppendToOutgoingContext(ctx, traceContextKey, string(traceContextBinary))
 }
 
-- 
2.43.0


From dc13005ef13bb2539f4efa61e053740e28b0dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 28/32] fix: decoding label values that contain a quote
 followed by a comma, and no labels

---
 resource/resource.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/resource/resource.go b/resource/resource.go
index b1764e1..3e790de 100644
--- a/resource/resource.go
+++ b/resource/resource.go
@@ -57,7 +57,10 @@ func EncodeLabels(labels map[string]string) string {
 	return s
 }
 
-var labelRegex = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)=("[[:ascii:]]{0,256}?")\s*,`)
+var (
+	labelKeyRegex   = regexp.MustCompile(`^\s*([[:ascii:]]{1,256}?)="`)
+	labelValueRegex = regexp.MustCompile(`^("(?:[\x00-\x21\x23-\x5b\x5d-\x7f]|\\[[:ascii:]]){0,256}")\s*,`)
+)
 
 // DecodeLabels decodes a serialized label map as used in the OC_RESOURCE_LABELS variable.
 // A list of labels of the form `<key1>="<value1>",<key2>="<value2>",...` is accepted.
@@ -68,23 +71,27 @@ func DecodeLabels(s string) (map[string]string, error) {
 	// Ensure a trailing comma, which allows us to keep the regex simpler
 	s = strings.TrimRight(strings.TrimSpace(s), ",") + ","
 
+	if s == "," {
+		return m, nil // no labels
+	}
+
 	for len(s) > 0 {
-		match := labelRegex.FindStringSubmatch(s)
-		if len(match) == 0 {
+		key := labelKeyRegex.FindStringSubmatch(s)
+		if len(key) == 0 {
 			return nil, fmt.Errorf("invalid label formatting, remainder: %s", s)
 		}
-		v := match[2]
-		if v == "" {
-			v = match[3]
-		} else {
-			var err error
-			if v, err = strconv.Unquote(v); err != nil {
-				return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
-			}
+		rest := s[len(key[0])-1:] // starts with the quote of the value
+		value := labelValueRegex.FindStringSubmatch(rest)
+		if len(value) == 0 {
+			return nil, fmt.Errorf("invalid label formatting, remainder: %s", s)
+		}
+		v, err := strconv.Unquote(value[1])
+		if err != nil {
+			return nil, fmt.Errorf("invalid label formatting, remainder: %s, err: %s", s, err)
 		}
-		m[match[1]] = v
+		m[key[1]] = v
 
-		s = s[len(match[0]):]
+		s = rest[len(value[0]):]
 	}
 	return m, nil
 }
-- 
2.43.0


From 58f67e4fa0ae803f7f63c65392d0dbff93e403b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:32 +0000
Subject: [PATCH 29/32] fix: Flush of a nil interval reader must not panic

---
 metric/metricexport/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metric/metricexport/reader.go b/metric/metricexport/reader.go
index 8a09d0f..979aa7a 100644
--- a/metric/metricexport/reader.go
+++ b/metric/metricexport/reader.go
@@ -174,6 +174,9 @@ func (ir *IntervalReader) Stop() {
 
 // Flush flushes the metrics if IntervalReader is stopped, otherwise no-op.
 func (ir *IntervalReader) Flush() {
+	if ir == nil {
+		return
+	}
 	ir.mu.Lock()
 	defer ir.mu.Unlock()
 
-- 
2.43.0


From 33f10b73b1f24dab269a90cc39f4ad744cf6a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 30/32] fix: do not keep a goroutine waiting for every extra
 Start of a meter

---
 stats/view/worker.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stats/view/worker.go b/stats/view/worker.go
index 74af402..ee1152e 100644
--- a/stats/view/worker.go
+++ b/stats/view/worker.go
@@ -52,7 +52,7 @@ type worker struct {
 	c          chan command
 	quit, done chan bool
 	quitOnce   sync.Once
-	runOnce    sync.Once
+	claimed    uint32 // 1 once run or Stop has taken over, use atomic to access
 	mu         sync.RWMutex
 	stopped    bool
 	r          atomic.Value // of *resource.Resource
@@ -340,7 +340,14 @@ func (w *worker) Start() {
 }
 
 func (w *worker) start() {
-	w.runOnce.Do(w.run)
+	if w.claim() {
+		w.run()
+	}
+}
+
+// claim returns true to its first caller only.
+func (w *worker) claim() bool {
+	return atomic.CompareAndSwapUint32(&w.claimed, 0, 1)
 }
 
 // addProducer makes the worker a metric producer unless it has been stopped.
@@ -372,10 +379,10 @@ func (w *worker) run() {
 func (w *worker) Stop() {
 	w.quitOnce.Do(func() { close(w.quit) })
 	// A worker that was never started has nothing to wait for.
-	w.runOnce.Do(func() {
+	if w.claim() {
 		w.timer.Stop()
 		close(w.done)
-	})
+	}
 	<-w.done
 
 	w.mu.Lock()
-- 
2.43.0


From 1c34f60ee4b0da3dee3b6f3bdb434a8c7e7110f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 31/32] fix: RpcZ must show the bytes received by servers

---
 zpages/rpcz.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpages/rpcz.go b/zpages/rpcz.go
index ef4dd15..6afd712 100644
--- a/zpages/rpcz.go
+++ b/zpages/rpcz.go
@@ -301,6 +301,9 @@ func (s snapExporter) ExportView(vd *view.Data) {
 		case ocgrpc.ServerLatencyView:
 			s.AvgLatencyTotal = convertTime(sum / count)
 
+		case ocgrpc.ServerReceivedBytesPerRPCView:
+			s.InputRateTotal = computeRate(0, sum)
+
 		case ocgrpc.ServerSentBytesPerRPCView:
 			s.OutputRateTotal = computeRate(0, sum)
 
-- 
2.43.0


From fdf5681f679818f69ced6e493bc70ca181299016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 32/32] fix: a path that cannot be a tag value must not cost a
 request its other tags

---
 plugin/ochttp/client_stats.go |  2 +-
 plugin/ochttp/server.go       |  4 ++--
 plugin/ochttp/stats.go        | 17 +++++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/plugin/ochttp/client_stats.go b/plugin/ochttp/client_stats.go
index 1abcbc5..ab2c3a0 100644
--- a/plugin/ochttp/client_stats.go
+++ b/plugin/ochttp/client_stats.go
@@ -33,7 +33,7 @@ type statsTransport struct {
 
 // RoundTrip implements http.RoundTripper, delegating to Base and recording stats for the request.
 func (t statsTransport) RoundTrip(req *http.Request) (*http.Response, error) {
-	ctx, _ := tag.New(req.Context(),
+	ctx := withTags(req.Context(),
 		tag.Upsert(KeyClientHost, req.Host),
 		tag.Upsert(Host, req.Host),
 		tag.Upsert(KeyClientPath, req.URL.Path),
diff --git a/plugin/ochttp/server.go b/plugin/ochttp/server.go
index d6f22df..510146c 100644
--- a/plugin/ochttp/server.go
+++ b/plugin/ochttp/server.go
@@ -147,7 +147,7 @@ func (h *Handler) extractSpanContext(r *http.Request) (trace.SpanContext, bool)
 }
 
 func (h *Handler) startStats(w http.ResponseWriter, r *http.Request) (http.ResponseWriter, func(tags *addedTags)) {
-	ctx, _ := tag.New(r.Context(),
+	ctx := withTags(r.Context(),
 		tag.Upsert(Host, r.Host),
 		tag.Upsert(Path, r.URL.Path),
 		tag.Upsert(Method, r.Method))
@@ -200,7 +200,7 @@ func (t *trackingResponseWriter) end(tags *addedTags) {
 		allTags := make([]tag.Mutator, len(tags.t)+1)
 		allTags[0] = tag.Upsert(StatusCode, strconv.Itoa(t.statusCode))
 		copy(allTags[1:], tags.t)
-		stats.RecordWithTags(t.ctx, allTags, m...)
+		stats.Record(withTags(t.ctx, allTags...), m...)
 	})
 }
 
diff --git a/plugin/ochttp/stats.go b/plugin/ochttp/stats.go
index ee37290..c92ffef 100644
--- a/plugin/ochttp/stats.go
+++ b/plugin/ochttp/stats.go
@@ -15,6 +15,8 @@
 package ochttp
 
 import (
+	"context"
+
 	"go.opencensus.io/stats"
 	"go.opencensus.io/stats/view"
 	"go.opencensus.io/tag"
@@ -290,3 +292,18 @@ var DefaultServerViews = []*view.View{
 	ServerRequestCountByMethod,
 	ServerResponseCountByStatusCode,
 }
+
+// withTags returns ctx with the tags changed by mutators. A request chooses
+// some of the values: one that no tag can have, like a path that is long or not
+// ASCII, does not cost the request its other tags.
+func withTags(ctx context.Context, mutators ...tag.Mutator) context.Context {
+	if c, err := tag.New(ctx, mutators...); err == nil {
+		return c
+	}
+	for _, m := range mutators {
+		if c, err := tag.New(ctx, m); err == nil {
+			ctx = c
+		}
+	}
+	return ctx
+}
-- 
2.43.0

