From 8350528c7ed25332717a1544b6a70d7ad0efae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:00 +0000
Subject: [PATCH 01/19] fix: count the microseconds of CPU times as
 microseconds

/proc/cpu/user and /proc/cpu/sys treated tv_usec as nanoseconds, so the
fraction of a second was 1000 times too small and CPU time could appear to
go backwards between reads of getrusage and the metric.
---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From ed59d9a76f510556d3b18c8c2c60e984c9e8fbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:02 +0000
Subject: [PATCH 02/19] fix: round negative seconds to the nearest nanosecond

FromFloat added 0.5 before truncating toward zero, so every negative
duration came back one nanosecond short: FromFloat(-5) was -4.999999999s.
---
 go/tricorder/duration/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/duration/api.go b/go/tricorder/duration/api.go
index 4b65b73..2671d13 100644
--- a/go/tricorder/duration/api.go
+++ b/go/tricorder/duration/api.go
@@ -3,6 +3,7 @@ package duration
 
 import (
 	"github.com/Symantec/tricorder/go/tricorder/units"
+	"math"
 	"time"
 )
 
@@ -95,5 +96,5 @@ func ToFloat(d time.Duration) (seconds float64) {
 
 // FromFloat converts a value in seconds to a duration
 func FromFloat(seconds float64) time.Duration {
-	return time.Duration(seconds*float64(time.Second) + 0.5)
+	return time.Duration(math.Round(seconds * float64(time.Second)))
 }
-- 
2.43.0


From 73602fc40836db5d2b9e6906e3df9a5826c00178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:05 +0000
Subject: [PATCH 03/19] fix: keep integers above 2^52 intact when converting
 from float

Adding 0.5 to an odd integer between 2^52 and 2^53 rounds to the next even
one, so Int64.FromFloat(4503599627370497) gave 4503599627370498.
---
 go/tricorder/types/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/types/types.go b/go/tricorder/types/types.go
index 1e465d5..2d0c6cb 100644
--- a/go/tricorder/types/types.go
+++ b/go/tricorder/types/types.go
@@ -1,12 +1,13 @@
 package types
 
+import (
+	"math"
+)
+
 type goValue interface {
 	Type() Type
 }
 
 func round(f float64) float64 {
-	if f < 0 {
-		return f - 0.5
-	}
-	return f + 0.5
+	return math.Round(f)
 }
-- 
2.43.0


From d5358b88d6dfdbf5cd2def4dd3e1eba794cf2e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:07 +0000
Subject: [PATCH 04/19] fix: report generation and kind of empty distributions

Once its last value was removed a non cumulative distribution reported
generation 0 and claimed to be cumulative, although the generation is
documented to increase with every change.
---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..ff71684 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -572,9 +572,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			Breakdown:       bdn,
+			TimeStamp:       d.timeStamp,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From 9dc971e991494a10f6c410a6929b4a05608fe437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 05/19] fix: report values of client defined types as the
 documented types

A metric whose type is the client's own, such as type state string, was
reported with that type rather than the documented one. As go RPC cannot
encode types it does not know, one such metric made every ListMetrics call
that included it break the connection. The same went for lists of such
types and for client defined slice types, which could also panic when
converted to JSON.
---
 go/tricorder/metric.go | 69 +++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 35 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ff71684..bc20ca3 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -608,28 +608,10 @@ func copySlice(value reflect.Value) reflect.Value {
 	return result
 }
 
-// Converts []int or []uint slice to a slice having element type t.
-// If value is an []int, t has to be types.Int32 or types.Int64.
-// If value is an []uint, t has to be types.Uint32 or types.Uint64.
-func convertFromIntOrUintSlice(
-	value reflect.Value, t types.Type) reflect.Value {
-	var newType reflect.Type
-	switch t {
-	case types.Int32:
-		var unused []int32
-		newType = reflect.TypeOf(unused)
-	case types.Int64:
-		var unused []int64
-		newType = reflect.TypeOf(unused)
-	case types.Uint32:
-		var unused []uint32
-		newType = reflect.TypeOf(unused)
-	case types.Uint64:
-		var unused []uint64
-		newType = reflect.TypeOf(unused)
-	default:
-		panic("t is not compatible with int or uint")
-	}
+// Converts a slice such as []int whose elements are of type t but not
+// of the go type that goes with t to a slice of type newType.
+func convertSlice(
+	value reflect.Value, t types.Type, newType reflect.Type) reflect.Value {
 	length := value.Len()
 	defensiveCopy := reflect.MakeSlice(newType, length, length)
 	for i := 0; i < length; i++ {
@@ -645,8 +627,9 @@ func convertFromIntOrUintSlice(
 
 // Returns aSlice as a value and its type. If sliceIsMutable is true,
 // always makes a defensive copy of aSlice. If sliceIsMutable is false,
-// may or may not make a defensive copy of aSlice. If aSlice is an []int
-// or []uint, returned value will be size specific, e.g []int64.
+// may or may not make a defensive copy of aSlice. Returned value will be
+// the slice type that goes with t. For instance, if aSlice is an []int,
+// returned value will be size specific, e.g []int64.
 func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	value reflect.Value, t types.Type) {
 	value = reflect.ValueOf(aSlice)
@@ -658,10 +641,13 @@ func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	if isPtr {
 		panic("Lists cannot contain slices of pointrs.")
 	}
-	elemKind := elemType.Kind()
-	if elemKind == reflect.Int || elemKind == reflect.Uint {
-		value = convertFromIntOrUintSlice(value, t)
-	} else if sliceIsMutable {
+	sliceType := reflect.TypeOf(t.NilSlice())
+	if elemType != sliceType.Elem() {
+		value = convertSlice(value, t, sliceType)
+		return
+	}
+	value = value.Convert(sliceType)
+	if sliceIsMutable {
 		value = copySlice(value)
 	}
 	return
@@ -1060,27 +1046,40 @@ func valueToInterface(
 	value reflect.Value,
 	t types.Type,
 	isValueAPointer bool) interface{} {
-	// Int32, Int64, Uint32, and Uint64 cases are necessary in case
-	// client passed an int or uint pointer to RegisterMetric.
+	// The conversions are necessary in case client passed a pointer to
+	// an int, a uint or a type of their own to RegisterMetric.
 	// If we were to just call v.evaluate(s).Interface() we would return
-	// that plain int or uint instead of a sized int or uint and violate
-	// the contract of the API which specifies that the value is always
-	// a sized int or uint.
+	// that type instead of the one that goes with t and violate the
+	// contract of the API. Moreover, go RPC can't encode client types.
 	switch {
+	case t == types.Bool && !isValueAPointer:
+		return value.Bool()
+	case t == types.Int8 && !isValueAPointer:
+		return int8(value.Int())
+	case t == types.Int16 && !isValueAPointer:
+		return int16(value.Int())
 	case t == types.Int32 && !isValueAPointer:
 		return int32(value.Int())
 	case t == types.Int64 && !isValueAPointer:
 		return int64(value.Int())
+	case t == types.Uint8 && !isValueAPointer:
+		return uint8(value.Uint())
+	case t == types.Uint16 && !isValueAPointer:
+		return uint16(value.Uint())
 	case t == types.Uint32 && !isValueAPointer:
 		return uint32(value.Uint())
 	case t == types.Uint64 && !isValueAPointer:
 		return uint64(value.Uint())
+	case t == types.Float32 && !isValueAPointer:
+		return float32(value.Float())
+	case t == types.Float64 && !isValueAPointer:
+		return value.Float()
+	case t == types.String && !isValueAPointer:
+		return value.String()
 	case t == types.GoTime:
 		return valueToTime(value, isValueAPointer)
 	case t == types.GoDuration:
 		return valueToGoDuration(value)
-	case !isValueAPointer:
-		return value.Interface()
 	default:
 		panic(panicIncompatibleTypes)
 	}
-- 
2.43.0


From 9ddc441a75ff76cc10f8594a47b050c8c7982768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 06/19] fix: refuse metrics that can never be read with
 ErrWrongType

RegisterMetric is documented to return ErrWrongType if metric is not of a
valid type, but it accepted functions with parameters, nil functions and
nil lists, which made every later request that included them panic, and it
panicked itself when given nil, a nil pointer, a nil distribution, a value
that is not a pointer or a flag whose value is nil.
---
 go/tricorder/metric.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index bc20ca3..dbe7e19 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -812,6 +812,9 @@ func mustGetPrimitiveType(t reflect.Type) (
 
 func newValueForDist(dist *distribution, unit units.Unit) (
 	*value, error) {
+	if dist == nil {
+		return nil, ErrWrongType
+	}
 	if !dist.SetUnit(unit) {
 		return nil, ErrWrongUnit
 	}
@@ -819,6 +822,13 @@ func newValueForDist(dist *distribution, unit units.Unit) (
 
 }
 
+func newValueForList(alist *listType, unit units.Unit) (*value, error) {
+	if alist == nil {
+		return nil, ErrWrongType
+	}
+	return &value{alist: alist, unit: unit, valType: types.List}, nil
+}
+
 // unit parameter only used if spec is a *Distribution
 // In that case, it sets the unit of the *Distribution in place.
 func newValue(spec interface{}, region *region, unit units.Unit) (
@@ -835,17 +845,19 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 		return newValueForDist(dist, unit)
 	}
 	if someList, ok := spec.(*List); ok {
-		alist := (*listType)(someList)
-		return &value{alist: alist, unit: unit, valType: types.List}, nil
+		return newValueForList((*listType)(someList), unit)
 	}
 	if alist, ok := spec.(*listType); ok {
-		return &value{alist: alist, unit: unit, valType: types.List}, nil
+		return newValueForList(alist, unit)
 	}
 	flagValue, ok := spec.(flag.Value)
 	if ok {
 		flagGetter := toFlagGetter(flagValue)
-		t := reflect.ValueOf(flagGetter.Get()).Type()
-		valType, isValAPointer, ok := getPrimitiveType(t)
+		var valType types.Type
+		var isValAPointer, ok bool
+		if t := reflect.TypeOf(flagGetter.Get()); t != nil {
+			valType, isValAPointer, ok = getPrimitiveType(t)
+		}
 		var valFunc reflect.Value
 		if !ok {
 			valType = types.String
@@ -863,6 +875,9 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isValAPointer: isValAPointer}, nil
 	}
 	v := reflect.ValueOf(spec)
+	if !v.IsValid() {
+		return nil, ErrWrongType
+	}
 	t := v.Type()
 	if t.Kind() == reflect.Func {
 		funcArgCount := t.NumOut()
@@ -871,6 +886,14 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 		if funcArgCount != 1 {
 			panic(panicBadFunctionReturnTypes)
 		}
+		// We have to be able to call our functions with no arguments
+		funcParamCount := t.NumIn()
+		if t.IsVariadic() {
+			funcParamCount--
+		}
+		if funcParamCount != 0 || v.IsNil() {
+			return nil, ErrWrongType
+		}
 		valType, isValAPointer, ok := getPrimitiveType(t.Out(0))
 		if !ok {
 			return nil, ErrWrongType
@@ -883,6 +906,9 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isfunc:        true,
 			isValAPointer: isValAPointer}, nil
 	}
+	if t.Kind() != reflect.Ptr || v.IsNil() {
+		return nil, ErrWrongType
+	}
 	v = v.Elem()
 	valType, isValAPointer, ok := getPrimitiveType(v.Type())
 	if !ok {
-- 
2.43.0


From 5edd68f55e7a1b38cf468234cbd3010a5306b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:02 +0000
Subject: [PATCH 07/19] fix: leave no trace of a failed registration

A metric of the wrong type or unit left the directories of its path behind,
so that the path could no longer be used for a metric, and a distribution
refused because its path was in use still got its unit assigned, so that it
could not be registered elsewhere with its real unit.
---
 go/tricorder/metric.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index dbe7e19..f453e43 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -377,6 +377,13 @@ func (d *distribution) SetUnit(unit units.Unit) bool {
 	return false
 }
 
+// CanSetUnit returns true if SetUnit would succeed.
+func (d *distribution) CanSetUnit(unit units.Unit) bool {
+	d.lock.RLock()
+	defer d.lock.RUnlock()
+	return !d.unitSet || unit == d.unit
+}
+
 func (d *distribution) GroupId() int {
 	return d.groupId
 }
@@ -815,7 +822,7 @@ func newValueForDist(dist *distribution, unit units.Unit) (
 	if dist == nil {
 		return nil, ErrWrongType
 	}
-	if !dist.SetUnit(unit) {
+	if !dist.CanSetUnit(unit) {
 		return nil, ErrWrongUnit
 	}
 	return &value{dist: dist, unit: unit, valType: types.Dist}, nil
@@ -829,8 +836,9 @@ func newValueForList(alist *listType, unit units.Unit) (*value, error) {
 	return &value{alist: alist, unit: unit, valType: types.List}, nil
 }
 
-// unit parameter only used if spec is a *Distribution
-// In that case, it sets the unit of the *Distribution in place.
+// If spec is a *Distribution, newValue returns ErrWrongUnit if unit is not
+// the unit already assigned to it. newValue leaves it to storeMetric to
+// assign unit to a *Distribution with no assigned unit.
 func newValue(spec interface{}, region *region, unit units.Unit) (
 	*value, error) {
 	if someDist, ok := spec.(*NonCumulativeDistribution); ok {
@@ -1715,6 +1723,9 @@ func (d *directory) storeMetric(name string, m *metric) error {
 	if n != nil {
 		return ErrPathInUse
 	}
+	if m.dist != nil && !m.dist.SetUnit(m.unit) {
+		return ErrWrongUnit
+	}
 	newListEntry := &listEntry{Name: name, Metric: m, parent: d.enclosingListEntry}
 	m.enclosingListEntry = newListEntry
 	d.contents[name] = newListEntry
@@ -1742,11 +1753,11 @@ func (d *directory) registerMetric(
 	if path.Empty() {
 		return ErrPathInUse
 	}
-	current, err := d.registerDirectory(path.Dir())
+	avalue, err := newValue(value, region, unit)
 	if err != nil {
 		return
 	}
-	avalue, err := newValue(value, region, unit)
+	current, err := d.registerDirectory(path.Dir())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From d7475abb777bbd7d2eaec5d4f13992fe539f7ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:47 +0000
Subject: [PATCH 08/19] fix: escape directory names in HTML links

The link to a directory whose name contains a question mark, a number sign
or something that looks like a percent encoding led to another page.
---
 go/tricorder/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..79f35d0 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -7,6 +7,7 @@ import (
 	"html/template"
 	"io"
 	"net/http"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -142,7 +143,7 @@ func (v *htmlView) HasUnit() bool {
 }
 
 func (v *htmlView) Link(d *directory) string {
-	return htmlUrl + d.AbsPath()
+	return (&url.URL{Path: htmlUrl + d.AbsPath()}).String()
 }
 
 func (v *htmlView) ToFloat32(f float64) float32 {
-- 
2.43.0


From fd4e76026da5a46bfbb694c378a2028f7cbf25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:49 +0000
Subject: [PATCH 09/19] fix: keep NaN and infinity from breaking whole JSON
 listings

Metrics that are NaN or infinite are left out of listings because JSON cannot
represent them, but lists and distributions holding such values, and
callbacks whose value changed after it was checked, still made the whole
listing fail with "Error in template.".
---
 go/tricorder/json.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/json.go b/go/tricorder/json.go
index 1a5ae16..c9772e5 100644
--- a/go/tricorder/json.go
+++ b/go/tricorder/json.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"github.com/Symantec/tricorder/go/tricorder/messages"
+	"math"
 	"net/http"
 )
 
@@ -20,10 +21,49 @@ func jsonAsMetric(m *metric, s *session) *messages.Metric {
 type jsonMetricsCollector messages.MetricList
 
 func (c *jsonMetricsCollector) Collect(m *metric, s *session) (err error) {
-	*c = append(*c, jsonAsMetric(m, s))
+	jm := jsonAsMetric(m, s)
+	if isFinite(jm.Value) {
+		*c = append(*c, jm)
+	}
 	return nil
 }
 
+func areFinite(values ...float64) bool {
+	for _, value := range values {
+		if math.IsNaN(value) || math.IsInf(value, 0) {
+			return false
+		}
+	}
+	return true
+}
+
+// isFinite returns false if value contains NaN or infinity which JSON cannot
+// represent. One such value would make encoding the whole response fail.
+func isFinite(value interface{}) bool {
+	switch v := value.(type) {
+	case float32:
+		return areFinite(float64(v))
+	case float64:
+		return areFinite(v)
+	case []float32:
+		for _, elem := range v {
+			if !areFinite(float64(elem)) {
+				return false
+			}
+		}
+	case []float64:
+		return areFinite(v...)
+	case *messages.Distribution:
+		for _, r := range v.Ranges {
+			if !areFinite(r.Lower, r.Upper) {
+				return false
+			}
+		}
+		return areFinite(v.Min, v.Max, v.Average, v.Median, v.Sum)
+	}
+	return true
+}
+
 func jsonSetUpHeaders(h http.Header) {
 	h.Set("Content-Type", "application/json")
 	h.Set("X-Tricorder-Media-Type", "tricorder.v1")
-- 
2.43.0


From 1d0c9a7a2db389c78e5e639ad31c77399d6d672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:50 +0000
Subject: [PATCH 10/19] fix: print the metrics to standard output in
 tricorderclient

The client wrote them to standard input, which only works on a terminal.
---
 go/tricorderclient/tricorderclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorderclient/tricorderclient.go b/go/tricorderclient/tricorderclient.go
index 76ef28f..55f033f 100644
--- a/go/tricorderclient/tricorderclient.go
+++ b/go/tricorderclient/tricorderclient.go
@@ -19,7 +19,7 @@ func printAsJson(desc string, value interface{}) {
 		log.Fatal("Marshalling:", err)
 	}
 	json.Indent(&buffer, content, "", "\t")
-	buffer.WriteTo(os.Stdin)
+	buffer.WriteTo(os.Stdout)
 	fmt.Println()
 }
 
-- 
2.43.0


From e59c2fcb71db63dcce41ec100a8550b540fffc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 11/19] fix: reject malformed times and durations

Signs after the leading minus sign such as in "-+5" and "--0.5", and anything
at all after the ninth decimal, went unnoticed.
---
 go/tricorder/duration/duration.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/duration/duration.go b/go/tricorder/duration/duration.go
index 1369106..8266d37 100644
--- a/go/tricorder/duration/duration.go
+++ b/go/tricorder/duration/duration.go
@@ -124,6 +124,15 @@ func (d Duration) convert(from, to units.Unit) Duration {
 	return d.mult(num).div(den)
 }
 
+func isAllDigits(str string) bool {
+	for i := range str {
+		if str[i] < '0' || str[i] > '9' {
+			return false
+		}
+	}
+	return true
+}
+
 func parse(str string) (result Duration, err error) {
 	var bNegative bool
 	if strings.HasPrefix(str, "-") {
@@ -131,14 +140,16 @@ func parse(str string) (result Duration, err error) {
 		str = str[1:]
 	}
 	number := strings.SplitN(str, ".", 2)
+	for _, part := range number {
+		if !isAllDigits(part) {
+			err = fmt.Errorf("Decimal number expected, got '%s'", str)
+			return
+		}
+	}
 	whole, err := strconv.ParseInt(number[0], 10, 64)
 	if err != nil {
 		return
 	}
-	if whole < 0 {
-		err = errors.New("Double negative while parsing")
-		return
-	}
 	var frac uint64
 	if len(number) == 2 {
 		fracStr := number[1]
-- 
2.43.0


From 771a43e2cc8123f4494bde6fd310fd83d3aa5664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 12/19] fix: reject durations that do not fit when converting
 to go RPC

A duration longer than time.Duration can hold silently turned into a
different, possibly negative, duration.
---
 go/tricorder/messages/metric.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/tricorder/messages/metric.go b/go/tricorder/messages/metric.go
index 321760b..0d41927 100644
--- a/go/tricorder/messages/metric.go
+++ b/go/tricorder/messages/metric.go
@@ -211,5 +211,8 @@ func stringAsDuration(durationStr string, unit units.Unit) (
 		return
 	}
 	result = dur.AsGoDuration()
+	if duration.New(result) != dur {
+		err = fmt.Errorf("Duration '%s' out of range", durationStr)
+	}
 	return
 }
-- 
2.43.0


From 34ee3894b6fcbb63d333dc364f999f67f63e2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:57 +0000
Subject: [PATCH 13/19] fix: start and end geometric bucketers at the right
 endpoints

Rounding errors of the repeated multiplications and divisions by 10 made
bounds such as 1e-12 or 1e-7 start one endpoint too low, and bounds that are
endpoints end one endpoint too high.
---
 go/tricorder/metric.go | 48 +++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index f453e43..4b493b0 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -245,40 +245,50 @@ var (
 	coefficientsForGeometricBucketer = []float64{1.0, 2.0, 5.0}
 )
 
-func findGeometricBaseAndOffset(x float64) (base float64, offset int) {
-	base = 1.0
-	for x >= 10.0 {
-		x /= 10.0
-		base *= 10.0
-	}
-	for x < 1.0 {
-		x *= 10.0
-		base /= 10.0
-	}
-	coeffLen := len(coefficientsForGeometricBucketer)
-	for i := coeffLen - 1; i >= 0; i-- {
-		if x >= coefficientsForGeometricBucketer[i] {
-			return base, i
+// geometricEndpoint returns the correctly rounded value of the coefficient
+// at offset times 10 to the power of exp. Multiplying or dividing by 10
+// repeatedly would accumulate rounding errors.
+func geometricEndpoint(exp, offset int) float64 {
+	coefficient := coefficientsForGeometricBucketer[offset]
+	if exp < 0 {
+		return coefficient / math.Pow10(-exp)
+	}
+	return coefficient * math.Pow10(exp)
+}
+
+// findGeometricExpAndOffset finds the largest endpoint <= x
+func findGeometricExpAndOffset(x float64) (exp, offset int) {
+	exp = int(math.Floor(math.Log10(x)))
+	// Log10 may be slightly off
+	for geometricEndpoint(exp, 0) > x {
+		exp--
+	}
+	for geometricEndpoint(exp+1, 0) <= x {
+		exp++
+	}
+	for i := len(coefficientsForGeometricBucketer) - 1; i > 0; i-- {
+		if x >= geometricEndpoint(exp, i) {
+			return exp, i
 		}
 	}
-	return base / 10.0, coeffLen - 1
+	return exp, 0
 }
 
 func newGeometricBucketerStream(lower, upper float64) (result []float64) {
 	if lower <= 0 || upper < lower {
 		panic("lower must > 0 and upper >= lower")
 	}
-	base, offset := findGeometricBaseAndOffset(lower)
+	exp, offset := findGeometricExpAndOffset(lower)
 	coeffLen := len(coefficientsForGeometricBucketer)
-	emitValue := base * coefficientsForGeometricBucketer[offset]
+	emitValue := geometricEndpoint(exp, offset)
 	for emitValue < upper {
 		result = append(result, emitValue)
 		offset++
 		if offset == coeffLen {
-			base *= 10
+			exp++
 			offset = 0
 		}
-		emitValue = base * coefficientsForGeometricBucketer[offset]
+		emitValue = geometricEndpoint(exp, offset)
 	}
 	result = append(result, emitValue)
 	return
-- 
2.43.0


From 62c72473849df7d0a7b489251d64659461ea4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:59 +0000
Subject: [PATCH 14/19] fix: report one timestamp per group id for repeated
 registrations

A distribution or list registered with several paths has one group id, and
metrics with the same group id are documented to have the same timestamp, but
one listing could show it before and after a change.
---
 go/tricorder/metric.go | 47 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 4b493b0..aace6d0 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -74,10 +74,37 @@ var (
 // it is up to the function to create its own session if necessary.
 type session struct {
 	visitedRegions map[*region]time.Time
+	// What this session has fetched from distributions and lists so that
+	// it reports the same if they are registered with several paths.
+	snapshots map[*distribution]*snapshot
+	lists     map[*listType]listSnapshot
 }
 
 func newSession() *session {
-	return &session{visitedRegions: make(map[*region]time.Time)}
+	return &session{
+		visitedRegions: make(map[*region]time.Time),
+		snapshots:      make(map[*distribution]*snapshot),
+		lists:          make(map[*listType]listSnapshot)}
+}
+
+// Snapshot returns the snapshot of d for this session.
+func (s *session) Snapshot(d *distribution) *snapshot {
+	result, ok := s.snapshots[d]
+	if !ok {
+		result = d.Snapshot()
+		s.snapshots[d] = result
+	}
+	return result
+}
+
+// AsSlice returns the values and timestamp of l for this session.
+func (s *session) AsSlice(l *listType) (interface{}, time.Time) {
+	result, ok := s.lists[l]
+	if !ok {
+		result.aSlice, result.timeStamp = l.AsSlice()
+		s.lists[l] = result
+	}
+	return result.aSlice, result.timeStamp
 }
 
 // Visit indicates that caller is about to fetch metrics from a
@@ -611,6 +638,12 @@ func (d *distribution) Snapshot() *snapshot {
 
 }
 
+// listSnapshot represents the values of a list at some point in time
+type listSnapshot struct {
+	aSlice    interface{}
+	timeStamp time.Time
+}
+
 type listType struct {
 	groupId   int
 	subType   types.Type
@@ -1173,6 +1206,10 @@ func asRanges(ranges breakdown) []*messages.RangeWithCount {
 
 func (v *value) updateJsonOrRpcMetric(
 	s *session, metric *messages.Metric, encoding rpcEncoding) {
+	if s == nil {
+		s = newSession()
+		defer s.Close()
+	}
 	t := v.Type()
 	metric.Kind = t
 	metric.SubType = v.SubType()
@@ -1181,7 +1218,7 @@ func (v *value) updateJsonOrRpcMetric(
 	switch t {
 	case types.Dist:
 		dist := v.AsDistribution()
-		snapshot := dist.Snapshot()
+		snapshot := s.Snapshot(dist)
 		metric.Value = &messages.Distribution{
 			Min:             snapshot.Min,
 			Max:             snapshot.Max,
@@ -1196,13 +1233,9 @@ func (v *value) updateJsonOrRpcMetric(
 		metric.TimeStamp = snapshot.TimeStamp
 	case types.List:
 		alist := v.AsList()
-		metric.Value, metric.TimeStamp = alist.AsSlice()
+		metric.Value, metric.TimeStamp = s.AsSlice(alist)
 		metric.GroupId = alist.GroupId()
 	default:
-		if s == nil {
-			s = newSession()
-			defer s.Close()
-		}
 		metric.Value = v.AsInterface(s)
 		metric.GroupId = v.RegionId()
 		metric.TimeStamp = v.TimeStamp(s)
-- 
2.43.0


From 1cb197260abcbdd8d98bd4a621bf7da6ff16df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:33 +0000
Subject: [PATCH 15/19] fix: announce gzip for compressed error responses of
 /metricsapi

With recent versions of Go, http.Error removes Content-Encoding, so a client
accepting gzip got the compressed 404 page of a missing singleton with nothing
saying that it is compressed.
---
 go/tricorder/http.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/go/tricorder/http.go b/go/tricorder/http.go
index 9eced71..c331623 100644
--- a/go/tricorder/http.go
+++ b/go/tricorder/http.go
@@ -58,6 +58,12 @@ func (w *gzipResponseWriter) Write(b []byte) (int, error) {
 	return w.W.Write(b)
 }
 
+func (w *gzipResponseWriter) WriteHeader(statusCode int) {
+	// http.Error removes this header, but the body is compressed regardless.
+	w.Header().Set("Content-Encoding", "gzip")
+	w.ResponseWriter.WriteHeader(statusCode)
+}
+
 type gzipHandler struct {
 	H http.Handler
 }
-- 
2.43.0


From d7f3f3c1a77c8ba90202a0c00c0a8f9d2dabab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:24 +0000
Subject: [PATCH 16/19] fix: text page of a single metric read its value
 outside of its session

The value was read after the request had ended its use of the group, so that
the group's update function could run at the same time: a data race, and the
value of an update that the request did not ask for.
---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 79f35d0..52a9d9c 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -268,7 +268,9 @@ func textEmitDirectoryOrMetric(
 	if m == nil {
 		return d.GetAllMetrics(&textCollector{W: w}, nil)
 	}
-	return textEmitMetric(m, nil, w)
+	s := newSession()
+	defer s.Close()
+	return textEmitMetric(m, s, w)
 }
 
 func setSecurityHeaders(w http.ResponseWriter) {
-- 
2.43.0


From ef00ef8e435aa0f8f387f7af647f7fdb661e3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:23 +0000
Subject: [PATCH 17/19] Revert "fix: announce gzip for compressed error
 responses of /metricsapi"

This reverts commit 1cb1972. None of the Go releases at hand (1.23 to 1.27)
removes Content-Encoding in http.Error, so there was nothing to repair.
---
 go/tricorder/http.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/go/tricorder/http.go b/go/tricorder/http.go
index c331623..9eced71 100644
--- a/go/tricorder/http.go
+++ b/go/tricorder/http.go
@@ -58,12 +58,6 @@ func (w *gzipResponseWriter) Write(b []byte) (int, error) {
 	return w.W.Write(b)
 }
 
-func (w *gzipResponseWriter) WriteHeader(statusCode int) {
-	// http.Error removes this header, but the body is compressed regardless.
-	w.Header().Set("Content-Encoding", "gzip")
-	w.ResponseWriter.WriteHeader(statusCode)
-}
-
 type gzipHandler struct {
 	H http.Handler
 }
-- 
2.43.0


From 742ff5125066ce9ce2ed83b734deace865f2428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:30 +0000
Subject: [PATCH 18/19] fix: do not send gzip to clients that refuse it

A client that sends Accept-Encoding: gzip;q=0 refuses gzip, and one that
lists it in upper case or on a second header line accepts it.
---
 go/tricorder/http.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/http.go b/go/tricorder/http.go
index 9eced71..041c326 100644
--- a/go/tricorder/http.go
+++ b/go/tricorder/http.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -62,8 +63,33 @@ type gzipHandler struct {
 	H http.Handler
 }
 
+// acceptsGzip returns true if the client that sent r lists gzip as an
+// encoding it accepts, that is without a weight of 0.
+func acceptsGzip(r *http.Request) bool {
+	for _, header := range r.Header["Accept-Encoding"] {
+		for _, encoding := range strings.Split(header, ",") {
+			parts := strings.Split(encoding, ";")
+			if !strings.EqualFold(strings.TrimSpace(parts[0]), "gzip") {
+				continue
+			}
+			for _, param := range parts[1:] {
+				param = strings.ToLower(strings.TrimSpace(param))
+				if !strings.HasPrefix(param, "q=") {
+					continue
+				}
+				weight, err := strconv.ParseFloat(param[2:], 64)
+				if err == nil && weight == 0.0 {
+					return false
+				}
+			}
+			return true
+		}
+	}
+	return false
+}
+
 func (h gzipHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
+	if !acceptsGzip(r) {
 		h.H.ServeHTTP(w, r)
 		return
 	}
-- 
2.43.0


From 1fac4497cf7a14fcb95e4e799925b56f6f3859ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 19/19] fix: decode each reply afresh in tricorderclient

Go RPC replies leave out fields that are zero, so a reply decoded into the
variable of an earlier one kept that one's description, unit, sub-type, bits,
timestamp or group id where its own were empty.
---
 go/tricorderclient/tricorderclient.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/tricorderclient/tricorderclient.go b/go/tricorderclient/tricorderclient.go
index 55f033f..5d570a7 100644
--- a/go/tricorderclient/tricorderclient.go
+++ b/go/tricorderclient/tricorderclient.go
@@ -36,6 +36,8 @@ func main() {
 	}
 	printAsJson("All metrics", metrics)
 
+	// Replies leave out zero fields, so start each one afresh.
+	metrics = nil
 	err = client.Call("MetricsServer.ListMetrics", "/aaa/bbb", &metrics)
 	if err != nil {
 		log.Fatal("Calling:", err)
@@ -49,6 +51,7 @@ func main() {
 	}
 	printAsJson("/proc/foo/bar/baz metric", single)
 
+	single = messages.Metric{}
 	err = client.Call("MetricsServer.GetMetric", "/proc/foo/ddd", &single)
 	if err != nil {
 		log.Println("Got error for /proc/foo/ddd:", err)
@@ -56,6 +59,7 @@ func main() {
 		printAsJson("/proc/foo/ddd metric", single)
 	}
 
+	single = messages.Metric{}
 	err = client.Call("MetricsServer.GetMetric", "/list/squares", &single)
 	if err != nil {
 		log.Println("Got error for /list/squares:", err)
-- 
2.43.0

