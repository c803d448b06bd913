From 9092e4ba5517c18bd223278bcc4c71a410362956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:50 +0000
Subject: [PATCH 01/33] fix: Unmarshal of empty input returns a NotExist value
 instead of a nil *V

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index d9e64de..eb3faf7 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -238,7 +238,7 @@ func MustUnmarshal(b []byte) *V {
 func Unmarshal(b []byte) (ret *V, err error) {
 	le := len(b)
 	if le == 0 {
-		return nil, ErrNilParameter
+		return &V{}, ErrNilParameter
 	}
 
 	trueB := make([]byte, len(b))
-- 
2.43.0


From 868ac482bbe6e42b37fc16c1543cb6a1f06a6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:55 +0000
Subject: [PATCH 02/33] fix: converting an empty or blank string to a number no
 longer panics

---
 unmarshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 249222a..a5ca69c 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -353,6 +353,9 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 // - [ECMA-404 The JSON Data Interchange Standard](https://www.json.org/json-en.html)
 func parseNumber(v *V, p pool) (err error) {
 	it := iter(v.srcByte)
+	if len(it) == 0 {
+		return errors.New("empty number text")
+	}
 
 	parsed, end, reachEnd, err := it.parseNumber(p, 0)
 	if err != nil {
-- 
2.43.0


From 4ae8169c0dfea951a595a7710b5faed045310702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:00 +0000
Subject: [PATCH 03/33] fix: reject 20-digit integers beyond uint64 instead of
 wrapping them around

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index a5ca69c..336c722 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -856,7 +856,8 @@ func (it iter) parsePositiveIntResult(p pool, start, end int, integer uint64) (*
 	if le > len(uintMaxStr) {
 		return nil, it.numErrorf(start, "value too large")
 	} else if le == len(uintMaxStr) {
-		if integer < uintMaxDigits {
+		// a 20-digit number starting with '2' or greater may wrap around more than once
+		if integer < uintMaxDigits || it[start] != '1' {
 			return nil, it.numErrorf(start, "value too large")
 		}
 	}
-- 
2.43.0


From 370ed619a64260062f00ec6195c9ed7cee6f59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:05 +0000
Subject: [PATCH 04/33] fix: reject number texts with a missing integer part or
 unnecessary leading zeros

---
 unmarshal.go | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 336c722..b6b73da 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -766,6 +766,20 @@ func (it iter) parseNumber(
 		idx--
 	}
 
+	// check integer part: at least one digit, and no unnecessary leading zero
+	intPart := it[offset:idx]
+	if negative {
+		intPart = intPart[1:]
+	}
+	if len(intPart) == 0 || intPart[0] < '0' || intPart[0] > '9' {
+		err = it.numErrorf(offset, "invalid number format")
+		return
+	}
+	if len(intPart) > 1 && intPart[0] == '0' && intPart[1] >= '0' && intPart[1] <= '9' {
+		err = it.numErrorf(offset, "number should not start with unnecessary zero")
+		return
+	}
+
 	if floated {
 		if dotGot && !intAfterDotGot {
 			err = it.numErrorf(offset, "integer after dot missing")
@@ -773,21 +787,6 @@ func (it iter) parseNumber(
 		}
 		v, err = it.parseFloatResult(p, offset, idx)
 	} else {
-		if integer > 0 && it[offset] == '0' {
-			err = it.numErrorf(offset, "non-zero integer should not start with zero")
-			return
-		}
-
-		firstB := it[offset]
-		if idx-offset == 1 {
-			if firstB >= '0' && firstB <= '9' {
-				// OK
-			} else {
-				err = it.numErrorf(offset, "invalid number format")
-				return
-			}
-		}
-
 		if negative {
 			v, err = it.parseNegativeIntResult(p, offset, idx, integer)
 		} else {
-- 
2.43.0


From 7ea7b6b80a2c7e9c99af80841784cbb2c3dafa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 05/33] fix: Marshal reports errors of nested NaN/Inf values
 instead of emitting invalid JSON

---
 marshal.go | 52 +++++++++++++++++++++++++++++++++-------------------
 sort.go    | 16 ++++++++++++----
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/marshal.go b/marshal.go
index 405d9d4..65ef9bc 100644
--- a/marshal.go
+++ b/marshal.go
@@ -76,9 +76,9 @@ func marshalToBuffer(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt)
 	case Null:
 		marshalNull(buf)
 	case Object:
-		marshalObject(v, parentInfo, buf, opt)
+		err = marshalObject(v, parentInfo, buf, opt)
 	case Array:
-		marshalArray(v, parentInfo, buf, opt)
+		err = marshalArray(v, parentInfo, buf, opt)
 	}
 	return err
 }
@@ -216,10 +216,10 @@ func marshalNull(buf buffer.Buffer) {
 	_, _ = buf.WriteString("null")
 }
 
-func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.object) == 0 {
 		_, _ = buf.WriteString("{}")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -227,18 +227,21 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 
 	if opt.MarshalLessFunc != nil {
 		sov := newSortObjectV(v, parentInfo, opt)
-		sov.marshalObjectWithLessFunc(buf, opt)
+		err = sov.marshalObjectWithLessFunc(buf, opt)
 
 	} else if len(opt.MarshalKeySequence) > 0 {
 		sssv := newSortStringSliceV(v, opt)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else if opt.marshalBySetSequence {
 		sssv := newSortStringSliceVBySetSeq(v)
-		sssv.marshalObjectWithStringSlice(buf, opt)
+		err = sssv.marshalObjectWithStringSlice(buf, opt)
 
 	} else {
-		writeObjectKVInRandomizedSequence(v, buf, opt)
+		err = writeObjectKVInRandomizedSequence(v, buf, opt)
+	}
+	if err != nil {
+		return err
 	}
 
 	opt.indent.cnt--
@@ -247,20 +250,25 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte('}')
+	return nil
 }
 
-func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) {
+func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) (err error) {
 	firstWritten := false
 	for k, child := range v.children.object {
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, k, child.v, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool) {
+) (written bool, err error) {
 	if child.IsNull() && opt.OmitNull {
-		return false
+		return false, nil
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
@@ -280,8 +288,10 @@ func writeObjectChildren(
 		_, _ = buf.WriteString("\":")
 	}
 
-	_ = marshalToBuffer(child, parentInfo, buf, opt)
-	return true
+	if err = marshalToBuffer(child, parentInfo, buf, opt); err != nil {
+		return false, err
+	}
+	return true, nil
 }
 
 func writeIndent(buf buffer.Buffer, opt *Opt) {
@@ -291,10 +301,10 @@ func writeIndent(buf buffer.Buffer, opt *Opt) {
 	}
 }
 
-func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
+func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
 	if len(v.children.arr) == 0 {
 		_, _ = buf.WriteString("[]")
-		return
+		return nil
 	}
 
 	opt.indent.cnt++
@@ -309,12 +319,15 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 			writeIndent(buf, opt)
 		}
 		if opt.MarshalLessFunc == nil {
-			_ = marshalToBuffer(child, nil, buf, opt)
+			err = marshalToBuffer(child, nil, buf, opt)
 		} else {
-			_ = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
+			err = marshalToBuffer(child, newParentInfo(v, parentInfo, intKey(i)), buf, opt)
 		}
-		return true
+		return err == nil
 	})
+	if err != nil {
+		return err
+	}
 
 	opt.indent.cnt--
 	if opt.indent.enabled {
@@ -322,4 +335,5 @@ func marshalArray(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) {
 		writeIndent(buf, opt)
 	}
 	_ = buf.WriteByte(']')
+	return nil
 }
diff --git a/sort.go b/sort.go
index 0ebfc8e..07eaf3e 100644
--- a/sort.go
+++ b/sort.go
@@ -186,7 +186,7 @@ func DefaultStringSequence(parent *ParentInfo, key1, key2 string, v1, v2 *V) boo
 	return strings.Compare(key1, key2) <= 0
 }
 
-func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
+func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) (err error) {
 	// sort
 	sort.Sort(sov)
 
@@ -195,8 +195,12 @@ func (sov *sortObjectV) marshalObjectWithLessFunc(buf buffer.Buffer, opt *Opt) {
 	for i, key := range sov.keys {
 		child := sov.values[i]
 		par := newParentInfo(child, sov.parentInfo, stringKey(key))
-		firstWritten = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		firstWritten, err = writeObjectChildren(par, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 type sortObjectV struct {
@@ -235,7 +239,7 @@ func newSortObjectV(v *V, parentInfo *ParentInfo, opt *Opt) *sortObjectV {
 }
 
 // marshalObjectWithStringSlice use a slice to determine sequence of object
-func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) {
+func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, opt *Opt) (err error) {
 	// sort
 	sort.Sort(sssv)
 
@@ -243,8 +247,12 @@ func (sssv *sortStringSliceV) marshalObjectWithStringSlice(buf buffer.Buffer, op
 	firstWritten := false
 	for i, key := range sssv.keys {
 		child := sssv.values[i]
-		firstWritten = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		firstWritten, err = writeObjectChildren(nil, buf, !firstWritten, key, child, opt)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 type sortStringSliceV struct {
-- 
2.43.0


From 457fa068be3199f501d6461b1cdc34556941c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:48 +0000
Subject: [PATCH 06/33] fix: keep the comma after an omitted null when
 marshaling with OptOmitNull

---
 marshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 65ef9bc..ccf269b 100644
--- a/marshal.go
+++ b/marshal.go
@@ -266,9 +266,9 @@ func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) (err e
 
 func writeObjectChildren(
 	parentInfo *ParentInfo, buf buffer.Buffer, isFirstOne bool, key string, child *V, opt *Opt,
-) (written bool, err error) {
+) (anyWritten bool, err error) {
 	if child.IsNull() && opt.OmitNull {
-		return false, nil
+		return !isFirstOne, nil // whether any child has been written does not change
 	}
 	if !isFirstOne {
 		_ = buf.WriteByte(',')
-- 
2.43.0


From a1e5b3896d2ccdd161acf8ac6dae203c04c9032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:21 +0000
Subject: [PATCH 07/33] fix: Append and Insert reject unsupported, nil and
 NotExist children as Set does

---
 insert_append_delete.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/insert_append_delete.go b/insert_append_delete.go
index 535a4a2..28b1b6d 100644
--- a/insert_append_delete.go
+++ b/insert_append_delete.go
@@ -189,7 +189,10 @@ func (ins *insert) Before(firstParam any, otherParams ...any) (*V, error) {
 	}
 	v := ins.v
 	c := ins.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
@@ -241,6 +244,9 @@ func (ins *insert) After(firstParam any, otherParams ...any) (*V, error) {
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(otherParams)
@@ -428,11 +434,17 @@ func (v *V) AppendArray() Appender {
 //
 // InTheBeginning 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最前端
 func (apd *appender) InTheBeginning(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
 	if nil == v || v.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
+	if nil == c || c.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
 
 	// this is the last iteration
 	paramCount := len(params)
@@ -478,9 +490,15 @@ func (apd *appender) InTheBeginning(params ...any) (*V, error) {
 //
 // InTheEnd 函数将 Append 函数指定的 JSON 值，添加到参数指定的数组的最后面
 func (apd *appender) InTheEnd(params ...any) (*V, error) {
+	if apd.err != nil {
+		return &V{}, apd.err
+	}
 	v := apd.v
 	c := apd.c
-	if v.valueType == NotExist {
+	if nil == v || v.valueType == NotExist {
+		return &V{}, ErrValueUninitialized
+	}
+	if nil == c || c.valueType == NotExist {
 		return &V{}, ErrValueUninitialized
 	}
 
-- 
2.43.0


From eee2045eebedc31d93524653727431ae6c78d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:56 +0000
Subject: [PATCH 08/33] fix: Import converts nil json/text marshalers and nil
 *V to null as encoding/json does

---
 import_export.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/import_export.go b/import_export.go
index 724754e..739a5a3 100644
--- a/import_export.go
+++ b/import_export.go
@@ -192,7 +192,7 @@ func getPointerOfValue(v reflect.Value) reflect.Value {
 
 func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 	if v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	j, _ := v.Interface().(deepCopier)
 	return j.deepCopy(), nil
@@ -200,11 +200,11 @@ func parseJSONValueDeepCopier(v reflect.Value, ex ext) (*V, error) {
 
 func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(json.Marshaler)
 	if marshaler == nil {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalJSON()
 	if err != nil {
@@ -246,11 +246,11 @@ func parseJSONMarshaler(v reflect.Value, ex ext) (*V, error) {
 
 func parseTextMarshaler(v reflect.Value, ex ext) (*V, error) {
 	if v.Kind() == reflect.Ptr && v.IsNil() {
-		return nil, nil // empty
+		return parseNullValue(v, ex)
 	}
 	marshaler, _ := v.Interface().(encoding.TextMarshaler)
 	if marshaler == nil {
-		return NewNull(), nil // empty
+		return parseNullValue(v, ex)
 	}
 	b, err := marshaler.MarshalText()
 	if err != nil {
-- 
2.43.0


From fec8f801649e7136748a657620197f6720514b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:27 +0000
Subject: [PATCH 09/33] fix: Import applies omitempty to the tagged field only,
 not to values it holds or points to

---
 import_export.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/import_export.go b/import_export.go
index 739a5a3..ef1ac88 100644
--- a/import_export.go
+++ b/import_export.go
@@ -361,6 +361,8 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 		return NewObject(), nil
 	}
 
+	// omitempty is for the map itself, not for its values
+	ex.omitempty = false
 	res := NewObject()
 
 	for _, kk := range keys {
@@ -402,6 +404,8 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 		return parseNullValue(v, ex)
 	}
 
+	// omitempty is for the pointer itself, not for what it points to
+	ex.omitempty = false
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
@@ -487,6 +491,11 @@ func parseStructFieldValue(
 		return
 	}
 
+	if fv.Kind() == reflect.Interface && !fv.IsNil() {
+		// omitempty is for the interface itself, not for what it holds
+		ex.omitempty = false
+	}
+
 	fv, fu, err := validateValAndReturnParser(fv, ex)
 	if err != nil {
 		err = fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
-- 
2.43.0


From 7760ffbfaa5201936d578d918baa9722f1bbb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:32 +0000
Subject: [PATCH 10/33] fix: make SetDefaultMarshalOptions goroutine-safe as
 documented

---
 jsonvalue_internal.go | 4 ++--
 option.go             | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonvalue_internal.go b/jsonvalue_internal.go
index f797560..f125abc 100644
--- a/jsonvalue_internal.go
+++ b/jsonvalue_internal.go
@@ -11,7 +11,7 @@ import (
 var internal = struct {
 	b64 *base64.Encoding
 
-	defaultMarshalOption *Opt
+	defaultMarshalOption atomic.Value // *Opt
 
 	predict struct {
 		bytesPerValue uint64
@@ -26,7 +26,7 @@ var internal = struct {
 
 func init() {
 	internal.b64 = base64.StdEncoding
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 	internalAddPredictSizePerValue(16, 1)
 
 	internal.types.JSONMarshaler = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
diff --git a/option.go b/option.go
index 163bff1..86ca7ee 100644
--- a/option.go
+++ b/option.go
@@ -210,14 +210,14 @@ func (o Opt) mergeTo(tgt *Opt) {
 func SetDefaultMarshalOptions(opts ...Option) {
 	opt := emptyOptions()
 	opt.combineOptionsFrom(opts)
-	internal.defaultMarshalOption = opt
+	internal.defaultMarshalOption.Store(opt)
 }
 
 // ResetDefaultMarshalOptions reset default marshaling options to system default.
 //
 // ResetDefaultMarshalOptions 重设序列化时的默认选项为系统最原始的版本。
 func ResetDefaultMarshalOptions() {
-	internal.defaultMarshalOption = emptyOptions()
+	internal.defaultMarshalOption.Store(emptyOptions())
 }
 
 func emptyOptions() *Opt {
@@ -225,7 +225,7 @@ func emptyOptions() *Opt {
 }
 
 func getDefaultOptions() *Opt {
-	res := *internal.defaultMarshalOption
+	res := *internal.defaultMarshalOption.Load().(*Opt)
 	return &res
 }
 
-- 
2.43.0


From c542874016b3770d732106404336e9b2ae8abb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:36 +0000
Subject: [PATCH 11/33] fix: KeyPath.String no longer panics when no default
 marshal options are set

---
 sort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index 07eaf3e..a2d6881 100644
--- a/sort.go
+++ b/sort.go
@@ -142,7 +142,7 @@ func (p KeyPath) String() (s string) {
 			buff.WriteString(s)
 		} else {
 			buff.WriteRune('"')
-			escapeStringToBuff(k.String(), &buff, getDefaultOptions())
+			escapeStringToBuff(k.String(), &buff, combineOptions(nil))
 			buff.WriteRune('"')
 		}
 	}
-- 
2.43.0


From 12632d128b02373d0aa76b6bfe52350dd16f7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:53 +0000
Subject: [PATCH 12/33] fix: do not write beyond the string header when viewing
 a string as bytes

---
 internal/unsafe/unsafe.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/unsafe/unsafe.go b/internal/unsafe/unsafe.go
index 53f95ec..69365bc 100644
--- a/internal/unsafe/unsafe.go
+++ b/internal/unsafe/unsafe.go
@@ -12,7 +12,12 @@ func BtoS(b []byte) string {
 
 // StoB string to []byte
 func StoB(s string) []byte {
-	sh := (*reflect.SliceHeader)(unsafe.Pointer(&s))
-	sh.Cap = sh.Len
-	return *(*[]byte)(unsafe.Pointer(sh))
+	// A string header has no Cap field, do not write beyond it
+	var b []byte
+	sh := (*reflect.StringHeader)(unsafe.Pointer(&s))
+	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
+	bh.Data = sh.Data
+	bh.Len = sh.Len
+	bh.Cap = sh.Len
+	return b
 }
-- 
2.43.0


From 6d8a14a6ca1597dbafa22528d4e5f251e21dcc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:11 +0000
Subject: [PATCH 13/33] fix: compare NaN and Inf numbers as IEEE floats instead
 of as zero

---
 compare.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/compare.go b/compare.go
index 9f7f8b2..1c45a35 100644
--- a/compare.go
+++ b/compare.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"bytes"
+	"math"
 
 	"github.com/shopspring/decimal"
 )
@@ -48,6 +49,9 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNonFinite(left) || isNonFinite(right) {
+		return left.num.f64 > right.num.f64, !isNaN(left) && !isNaN(right)
+	}
 	a1, _ := decimal.NewFromString(string(left.srcByte))
 	a2, _ := decimal.NewFromString(string(right.srcByte))
 	return a1.GreaterThan(a2), true
@@ -57,6 +61,9 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if left.valueType != Number || right.valueType != Number {
 		return false, false
 	}
+	if isNonFinite(left) || isNonFinite(right) {
+		return left.num.f64 >= right.num.f64, !isNaN(left) && !isNaN(right)
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
@@ -94,7 +101,19 @@ func (v *V) Equal(another *V) bool {
 	}
 }
 
+// isNonFinite tells whether a number is +Inf, -Inf or NaN, which has no decimal text
+func isNonFinite(v *V) bool {
+	return len(v.srcByte) == 0
+}
+
+func isNaN(v *V) bool {
+	return isNonFinite(v) && math.IsNaN(v.num.f64)
+}
+
 func numberEqual(left, right *V) bool {
+	if isNonFinite(left) || isNonFinite(right) {
+		return left.num.f64 == right.num.f64
+	}
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true
 	}
-- 
2.43.0


From c67fd29162018e2d9b6858a533c1a62ec229a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:27 +0000
Subject: [PATCH 14/33] fix: Set reports out of range array indexes in the
 middle of a path instead of appending

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index 3e4ba4a..6ff47bc 100644
--- a/set.go
+++ b/set.go
@@ -284,6 +284,9 @@ func (s *setter) atArray(firstParam any, otherParams []any) (*V, error) {
 	child, ok := childAtIndex(v, pos)
 	isNewChild := false
 	if !ok {
+		if pos != len(v.children.arr) {
+			return &V{}, ErrOutOfRange
+		}
 		isNewChild = true
 		if _, err := anyToString(otherParams[0]); err == nil {
 			child = NewObject()
-- 
2.43.0


From 14ac6b1ccb52aa6ba6d172f2afa90ea5921b2d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:32 +0000
Subject: [PATCH 15/33] fix: reject low surrogate escapes in the leading
 position instead of decoding to invalid runes

---
 unmarshal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index b6b73da..02a4e1d 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -496,6 +496,14 @@ func (it iter) handleEscapeUnicodeStartWithEnd(i *int, end int, sectEnd *int) (e
 	}
 
 	// reference: [JSON 序列化中的转义和 Unicode 编码](https://cloud.tencent.com/developer/article/1625557/)
+	// the first one should be a high surrogate
+	if r >= 0xDC00 {
+		return fmt.Errorf(
+			"%w, expect first UTF-16 encoding but got 0x%04X at position %d",
+			ErrIllegalString, r, *i+2,
+		)
+	}
+
 	// should get another unicode-escaped character
 	if end-*i <= 11 {
 		return fmt.Errorf("insufficient UTF-16 data at offset %d", *i)
-- 
2.43.0


From 159c7c8a68188674483cd3612816d1dc1f469b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:54 +0000
Subject: [PATCH 16/33] fix: reject malformed UTF-8 sequences in strings, which
 may swallow the closing quote

---
 unmarshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 02a4e1d..a942f46 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"unicode/utf8"
 
 	"github.com/Andrew-M-C/go.jsonvalue/internal/unsafe"
 )
@@ -394,6 +395,10 @@ func (it iter) parseStrFromBytesForwardWithQuote(offset int) (sectLenWithoutQuot
 			)
 			return
 		}
+		if r, n := utf8.DecodeRune(it[*i : *i+le]); r == utf8.RuneError && n != le {
+			err = fmt.Errorf("%w: illegal UTF8 string at Position %d", ErrIllegalString, *i)
+			return
+		}
 		it.memcpy(sectEnd, *i, le)
 		sectEnd += le
 		*i += le
-- 
2.43.0


From 0350493d1c8a8e274fde68d5132b1cae084733ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:59 +0000
Subject: [PATCH 17/33] fix: NewFloat64 and NewFloat32 format zero and small
 exponents as encoding/json, as documented

---
 new.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/new.go b/new.go
index e2cb548..7e05c1f 100644
--- a/new.go
+++ b/new.go
@@ -181,11 +181,15 @@ func NewArray() *V {
 func NewFloat64(f float64) *V {
 	abs := math.Abs(f)
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
 		format = byte('e')
 	}
 
-	return newFloat64f(globalPool{}, f, format, -1, 64)
+	v := newFloat64f(globalPool{}, f, format, -1, 64)
+	if format == 'e' {
+		v.srcByte = cleanFloatExponent(v.srcByte)
+	}
+	return v
 }
 
 // NewFloat64f returns an initialized num jsonvalue value by float64 type. The format and prec parameter are used in
@@ -206,13 +210,17 @@ func NewFloat64f(f float64, format byte, prec int) *V {
 // NewFloat32 根据指定的 float32 类型返回一个初始化好的数字类型的 jsonvalue 值。数字转出来的字符串格式参照 encoding/json 中的逻辑。
 func NewFloat32(f float32) *V {
 	f64 := float64(f)
-	abs := math.Abs(f64)
+	abs := float32(math.Abs(f64))
 	format := byte('f')
-	if abs < 1e-6 || abs >= 1e21 {
+	if abs != 0 && (abs < 1e-6 || abs >= 1e21) {
 		format = byte('e')
 	}
 
-	return newFloat64f(globalPool{}, f64, format, -1, 32)
+	v := newFloat64f(globalPool{}, f64, format, -1, 32)
+	if format == 'e' {
+		v.srcByte = cleanFloatExponent(v.srcByte)
+	}
+	return v
 }
 
 // NewFloat32f returns an initialized num jsonvalue value by float64 type. The format and prec parameter are used in
@@ -263,6 +271,16 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	return v
 }
 
+// cleanFloatExponent cleans up e-09 to e-9, as encoding/json does
+func cleanFloatExponent(b []byte) []byte {
+	n := len(b)
+	if n >= 4 && b[n-4] == 'e' && b[n-3] == '-' && b[n-2] == '0' {
+		b[n-2] = b[n-1]
+		b = b[:n-1]
+	}
+	return b
+}
+
 func validateFloat64Format(f byte) error {
 	switch f {
 	case 'f', 'E', 'e', 'G', 'g':
-- 
2.43.0


From 7650d107f00076e8f293f2acbf4b308eb89b8e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:35 +0000
Subject: [PATCH 18/33] fix: NewFloat64/NewFloat32 values report
 IsFloat/IsInteger according to their text

---
 new.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/new.go b/new.go
index 7e05c1f..a079e35 100644
--- a/new.go
+++ b/new.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"reflect"
 	"strconv"
+	"strings"
 )
 
 // New generate a new jsonvalue type via given type. If given type is not supported,
@@ -266,6 +267,7 @@ func newFloat64f(p pool, f float64, format byte, prec, bitSize int) *V {
 	if isValidFloat(f) {
 		s := strconv.FormatFloat(f, format, prec, bitSize)
 		v.srcByte = []byte(s)
+		v.num.floated = strings.ContainsAny(s, ".eE")
 	}
 
 	return v
-- 
2.43.0


From 6445a365f7b6f9978a06a1ca4a7855bcffd20f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:40 +0000
Subject: [PATCH 19/33] fix: GreaterThanInt64Max is false for floating point
 values, as documented

---
 jsonvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonvalue.go b/jsonvalue.go
index eb3faf7..df939eb 100644
--- a/jsonvalue.go
+++ b/jsonvalue.go
@@ -364,7 +364,7 @@ func (v *V) GreaterThanInt64Max() bool {
 	if v.valueType != Number {
 		return false
 	}
-	if v.num.negative {
+	if v.num.negative || v.num.floated {
 		return false
 	}
 	return v.num.u64 > 0x7fffffffffffffff
-- 
2.43.0


From 23efd3838646a00073860fe9bb89739e8d7f2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:45 +0000
Subject: [PATCH 20/33] fix: huge unsigned array indexes are out of range
 instead of wrapping to negative ones

---
 conv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conv.go b/conv.go
index 0c9f90c..6679a85 100644
--- a/conv.go
+++ b/conv.go
@@ -2,6 +2,7 @@ package jsonvalue
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/Andrew-M-C/go.jsonvalue/internal/buffer"
@@ -142,7 +143,11 @@ func anyToInt(v any) (u int, err error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return int(value.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return int(value.Uint()), nil
+		n := value.Uint()
+		if n > math.MaxInt64 || int(n) < 0 {
+			return 0, ErrOutOfRange
+		}
+		return int(n), nil
 	default:
 		return 0, fmt.Errorf("%v is not a number", reflect.TypeOf(v))
 	}
-- 
2.43.0


From 5c18a1672e829f68b565677b3f65f9c82f7485d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:49 +0000
Subject: [PATCH 21/33] fix: ParentInfo of sibling values no longer share one
 KeyPath backing array

---
 sort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sort.go b/sort.go
index a2d6881..e51cd28 100644
--- a/sort.go
+++ b/sort.go
@@ -166,9 +166,11 @@ func newParentInfo(v *V, nilableParentInfo *ParentInfo, key Key) *ParentInfo {
 		}
 	}
 
+	// siblings share the same parent path, do not append in place
+	parentPath := nilableParentInfo.KeyPath
 	return &ParentInfo{
 		Parent:  v,
-		KeyPath: append(nilableParentInfo.KeyPath, &key),
+		KeyPath: append(parentPath[:len(parentPath):len(parentPath)], &key),
 	}
 }
 
-- 
2.43.0


From f7f9a6d6a45d697921109f09c3f3fd9635c5081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:54 +0000
Subject: [PATCH 22/33] fix: IterObjects and IterArray do not read children in
 a background goroutine

---
 iteration.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/iteration.go b/iteration.go
index ca182a1..c9da628 100644
--- a/iteration.go
+++ b/iteration.go
@@ -80,15 +80,15 @@ func (v *V) RangeObjectsBySetSequence(callback func(k string, v *V) bool) {
 func (v *V) IterObjects() <-chan *ObjectIter {
 	ch := make(chan *ObjectIter, len(v.children.object))
 
-	go func() {
-		for k, c := range v.children.object {
-			ch <- &ObjectIter{
-				K: k,
-				V: c.v,
-			}
+	// the channel buffer is large enough. Reading children in another goroutine is
+	// unsafe, because the caller may modify the object while iterating.
+	for k, c := range v.children.object {
+		ch <- &ObjectIter{
+			K: k,
+			V: c.v,
 		}
-		close(ch)
-	}()
+	}
+	close(ch)
 	return ch
 }
 
@@ -129,15 +129,15 @@ func (v *V) RangeArray(callback func(i int, v *V) bool) {
 func (v *V) IterArray() <-chan *ArrayIter {
 	c := make(chan *ArrayIter, len(v.children.arr))
 
-	go func() {
-		for i, child := range v.children.arr {
-			c <- &ArrayIter{
-				I: i,
-				V: child,
-			}
+	// the channel buffer is large enough. Reading children in another goroutine is
+	// unsafe, because the caller may modify the array while iterating.
+	for i, child := range v.children.arr {
+		c <- &ArrayIter{
+			I: i,
+			V: child,
 		}
-		close(c)
-	}()
+	}
+	close(c)
 	return c
 }
 
-- 
2.43.0


From 3ca7b2e30cb16e41f9310dcb05b5857617519b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:25 +0000
Subject: [PATCH 23/33] fix: empty object keys in a KeyPath are no longer
 reported as array indexes

---
 sort.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sort.go b/sort.go
index e51cd28..1ae17c2 100644
--- a/sort.go
+++ b/sort.go
@@ -72,6 +72,8 @@ func (v *sortArrayV) Swap(i, j int) {
 type Key struct {
 	s string
 	i int
+
+	isString bool // an object key may be an empty string
 }
 
 func intKey(i int) Key {
@@ -79,14 +81,14 @@ func intKey(i int) Key {
 }
 
 func stringKey(s string) Key {
-	return Key{s: s}
+	return Key{s: s, isString: true}
 }
 
 // String returns string value of a key
 //
 // String 返回当前键值对的键的描述
 func (k *Key) String() string {
-	if k.s != "" {
+	if k.isString {
 		return k.s
 	}
 	return strconv.Itoa(k.i)
@@ -96,14 +98,14 @@ func (k *Key) String() string {
 //
 // IsString 判断当前的键是不是一个 string 类型，如果是的话，那么它是一个 object JSON 的子成员。
 func (k *Key) IsString() bool {
-	return k.s != ""
+	return k.isString
 }
 
 // Int returns int value of a key.
 //
 // Int 返回当前键值对的 int 值。
 func (k *Key) Int() int {
-	if k.s == "" {
+	if !k.isString {
 		return k.i
 	}
 	return 0
@@ -113,7 +115,7 @@ func (k *Key) Int() int {
 //
 // IsInt 判断当前的键是不是一个整型类型，如果是的话，那么它是一个 array JSON 的子成员。
 func (k *Key) IsInt() bool {
-	return k.s == ""
+	return !k.isString
 }
 
 // KeyPath identifies a full path of keys of object in jsonvalue.
-- 
2.43.0


From 3fe8b75b84db19b20e30ab3169ede7df09070a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:00 +0000
Subject: [PATCH 24/33] fix: bound the nesting depth of texts to parse, instead
 of dying of stack overflow

---
 unmarshal.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index a942f46..89059fc 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -11,6 +11,10 @@ import (
 
 // ================ OUTER UNMARSHAL ================
 
+// maxNestingDepth prevents a hostile text from exhausting the goroutine stack, which is not
+// recoverable. encoding/json does the same with a limit of 10000.
+const maxNestingDepth = 100000
+
 // unmarshalWithIter parse bytes with unknown value type.
 func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 	end := len(it)
@@ -22,10 +26,10 @@ func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 	chr := it[offset]
 	switch chr {
 	case '{':
-		v, offset, err = unmarshalObjectWithIterUnknownEnd(p, it, offset, end)
+		v, offset, err = unmarshalObjectWithIterUnknownEnd(p, it, offset, end, 1)
 
 	case '[':
-		v, offset, err = unmarshalArrayWithIterUnknownEnd(p, it, offset, end)
+		v, offset, err = unmarshalArrayWithIterUnknownEnd(p, it, offset, end, 1)
 
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '-':
 		var n *V
@@ -78,7 +82,11 @@ func unmarshalWithIter(p pool, it iter, offset int) (v *V, err error) {
 
 // unmarshalArrayWithIterUnknownEnd is similar with unmarshalArrayWithIter, though should start with '[',
 // but it does not known where its ']' is
-func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V, end int, err error) {
+func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right, depth int) (_ *V, end int, err error) {
+	if depth > maxNestingDepth {
+		return nil, -1, fmt.Errorf("%w, exceeded max nesting depth", ErrRawBytesUnrecognized)
+	}
+
 	offset++
 	arr := newArray(p)
 
@@ -101,7 +109,7 @@ func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V,
 			offset++
 
 		case '{':
-			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -109,7 +117,7 @@ func unmarshalArrayWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V,
 			offset = sectEnd
 
 		case '[':
-			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -174,7 +182,11 @@ func appendToArr(v *V, child *V) {
 }
 
 // unmarshalObjectWithIterUnknownEnd unmarshal object from raw bytes. it[offset] must be '{'
-func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V, end int, err error) {
+func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right, depth int) (_ *V, end int, err error) {
+	if depth > maxNestingDepth {
+		return nil, -1, fmt.Errorf("%w, exceeded max nesting depth", ErrRawBytesUnrecognized)
+	}
+
 	offset++
 	obj := newObject(p)
 
@@ -244,7 +256,7 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 			if err = keyNotFoundErr(); err != nil {
 				return nil, -1, err
 			}
-			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalObjectWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
@@ -256,7 +268,7 @@ func unmarshalObjectWithIterUnknownEnd(p pool, it iter, offset, right int) (_ *V
 			if err = keyNotFoundErr(); err != nil {
 				return nil, -1, err
 			}
-			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right)
+			v, sectEnd, err := unmarshalArrayWithIterUnknownEnd(p, it, offset, right, depth+1)
 			if err != nil {
 				return nil, -1, err
 			}
-- 
2.43.0


From 08eaea6d588463362ee6059bdae54bdf78027afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:46 +0000
Subject: [PATCH 25/33] fix: numbers whose integer part is a multiple of 2^64
 are not leading-zero numbers

---
 unmarshal.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 89059fc..62501e9 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -725,20 +725,10 @@ func (it iter) parseNumber(
 			edgeFound = true
 
 		case '0':
-			if idx == offset {
-				// OK
-			} else if exponentGot {
-				// OK
-			} else if dotGot {
+			// unnecessary leading zeros are checked below. Do not depend on integer here, it
+			// may wrap around to zero with a long integer part.
+			if dotGot && !exponentGot {
 				intAfterDotGot = true
-			} else if negative {
-				if integer == 0 && idx != offset+1 {
-					err = it.numErrorf(idx, "unexpected zero")
-					return
-				}
-			} else if integer == 0 {
-				err = it.numErrorf(idx, "unexpected zero")
-				return
 			}
 			integer *= 10
 
-- 
2.43.0


From 0648ecfbddb8c1cf15f1803ba90edd584c0510be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:12 +0000
Subject: [PATCH 26/33] fix: escape the vertical tab (0x0B): it was written
 raw, which is not valid JSON

---
 option.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/option.go b/option.go
index 86ca7ee..52bafc4 100644
--- a/option.go
+++ b/option.go
@@ -579,6 +579,7 @@ func (o *Opt) parseEscapingFuncs() {
 	// ASCII control bytes should always escaped
 	iterate(0x00, 0x07, escAsciiControlChar)
 	// 0x08 is \b, encoding/json marshal as \u0008, but according to JSON standard, it should be "\b"
+	iterate(0x0B, 0x0B, escAsciiControlChar) // 0x0B, the vertical tab, has no short escape in JSON
 	iterate(0x0E, 0x1F, escAsciiControlChar)
 	o.asciiCharEscapingFunc[0x7F] = escAsciiControlChar // encoding/json does not escape DEL
 
-- 
2.43.0


From 73e214f46b230208c79c83d998ae8795798baa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:41 +0000
Subject: [PATCH 27/33] fix: report an error when importing a cyclic value
 instead of overflowing the stack

---
 import_export.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/import_export.go b/import_export.go
index ef1ac88..718e894 100644
--- a/import_export.go
+++ b/import_export.go
@@ -52,6 +52,41 @@ type ext struct {
 
 	// extended jsonvalue options
 	ignoreOmitempty bool
+
+	// detect cyclic references in the source, as encoding/json does
+	level int
+	seen  map[visit]struct{}
+}
+
+// visit identifies a pointer, map or slice which is being imported
+type visit struct {
+	typ reflect.Type
+	ptr uintptr
+	le  int
+}
+
+// startDetectCyclesAfter is the nesting level of pointers, maps and slices from which cycles are looked for
+const startDetectCyclesAfter = 1000
+
+// enter should be called before going into the content of a non-nil pointer, map or slice. Please call leave
+// afterwards.
+func (e ext) enter(v reflect.Value) (next ext, leave func(), err error) {
+	e.level++
+	if e.level <= startDetectCyclesAfter {
+		return e, func() {}, nil
+	}
+	if e.seen == nil {
+		e.seen = make(map[visit]struct{})
+	}
+	key := visit{typ: v.Type(), ptr: v.Pointer()}
+	if v.Kind() == reflect.Slice {
+		key.le = v.Len()
+	}
+	if _, exist := e.seen[key]; exist {
+		return e, nil, fmt.Errorf("jsonvalue: encountered a cycle via %v", v.Type())
+	}
+	e.seen[key] = struct{}{}
+	return e, func() { delete(e.seen, key) }, nil
 }
 
 func (e ext) shouldOmitEmpty() bool {
@@ -363,6 +398,11 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 
 	// omitempty is for the map itself, not for its values
 	ex.omitempty = false
+	ex, leave, err := ex.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
 	res := NewObject()
 
 	for _, kk := range keys {
@@ -406,6 +446,11 @@ func parsePtrValue(v reflect.Value, ex ext) (*V, error) {
 
 	// omitempty is for the pointer itself, not for what it points to
 	ex.omitempty = false
+	ex, leave, err := ex.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
 	v, fu, err := validateValAndReturnParser(v.Elem(), ex)
 	if err != nil {
 		return nil, err
@@ -422,6 +467,11 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 		return NewArray(), nil
 	}
 
+	ex, leave, err := ex.enter(v)
+	if err != nil {
+		return nil, err
+	}
+	defer leave()
 	return parseArrayValue(v, ex)
 }
 
@@ -570,6 +620,8 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	if tg == "" {
 		return ft.Name, ext{
 			ignoreOmitempty: parentEx.ignoreOmitempty,
+			level:           parentEx.level,
+			seen:            parentEx.seen,
 		}
 	}
 
@@ -590,6 +642,8 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 		field = ft.Name
 	}
 	ex.ignoreOmitempty = parentEx.ignoreOmitempty
+	ex.level = parentEx.level
+	ex.seen = parentEx.seen
 	return
 }
 
-- 
2.43.0


From 9fa04c156bcd9bd4af4448a1ea2cae2c42fca369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:40 +0000
Subject: [PATCH 28/33] fix: report an error instead of an empty string when
 importing NaN or Inf with a string tag

---
 import_export.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/import_export.go b/import_export.go
index 718e894..2bb338e 100644
--- a/import_export.go
+++ b/import_export.go
@@ -344,8 +344,11 @@ func parseFloat64Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f64 := NewFloat64(f)
-		return NewString(f64.MustMarshalString()), nil
+		s, err := NewFloat64(f).MarshalString()
+		if err != nil {
+			return nil, err
+		}
+		return NewString(s), nil
 	}
 	return NewFloat64(f), nil
 }
@@ -356,8 +359,11 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 		return nil, nil
 	}
 	if ex.toString {
-		f32 := NewFloat32(float32(f))
-		return NewString(f32.MustMarshalString()), nil
+		s, err := NewFloat32(float32(f)).MarshalString()
+		if err != nil {
+			return nil, err
+		}
+		return NewString(s), nil
 	}
 	return NewFloat32(float32(f)), nil
 }
-- 
2.43.0


From 22a8260f00ee4fb8d08ba5421f26cd256fa9a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:34 +0000
Subject: [PATCH 29/33] fix: import embedded fields as encoding/json does:
 tagged ones, non-structs, nil pointers and hidden names

---
 import_export.go | 200 +++++++++++++++++++++++------------------------
 1 file changed, 98 insertions(+), 102 deletions(-)

diff --git a/import_export.go b/import_export.go
index 2bb338e..b2907a2 100644
--- a/import_export.go
+++ b/import_export.go
@@ -47,9 +47,6 @@ type ext struct {
 	omitempty bool
 	toString  bool
 
-	// revert of isExported
-	private bool
-
 	// extended jsonvalue options
 	ignoreOmitempty bool
 
@@ -93,7 +90,7 @@ func (e ext) shouldOmitEmpty() bool {
 	if e.ignoreOmitempty {
 		return false
 	}
-	return e.omitempty || e.private
+	return e.omitempty
 }
 
 // validateValAndReturnParser 检查入参合法性并返回相应的处理函数
@@ -500,124 +497,136 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseStructValue(v reflect.Value, ex ext) (*V, error) {
-	t := v.Type()
-	numField := t.NumField()
-
 	res := NewObject()
 
-	for i := 0; i < numField; i++ {
-		vv := v.Field(i)
-		tt := t.Field(i)
-
-		keys, children, err := parseStructFieldValue(vv, tt, ex)
+	for _, f := range dominantFields(structFields(v.Type(), nil, nil)) {
+		fv, ok := fieldByIndex(v, f.index)
+		if !ok {
+			continue
+		}
+		child, err := parseStructFieldValue(fv, f, ex)
 		if err != nil {
 			return nil, err
 		}
-
-		for i, k := range keys {
-			v := children[i]
-			res.MustSet(v).At(k)
+		if child != nil {
+			res.MustSet(child).At(f.name)
 		}
 	}
 
 	return res, nil
 }
 
-func parseNullValue(_ reflect.Value, ex ext) (*V, error) {
-	if ex.shouldOmitEmpty() {
-		return nil, nil
-	}
-	return NewNull(), nil
+// structField is a field of a struct, or of one of the structs embedded in it
+type structField struct {
+	reflect.StructField
+	name   string
+	tagged bool
+	index  []int
 }
 
-func parseStructFieldValue(
-	fv reflect.Value, ft reflect.StructField, parentEx ext,
-) (keys []string, children []*V, err error) {
-
-	if ft.Anonymous {
-		return parseStructAnonymousFieldValue(fv, ft, parentEx)
+// structFields lists the fields of a struct in order, with those of embedded structs in their place
+func structFields(t reflect.Type, index []int, path []reflect.Type) (fields []structField) {
+	for _, p := range path {
+		if p == t {
+			return nil // all its fields are hidden by those of the outer one
+		}
 	}
+	path = append(path, t)
 
-	if !fv.CanInterface() {
-		return
-	}
+	for i := 0; i < t.NumField(); i++ {
+		ft := t.Field(i)
+		exported := ft.PkgPath == ""
+		elem := ft.Type
+		if elem.Kind() == reflect.Ptr {
+			elem = elem.Elem()
+		}
+		embedded := ft.Anonymous && elem.Kind() == reflect.Struct
+		if !exported && !embedded {
+			continue
+		}
 
-	fieldName, ex := readFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
-		return
-	}
+		name, _ := readFieldTag(ft, "json", ext{})
+		if name == "-" {
+			continue
+		}
+		tagged := strings.TrimSpace(strings.Split(ft.Tag.Get("json"), ",")[0]) != ""
 
-	if fv.Kind() == reflect.Interface && !fv.IsNil() {
-		// omitempty is for the interface itself, not for what it holds
-		ex.omitempty = false
+		idx := append(append([]int{}, index...), i)
+		if embedded && !tagged {
+			fields = append(fields, structFields(elem, idx, path)...)
+			continue
+		}
+		fields = append(fields, structField{StructField: ft, name: name, tagged: tagged, index: idx})
+	}
+
+	return fields
+}
+
+// dominantFields drops the fields which are hidden by others with the same name, by the rules of encoding/json: the
+// least nested ones hide the others, then the tagged ones do, and then there should be only one left.
+func dominantFields(fields []structField) (res []structField) {
+	best := make(map[string]int, len(fields)) // index of the best field so far, for each name
+	tied := make(map[string]bool)
+	for i, f := range fields {
+		j, exist := best[f.name]
+		switch {
+		case !exist, len(f.index) < len(fields[j].index):
+			best[f.name], tied[f.name] = i, false
+		case len(f.index) > len(fields[j].index):
+			// hidden
+		case f.tagged == fields[j].tagged:
+			tied[f.name] = true
+		case f.tagged:
+			best[f.name], tied[f.name] = i, false
+		}
 	}
-
-	fv, fu, err := validateValAndReturnParser(fv, ex)
-	if err != nil {
-		err = fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
-		return
+	for i, f := range fields {
+		if best[f.name] == i && !tied[f.name] {
+			res = append(res, f)
+		}
 	}
+	return res
+}
 
-	child, err := fu(fv, ex)
-	if err != nil {
-		err = fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
-		return
-	}
-	if child != nil {
-		return []string{fieldName}, []*V{child}, nil
+// fieldByIndex is false if the field is in a nil embedded pointer
+func fieldByIndex(v reflect.Value, index []int) (reflect.Value, bool) {
+	for i, x := range index {
+		if i > 0 && v.Kind() == reflect.Ptr {
+			if v.IsNil() {
+				return v, false
+			}
+			v = v.Elem()
+		}
+		v = v.Field(x)
 	}
+	return v, true
+}
 
-	return nil, nil, nil
+func parseNullValue(_ reflect.Value, ex ext) (*V, error) {
+	if ex.shouldOmitEmpty() {
+		return nil, nil
+	}
+	return NewNull(), nil
 }
 
-func parseStructAnonymousFieldValue(
-	fv reflect.Value, ft reflect.StructField, parentEx ext,
-) (keys []string, children []*V, err error) {
+func parseStructFieldValue(fv reflect.Value, f structField, parentEx ext) (child *V, err error) {
+	fieldName, ex := readFieldTag(f.StructField, "json", parentEx)
 
-	fieldName, ex := readAnonymousFieldTag(ft, "json", parentEx)
-	if fieldName == "-" {
-		return nil, nil, nil
-	}
-	if fv.Kind() == reflect.Ptr && fv.IsNil() {
-		if ex.shouldOmitEmpty() {
-			return nil, nil, nil
-		}
-		return []string{fieldName}, []*V{NewNull()}, nil
+	if fv.Kind() == reflect.Interface && !fv.IsNil() {
+		// omitempty is for the interface itself, not for what it holds
+		ex.omitempty = false
 	}
 
 	fv, fu, err := validateValAndReturnParser(fv, ex)
 	if err != nil {
-		err = fmt.Errorf("parsing anonymous field error: %w", err)
-		return
+		return nil, fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
 	}
 
-	child, err := fu(fv, ex)
+	child, err = fu(fv, ex)
 	if err != nil {
-		err = fmt.Errorf("parsing anonymous field error: %w", err)
-		return
-	}
-	if child == nil {
-		return nil, nil, nil
-	}
-
-	switch child.ValueType() {
-	default: // invalid
-		return nil, nil, nil
-
-	case String, Number, Boolean, Null, Array:
-		if ex.private {
-			return nil, nil, nil
-		}
-		return []string{fieldName}, []*V{child}, nil
-
-	case Object:
-		child.RangeObjectsBySetSequence(func(k string, c *V) bool {
-			keys = append(keys, k)
-			children = append(children, c)
-			return true
-		})
-		return
+		return nil, fmt.Errorf("parsing field '%s' error: %w", fieldName, err)
 	}
+	return child, nil
 }
 
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
@@ -652,16 +661,3 @@ func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field stri
 	ex.seen = parentEx.seen
 	return
 }
-
-func readAnonymousFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
-	field, ex = readFieldTag(ft, name, parentEx)
-
-	firstChar := ft.Name[0]
-	if firstChar >= 'A' && firstChar <= 'Z' {
-		ex.private = false
-	} else {
-		ex.private = true
-	}
-
-	return
-}
-- 
2.43.0


From 4c0d070dbd063b0530e25b8ea96f271e23d8df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:13 +0000
Subject: [PATCH 30/33] fix: import struct tags as encoding/json does: the
 string option, the name "-" and spaces

---
 import_export.go | 72 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/import_export.go b/import_export.go
index b2907a2..e00913e 100644
--- a/import_export.go
+++ b/import_export.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // Export convert jsonvalue to another type of parameter. The target parameter type should match the type of *V.
@@ -492,6 +493,13 @@ func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	if str == "" && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
+	if ex.toString {
+		b, err := json.Marshal(str)
+		if err != nil {
+			return nil, err
+		}
+		return NewString(string(b)), nil
+	}
 
 	return NewString(str), nil
 }
@@ -545,11 +553,12 @@ func structFields(t reflect.Type, index []int, path []reflect.Type) (fields []st
 			continue
 		}
 
-		name, _ := readFieldTag(ft, "json", ext{})
-		if name == "-" {
+		tag := ft.Tag.Get("json")
+		if tag == "-" {
 			continue
 		}
-		tagged := strings.TrimSpace(strings.Split(ft.Tag.Get("json"), ",")[0]) != ""
+		name, _ := readFieldTag(ft, "json", ext{})
+		tagged := isValidTagName(strings.Split(tag, ",")[0])
 
 		idx := append(append([]int{}, index...), i)
 		if embedded && !tagged {
@@ -630,34 +639,49 @@ func parseStructFieldValue(fv reflect.Value, f structField, parentEx ext) (child
 }
 
 func readFieldTag(ft reflect.StructField, name string, parentEx ext) (field string, ex ext) {
-	tg := ft.Tag.Get(name)
-
-	if tg == "" {
-		return ft.Name, ext{
-			ignoreOmitempty: parentEx.ignoreOmitempty,
-			level:           parentEx.level,
-			seen:            parentEx.seen,
-		}
-	}
+	ex.ignoreOmitempty = parentEx.ignoreOmitempty
+	ex.level = parentEx.level
+	ex.seen = parentEx.seen
 
+	tg := ft.Tag.Get(name)
 	parts := strings.Split(tg, ",")
-	for i, s := range parts {
-		parts[i] = strings.TrimSpace(s)
-		if i > 0 {
-			if s == "omitempty" {
-				ex.omitempty = true
-			} else if s == "string" {
-				ex.toString = true
-			}
+	for _, s := range parts[1:] {
+		if s == "omitempty" {
+			ex.omitempty = true
+		} else if s == "string" {
+			ex.toString = isStringTagAvailable(ft.Type)
 		}
 	}
 
 	field = parts[0]
-	if field == "" {
+	if !isValidTagName(field) {
 		field = ft.Name
 	}
-	ex.ignoreOmitempty = parentEx.ignoreOmitempty
-	ex.level = parentEx.level
-	ex.seen = parentEx.seen
 	return
 }
+
+// isStringTagAvailable tells whether the "string" option takes effect, which is only for strings, floats, integers
+// and booleans, and pointers to them.
+func isStringTagAvailable(t reflect.Type) bool {
+	if t.Name() == "" && t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	switch t.Kind() {
+	default:
+		return false
+	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
+		reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8,
+		reflect.Uintptr, reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
+		return true
+	}
+}
+
+// isValidTagName follows the rule of encoding/json, which ignores other names
+func isValidTagName(s string) bool {
+	for _, c := range s {
+		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) {
+			return false
+		}
+	}
+	return s != ""
+}
-- 
2.43.0


From e7a62726b2608b9e0f45ef021d7af818e51bc0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 31/33] fix: import json.Number, named bytes, empty arrays and
 maps with text keys as encoding/json does

---
 import_export.go | 80 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 12 deletions(-)

diff --git a/import_export.go b/import_export.go
index e00913e..3e92e23 100644
--- a/import_export.go
+++ b/import_export.go
@@ -140,6 +140,10 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		return validateValAndReturnParser(v.Elem(), ex)
 
 	case reflect.Map:
+		if kt := v.Type().Key(); kt.Kind() != reflect.String && kt.Implements(internal.types.TextMarshaler) {
+			fu = parseTextMapValue
+			break
+		}
 		switch v.Type().Key().Kind() {
 		default:
 			err = fmt.Errorf("unsupported key type for a map: %v", v.Type().Key())
@@ -155,14 +159,18 @@ func validateValAndReturnParser(v reflect.Value, ex ext) (out reflect.Value, fu
 		fu = parsePtrValue
 
 	case reflect.Slice:
-		if v.Type() == reflect.TypeOf([]byte{}) {
+		if isBytes(v.Type()) {
 			fu = parseBytesValue
 		} else {
 			fu = parseSliceValue
 		}
 
 	case reflect.String:
-		fu = parseStringValue
+		if v.Type() == reflect.TypeOf(json.Number("")) {
+			fu = parseJSONNumberValue
+		} else {
+			fu = parseStringValue
+		}
 
 	case reflect.Struct:
 		fu = parseStructValue
@@ -367,9 +375,12 @@ func parseFloat32Value(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
+	le := v.Len()
+	if le == 0 && ex.shouldOmitEmpty() {
+		return nil, nil
+	}
 	ex.omitempty = false
 	res := NewArray()
-	le := v.Len()
 
 	for i := 0; i < le; i++ {
 		vv := v.Index(i)
@@ -387,7 +398,7 @@ func parseArrayValue(v reflect.Value, ex ext) (*V, error) {
 	return res, nil
 }
 
-func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) string) (*V, error) {
+func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) (string, error)) (*V, error) {
 	if v.IsNil() {
 		return parseNullValue(v, ex)
 	}
@@ -419,27 +430,45 @@ func parseMapValue(v reflect.Value, ex ext, keyFunc func(key reflect.Value) stri
 		if err != nil {
 			return res, err
 		}
-		res.MustSet(child).At(keyFunc(kk))
+		key, err := keyFunc(kk)
+		if err != nil {
+			return res, err
+		}
+		res.MustSet(child).At(key)
 	}
 
 	return res, nil
 }
 
 func parseStringMapValue(v reflect.Value, ex ext) (*V, error) {
-	return parseMapValue(v, ex, func(k reflect.Value) string {
-		return k.String()
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		return k.String(), nil
 	})
 }
 
 func parseIntMapValue(v reflect.Value, ex ext) (*V, error) {
-	return parseMapValue(v, ex, func(k reflect.Value) string {
-		return strconv.FormatInt(k.Int(), 10)
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		return strconv.FormatInt(k.Int(), 10), nil
 	})
 }
 
 func parseUintMapValue(v reflect.Value, ex ext) (*V, error) {
-	return parseMapValue(v, ex, func(k reflect.Value) string {
-		return strconv.FormatUint(k.Uint(), 10)
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		return strconv.FormatUint(k.Uint(), 10), nil
+	})
+}
+
+func parseTextMapValue(v reflect.Value, ex ext) (*V, error) {
+	return parseMapValue(v, ex, func(k reflect.Value) (string, error) {
+		if k.Kind() == reflect.Ptr && k.IsNil() {
+			return "", nil
+		}
+		m, _ := k.Interface().(encoding.TextMarshaler)
+		if m == nil {
+			return "", nil
+		}
+		b, err := m.MarshalText()
+		return string(b), err
 	})
 }
 
@@ -480,7 +509,7 @@ func parseSliceValue(v reflect.Value, ex ext) (*V, error) {
 }
 
 func parseBytesValue(v reflect.Value, ex ext) (*V, error) {
-	b := v.Interface().([]byte)
+	b := v.Bytes()
 	if len(b) == 0 && ex.shouldOmitEmpty() {
 		return nil, nil
 	}
@@ -488,6 +517,33 @@ func parseBytesValue(v reflect.Value, ex ext) (*V, error) {
 	return NewBytes(b), nil
 }
 
+// isBytes tells whether a slice type is of bytes, which encoding/json encodes in base64
+func isBytes(t reflect.Type) bool {
+	if t.Elem().Kind() != reflect.Uint8 {
+		return false
+	}
+	p := reflect.PtrTo(t.Elem())
+	return !p.Implements(internal.types.JSONMarshaler) && !p.Implements(internal.types.TextMarshaler)
+}
+
+func parseJSONNumberValue(v reflect.Value, ex ext) (*V, error) {
+	s := v.String()
+	if s == "" {
+		if ex.shouldOmitEmpty() {
+			return nil, nil
+		}
+		s = "0"
+	}
+	res, err := UnmarshalString(s)
+	if err != nil || res.ValueType() != Number || strings.TrimSpace(s) != s {
+		return nil, fmt.Errorf("invalid number literal %q", s)
+	}
+	if ex.toString {
+		return NewString(s), nil
+	}
+	return res, nil
+}
+
 func parseStringValue(v reflect.Value, ex ext) (*V, error) {
 	str := v.String()
 	if str == "" && ex.shouldOmitEmpty() {
-- 
2.43.0


From b94446eedd64d3a27d040de05417ad9bf56905f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 32/33] fix: compare numbers with huge exponents by their exact
 value and without writing them out

---
 compare.go | 66 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 59 insertions(+), 7 deletions(-)

diff --git a/compare.go b/compare.go
index 1c45a35..8756f9e 100644
--- a/compare.go
+++ b/compare.go
@@ -3,6 +3,8 @@ package jsonvalue
 import (
 	"bytes"
 	"math"
+	"math/big"
+	"strings"
 
 	"github.com/shopspring/decimal"
 )
@@ -52,9 +54,7 @@ func greaterThan(left, right *V) (result, ok bool) {
 	if isNonFinite(left) || isNonFinite(right) {
 		return left.num.f64 > right.num.f64, !isNaN(left) && !isNaN(right)
 	}
-	a1, _ := decimal.NewFromString(string(left.srcByte))
-	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThan(a2), true
+	return compareFinite(left, right) > 0, true
 }
 
 func greaterOrEqualThan(left, right *V) (result, ok bool) {
@@ -67,9 +67,7 @@ func greaterOrEqualThan(left, right *V) (result, ok bool) {
 	if bytes.Equal(left.srcByte, right.srcByte) {
 		return true, true
 	}
-	a1, _ := decimal.NewFromString(string(left.srcByte))
-	a2, _ := decimal.NewFromString(string(right.srcByte))
-	return a1.GreaterThanOrEqual(a2), true
+	return compareFinite(left, right) >= 0, true
 }
 
 // Equal shows whether the content of two JSON values equal to each other.
@@ -118,9 +116,63 @@ func numberEqual(left, right *V) bool {
 		return true
 	}
 
+	return compareFinite(left, right) == 0
+}
+
+// compareFinite compares two finite numbers by their exact values.
+func compareFinite(left, right *V) int {
+	if hasLongExponent(left.srcByte) || hasLongExponent(right.srcByte) {
+		return compareScientific(string(left.srcByte), string(right.srcByte))
+	}
 	d1, _ := decimal.NewFromString(string(left.srcByte))
 	d2, _ := decimal.NewFromString(string(right.srcByte))
-	return d1.Equal(d2)
+	return d1.Cmp(d2)
+}
+
+// hasLongExponent tells whether the exponent may be too large for decimal, which writes the digits of both numbers out
+// in order to compare them, and supports exponents of 32 bits only. A text like 1e-2000000000 is a valid number.
+func hasLongExponent(b []byte) bool {
+	i := bytes.IndexAny(b, "eE")
+	return i >= 0 && len(b)-i > len("e-1000")
+}
+
+// compareScientific compares two numbers without writing them out.
+func compareScientific(left, right string) int {
+	sign1, digits1, exp1 := splitNumber(left)
+	sign2, digits2, exp2 := splitNumber(right)
+	if sign1 != sign2 {
+		if sign1 < sign2 {
+			return -1
+		}
+		return 1
+	}
+	if c := exp1.Cmp(exp2); c != 0 {
+		return c * sign1
+	}
+	return strings.Compare(digits1, digits2) * sign1
+}
+
+// splitNumber gives the sign of a number, which is 0.digits * 10^exp. The digits neither start nor end with zero.
+func splitNumber(s string) (sign int, digits string, exp *big.Int) {
+	sign, exp = 1, &big.Int{}
+	if s[0] == '-' {
+		sign, s = -1, s[1:]
+	}
+	if i := strings.IndexAny(s, "eE"); i >= 0 {
+		exp.SetString(s[i+1:], 10)
+		s = s[:i]
+	}
+	point := len(s)
+	if i := strings.IndexByte(s, '.'); i >= 0 {
+		point, s = i, s[:i]+s[i+1:]
+	}
+	digits = strings.TrimLeft(s, "0")
+	point -= len(s) - len(digits)
+	digits = strings.TrimRight(digits, "0")
+	if digits == "" {
+		return 0, "", &big.Int{}
+	}
+	return sign, digits, exp.Add(exp, big.NewInt(int64(point)))
 }
 
 func objectEqual(left, right *V) bool {
-- 
2.43.0


From 78e01c8f527ba63028a669d21275c6ac01681d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:39 +0000
Subject: [PATCH 33/33] fix: write {} for an object without remaining members
 under OptOmitNull and OptIndent

---
 marshal.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index ccf269b..c76e044 100644
--- a/marshal.go
+++ b/marshal.go
@@ -217,7 +217,7 @@ func marshalNull(buf buffer.Buffer) {
 }
 
 func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (err error) {
-	if len(v.children.object) == 0 {
+	if !hasMemberToWrite(v, opt) {
 		_, _ = buf.WriteString("{}")
 		return nil
 	}
@@ -253,6 +253,16 @@ func marshalObject(v *V, parentInfo *ParentInfo, buf buffer.Buffer, opt *Opt) (e
 	return nil
 }
 
+// hasMemberToWrite tells whether an object has any member that is not omitted
+func hasMemberToWrite(v *V, opt *Opt) bool {
+	for _, child := range v.children.object {
+		if !opt.OmitNull || !child.v.IsNull() {
+			return true
+		}
+	}
+	return false
+}
+
 func writeObjectKVInRandomizedSequence(v *V, buf buffer.Buffer, opt *Opt) (err error) {
 	firstWritten := false
 	for k, child := range v.children.object {
-- 
2.43.0

