From 48dc78d3626856dc309ce4a5eb0c78dc5bb40fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 01/35] fix: do not panic on an empty unquoted value

---
 jsonutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..cb4f20a 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,7 +259,7 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
-	} else if val[0] == '<' && val[len(val)-1] == '>' {
+	} else if len(val) > 0 && val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
 		ival, err := strconv.ParseInt(val, 10, 64)
-- 
2.43.0


From f7edc0120a773d4c7bf1c42d44b7cf489f517492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 02/35] fix: report a bad or duplicate node id as a parse error
 instead of panicking

---
 jsonutils.go     | 11 +++++++++--
 parse_session.go |  7 ++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index cb4f20a..c7d8985 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			idVal, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "Invalid node id")
+			}
+			nodeId = int(idVal.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
@@ -557,7 +561,10 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		this.nodeId = nodeId
 		this.data = smap
 		if this.nodeId > 0 {
-			s.saveNode(nodeId, this)
+			e = s.saveNode(nodeId, this)
+			if e != nil {
+				return i, errors.Wrap(e, "saveNode")
+			}
 		}
 		return i, nil
 	}
diff --git a/parse_session.go b/parse_session.go
index 632dce9..aa34e89 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -15,7 +15,7 @@
 package jsonutils
 
 import (
-	"fmt"
+	"yunion.io/x/pkg/errors"
 )
 
 type sNodeReferer struct {
@@ -43,10 +43,10 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	}
 }
 
-func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
+func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
+			return errors.Wrapf(errors.ErrDuplicateId, "nodeId %d already exists", nodeId)
 		} else {
 			nr.node = node
 		}
@@ -56,4 +56,5 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 			pointers: nil,
 		}
 	}
+	return nil
 }
-- 
2.43.0


From 1c9b26f3ed9584808afac4636688b5fc4e99cfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 03/35] fix: reject truncated dictionaries, arrays and quoted
 strings

---
 jsonutils.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index c7d8985..739fee7 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -167,7 +167,6 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 		runen     int
 		i         = offset
 	)
-ret:
 	for i < len(str) {
 		switch str[i] {
 		case '\\':
@@ -223,14 +222,13 @@ ret:
 				return "", i, NewJSONError(str, i, "Incomplete escape")
 			}
 		case quotec:
-			i++
-			break ret
+			return string(buffer), i + 1, nil
 		default:
 			buffer = append(buffer, str[i])
 			i++
 		}
 	}
-	return string(buffer), i, nil
+	return "", i, NewJSONError(str, i, "Truncated")
 }
 
 func parseString(str []byte, offset int) (string, bool, int, error) {
@@ -498,6 +496,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -552,6 +553,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From 1655af66a8f31d55eee25ac68a7d5324b38d3727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 04/35] fix: decode escaped surrogate pairs as one character

---
 jsonutils.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 739fee7..d98cc43 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -182,9 +183,20 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					i += 4
+					if utf16.IsSurrogate(r) && i+6 < len(str) && str[i] == '\\' && str[i+1] == 'u' {
+						// a surrogate pair denotes a single character
+						r2, e := hexstr2rune(str[i+2 : i+6])
+						if e != nil {
+							return "", i, NewJSONError(str, i, e.Error())
+						}
+						if dec := utf16.DecodeRune(r, r2); dec != utf8.RuneError {
+							r = dec
+							i += 6
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
-					i += 4
 				case 'x':
 					i++
 					if i+2 >= len(str) {
-- 
2.43.0


From f943fea1437b189aabcc3af5f26cc9d64445da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 05/35] fix: escape object keys in PrettyString

---
 jsonutils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index d98cc43..4d97303 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -614,9 +614,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
-- 
2.43.0


From 973385d594c321963018507027167ed60fae1d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 06/35] fix: do not write to a JSONFloat while rendering it

---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From e4e13521e2da8655d6a9e3a8d9b58445037e8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 07/35] fix: fill unsigned integers from booleans and floats
 without panicking

---
 unmarshal.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..f060874 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -182,13 +182,18 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -270,9 +275,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From dfdeb6e6e506492983186eae0daeff85cc9fd5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 08/35] fix: keep the tri-state value set from integers, floats
 and strings

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index f060874..a227182 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -114,6 +114,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -180,6 +181,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		} else {
 			val.Set(tristate.TriStateFalseValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -273,6 +275,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -367,6 +370,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From 3d9e356f404132613d9d480a87769daf2b26439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 09/35] fix: store the content into JSONInt, JSONBool,
 JSONFloat and JSONString destinations

---
 unmarshal.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index a227182..5ab0bbb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -88,6 +88,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -95,6 +96,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -155,6 +157,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -162,6 +165,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -232,6 +236,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONFloatType:
 		json := val.Interface().(JSONFloat)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -239,6 +244,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -253,6 +259,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONIntType:
 		json := val.Interface().(JSONInt)
 		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONIntPtrType:
 		json := val.Interface().(*JSONInt)
@@ -266,6 +273,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	case JSONBoolType:
 		json := val.Interface().(JSONBool)
 		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -317,6 +325,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 	case JSONStringType:
 		json := val.Interface().(JSONString)
 		json.data = this.data
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -342,6 +351,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			json.data = false
 		}
+		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONBoolPtrType:
 		json := val.Interface().(*JSONBool)
@@ -354,6 +364,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		if json == nil {
 			json = &JSONBool{data: data}
+			val.Set(reflect.ValueOf(json))
 		} else {
 			json.data = data
 		}
-- 
2.43.0


From e151b34614ad734c300db038f3cbba8098e2a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 10/35] fix: report an interface that cannot hold a scalar or
 array as a type mismatch

---
 unmarshal.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 5ab0bbb..99951ae 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -79,6 +79,16 @@ func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	return nil
 }
 
+// setInterfaceValue stores data into an interface value that can hold it
+func setInterfaceValue(val reflect.Value, data interface{}) error {
+	dataVal := reflect.ValueOf(data)
+	if !dataVal.Type().AssignableTo(val.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "%s vs. %s", dataVal.Type(), val.Type())
+	}
+	val.Set(dataVal)
+	return nil
+}
+
 func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
@@ -141,7 +151,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
 	}
@@ -220,7 +230,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
 	}
@@ -306,7 +316,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
 	}
@@ -418,7 +428,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	case reflect.Slice:
 		dataLen := 1
 		if val.Cap() < dataLen {
@@ -468,7 +478,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, this.data)
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From 1e1ce5456d34c77f6d741408073ba370ff5b6d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:34 +0000
Subject: [PATCH 11/35] fix: report a node reference of the wrong type as a
 type mismatch

---
 unmarshal.go         |  5 ++++-
 unmarshal_session.go | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 99951ae..e3f2347 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -507,7 +507,10 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	if this.nodeId > 0 && val.CanAddr() {
-		s.saveNodeValue(this.nodeId, val.Addr())
+		err := s.saveNodeValue(this.nodeId, val.Addr())
+		if err != nil {
+			return errors.Wrap(err, "saveNodeValue")
+		}
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 1b5d89c..3357480 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -16,6 +16,8 @@ package jsonutils
 
 import (
 	"reflect"
+
+	"yunion.io/x/pkg/errors"
 )
 
 type sJsonNodeValues struct {
@@ -34,7 +36,7 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 	}
 }
 
-func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
+func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; !ok {
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValue:    val,
@@ -44,15 +46,27 @@ func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
 		nv.nodeValue = val
 		nv.nodeValueSet = true
 		for i := range nv.targetValues {
-			nv.targetValues[i].Set(val)
+			err := setNodeValue(nv.targetValues[i], val)
+			if err != nil {
+				return err
+			}
 		}
 		nv.targetValues = nil
 	}
+	return nil
+}
+
+func setNodeValue(target reflect.Value, val reflect.Value) error {
+	if !val.Type().AssignableTo(target.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "node %s vs. %s", val.Type(), target.Type())
+	}
+	target.Set(val)
+	return nil
 }
 
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
-		val.Set(nv.nodeValue)
+		return setNodeValue(val, nv.nodeValue)
 	} else if ok && !nv.nodeValueSet {
 		nv.targetValues = append(nv.targetValues, val)
 	} else {
-- 
2.43.0


From 70b04606af2668156bcd6cc99bc082e0f603ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 12/35] fix: unmarshal the content of a JSONInt, JSONFloat or
 JSONBool instead of null

---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index e3f2347..a16f677 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -54,6 +54,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From b7786804d563e7e2f5ccefe85cc0dd7ec5598502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 13/35] fix: render the content of scalars and arrays in
 QueryString

---
 querystring.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/querystring.go b/querystring.go
index faded21..ee217ec 100644
--- a/querystring.go
+++ b/querystring.go
@@ -173,6 +173,26 @@ func (this *JSONValue) QueryString() string {
 	return this._queryString("")
 }
 
+func (this *JSONString) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONInt) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONFloat) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONBool) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONArray) QueryString() string {
+	return this._queryString("")
+}
+
 func (this *JSONDict) QueryString() string {
 	return this._queryString("")
 }
-- 
2.43.0


From 0a25cbac5f3adde82ce0155546311580f7f75e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 14/35] fix: accept query keys with non-canonical numbers

---
 stringsegment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringsegment.go b/stringsegment.go
index 78edf2b..9898f86 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -65,7 +65,8 @@ func (tn sTextNumber) String() string {
 
 func string2TextNumber(str string) sTextNumber {
 	num, err := strconv.ParseInt(str, 10, 64)
-	if err != nil {
+	if err != nil || strconv.FormatInt(num, 10) != str {
+		// a non-canonical number is kept as text, so that the segment renders back unchanged
 		return sTextNumber{text: str, isNumber: false}
 	} else {
 		return sTextNumber{number: num, isNumber: true}
-- 
2.43.0


From 376e2fcd12c6f6028576c3cb99922679875d36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 15/35] fix: report conflicting query parameters instead of
 dropping them

---
 querystring.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/querystring.go b/querystring.go
index ee217ec..94c5508 100644
--- a/querystring.go
+++ b/querystring.go
@@ -27,6 +27,9 @@ import (
 
 func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONObject, error) {
 	if len(segs) == 0 {
+		if body != nil {
+			return nil, errors.Wrapf(ErrTypeMismatch, "conflict with existing value %s", body)
+		}
 		if len(val) == 1 {
 			return NewString(val[0]), nil
 		} else if len(val) > 1 {
@@ -55,10 +58,16 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsondict %s with %s fail", body, key)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", body, key)
+			}
 		}
 		return jbody, nil
 	case *JSONArray:
+		if !segs[0].isNumber || segs[0].number < 0 {
+			return nil, errors.Wrapf(ErrTypeMismatch, "invalid array index %s", segs[0].String())
+		}
 		index := segs[0].number
 		arrSize := int64(jbody.Size())
 		if index < arrSize {
@@ -66,7 +75,10 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsonarray %s at %d fail", body, index)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s at %d fail", body, index)
+			}
 		} else if arrSize == index {
 			// new
 			next, err := addQueryStringSeg(nil, segs[1:], val)
-- 
2.43.0


From 9b5252cd27b9e6570b20abdc030f9489beb501bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 16/35] fix: stop following deprecated-by tags that form a
 cycle elsewhere

---
 marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..6a5a332 100644
--- a/marshal.go
+++ b/marshal.go
@@ -141,9 +141,11 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 	depPairs := make([]JSONPair, 0, len(depFields))
 	for depKey, key := range depFields {
 		findLoop := false
+		visited := map[string]bool{depKey: true}
 		for {
 			if okey, ok := depFields[key]; ok {
-				if okey == depKey {
+				visited[key] = true
+				if visited[okey] {
 					// loop detected
 					findLoop = true
 					break
-- 
2.43.0


From f1a1d4ac1e6f26160c1ca0c52e05789552688d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 17/35] fix: marshal named boolean types

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 6a5a332..9a03f52 100644
--- a/marshal.go
+++ b/marshal.go
@@ -388,7 +388,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From ae92c9e799e02f25ec9f29c2db88f6dd2e80a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 18/35] fix: keep node ids and node references in deep copies

---
 clone.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index f92cfc3..57b205f 100644
--- a/clone.go
+++ b/clone.go
@@ -82,6 +82,19 @@ func (this *JSONDict) DeepCopy() interface{} {
 }
 
 func DeepCopy(obj JSONObject) JSONObject {
+	nodes := make(map[JSONObject]JSONObject)
+	pointers := make([]*sJSONPointer, 0)
+	objC := deepCopy(obj, nodes, &pointers)
+	for _, ptr := range pointers {
+		// references to a copied node refer to its copy
+		if node, ok := nodes[ptr.node]; ok {
+			ptr.node = node
+		}
+	}
+	return objC
+}
+
+func deepCopy(obj JSONObject, nodes map[JSONObject]JSONObject, pointers *[]*sJSONPointer) JSONObject {
 	if obj == nil || reflect.ValueOf(obj).IsNil() {
 		return nil
 	}
@@ -102,22 +115,28 @@ func DeepCopy(obj JSONObject) JSONObject {
 		elemsC := make([]JSONObject, v.Length())
 		for i := 0; i < v.Length(); i++ {
 			elem, _ := v.GetAt(i)
-			elemC := DeepCopy(elem)
+			elemC := deepCopy(elem, nodes, pointers)
 			elemsC[i] = elemC
 		}
 		vc := NewArray(elemsC...)
 		return vc
 	case *JSONDict:
 		vc := NewDict()
+		vc.nodeId = v.nodeId
+		nodes[v] = vc
 		m, _ := v.GetMap()
 		for mk, mv := range m {
-			mvc := DeepCopy(mv)
+			mvc := deepCopy(mv, nodes, pointers)
 			vc.Set(mk, mvc)
 		}
 		return vc
 	case *JSONValue:
 		vc := *v
 		return &vc
+	case *sJSONPointer:
+		vc := *v
+		*pointers = append(*pointers, &vc)
+		return &vc
 	}
 	return nil
 }
-- 
2.43.0


From 83ca216abbd957613b7cb3d6d41d93653a852d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 19/35] fix: report an error when a dictionary is read as a
 number or boolean instead of recursing forever

---
 access.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/access.go b/access.go
index 7d687d3..4db6cc6 100644
--- a/access.go
+++ b/access.go
@@ -384,6 +384,9 @@ func (this *JSONDict) Int(keys ...string) (int64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonInt
+	}
 	return obj.Int()
 	/* jint, ok := obj.(*JSONInt)
 	   if ! ok {
@@ -430,6 +433,9 @@ func (this *JSONDict) Float(keys ...string) (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return 0, ErrInvalidJsonFloat
+	}
 	return obj.Float()
 	/* jfloat, ok := obj.(*JSONFloat)
 	   if ! ok {
@@ -470,6 +476,9 @@ func (this *JSONDict) Bool(keys ...string) (bool, error) {
 	if err != nil {
 		return false, errors.Wrap(err, "Get")
 	}
+	if _, ok := obj.(*JSONDict); ok {
+		return false, ErrInvalidJsonBoolean
+	}
 	return obj.Bool()
 	/* jbool, ok := obj.(*JSONBool)
 	   if ! ok {
-- 
2.43.0


From 38c74b285dd214078ceeabe2c8319af77089513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 20/35] fix: read array indices of query keys in order whatever
 their depth

---
 stringsegment.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/stringsegment.go b/stringsegment.go
index 9898f86..0c4aa7a 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -95,12 +95,7 @@ type sStringSegments [][]sTextNumber
 func (ss sStringSegments) Len() int      { return len(ss) }
 func (ss sStringSegments) Swap(i, j int) { ss[i], ss[j] = ss[j], ss[i] }
 func (ss sStringSegments) Less(i, j int) bool {
-	if len(ss[i]) < len(ss[j]) {
-		return true
-	} else if len(ss[i]) > len(ss[j]) {
-		return false
-	}
-	for ii := range ss[i] {
+	for ii := 0; ii < len(ss[i]) && ii < len(ss[j]); ii++ {
 		ret := ss[i][ii].compare(ss[j][ii])
 		if ret < 0 {
 			return true
@@ -108,7 +103,7 @@ func (ss sStringSegments) Less(i, j int) bool {
 			return false
 		}
 	}
-	return false
+	return len(ss[i]) < len(ss[j])
 }
 
 func strings2stringSegments(strs []string) sStringSegments {
-- 
2.43.0


From 81e6a311c247b060fbd02b0f674e3450e86a9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 21/35] fix: keep all digits of a float that is converted to a
 string

---
 marshal.go   | 4 ++--
 unmarshal.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/marshal.go b/marshal.go
index 9a03f52..0ee98a0 100644
--- a/marshal.go
+++ b/marshal.go
@@ -182,7 +182,7 @@ func marshalFloat64(val float64, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat64(val).String())
 	} else {
 		return NewFloat64(val)
 	}
@@ -192,7 +192,7 @@ func marshalFloat32(val float32, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat32(val).String())
 	} else {
 		return NewFloat32(val)
 	}
diff --git a/unmarshal.go b/unmarshal.go
index a16f677..c7b5f3d 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -265,12 +265,12 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		return nil
 	case JSONStringType:
 		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%f", this.data)
+		json.data = this.String()
 		val.Set(reflect.ValueOf(json))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%f", this.data)
+		data := this.String()
 		if json == nil {
 			json = NewString(data)
 			val.Set(reflect.ValueOf(json))
@@ -321,7 +321,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			val.SetBool(true)
 		}
 	case reflect.String:
-		val.SetString(fmt.Sprintf("%f", this.data))
+		val.SetString(this.String())
 	case reflect.Ptr:
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
-- 
2.43.0


From 918095dcd3a35e7113bb8051d5dfb5309fba3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:14 +0000
Subject: [PATCH 22/35] fix: marshal and unmarshal pointers to times the way
 times are

---
 std_json.go  | 2 +-
 unmarshal.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/std_json.go b/std_json.go
index f70091d..861cb95 100644
--- a/std_json.go
+++ b/std_json.go
@@ -105,7 +105,7 @@ func indirectStdMarshaler(v reflect.Value) json.Marshaler {
 }
 
 func tryStdMarshal(v reflect.Value, marshalFunc func(v reflect.Value) JSONObject) JSONObject {
-	if v.Type() != gotypes.TimeType {
+	if v.Type() != gotypes.TimeType && v.Type() != reflect.PtrTo(gotypes.TimeType) {
 		m := IsImplementStdMarshaler(v)
 		if m != nil {
 			data, err := m.MarshalJSON()
diff --git a/unmarshal.go b/unmarshal.go
index c7b5f3d..8850295 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -339,6 +339,10 @@ func (this *JSONString) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 	if val.Type() == gotypes.TimeType {
 		return this._unmarshalValue(s, val)
 	}
+	if len(this.data) == 0 && val.Type() == reflect.PtrTo(gotypes.TimeType) {
+		// the zero time
+		return this._unmarshalValue(s, val)
+	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
 
-- 
2.43.0


From 26cdae8e1b232f59775124cdbbc1cd8a048ead59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:31 +0000
Subject: [PATCH 23/35] fix: keep the position of slice elements that marshal
 to nothing

---
 marshal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 0ee98a0..3e96f24 100644
--- a/marshal.go
+++ b/marshal.go
@@ -48,9 +48,11 @@ func (s *sJsonMarshalSession) marshalSlice(val reflect.Value, info *reflectutils
 	objs := make([]JSONObject, 0)
 	for i := 0; i < val.Len(); i += 1 {
 		val := s.marshalValue(val.Index(i), nil, omitEmpty)
-		if val != nil {
-			objs = append(objs, val)
+		if val == nil {
+			// keep the position of the other elements
+			val = JSONNull
 		}
+		objs = append(objs, val)
 	}
 	arr := NewArray(objs...)
 	if info != nil && info.ForceString {
-- 
2.43.0


From 026d04b3f3783dbb047cf807418bfbcc9b4dbe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 24/35] fix: do not call the callback of an unexported embedded
 struct through reflection

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 8850295..8f38bb1 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -693,6 +693,10 @@ func callStructAfterUnmarshal(val reflect.Value) {
 			}
 		}
 		valPtr := val.Addr()
+		if !valPtr.CanInterface() {
+			// methods of an unexported embedded struct cannot be called
+			return
+		}
 		afterMarshalFunc := valPtr.MethodByName("AfterUnmarshal")
 		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() {
 			afterMarshalFunc.Call([]reflect.Value{})
-- 
2.43.0


From 7dab1ede7e919fd3b33dbf5ccff41ffeec08efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:50 +0000
Subject: [PATCH 25/35] fix: report a type mismatch when an array or object is
 filled into a tristate

---
 unmarshal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8f38bb1..b3e9bfb 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -477,7 +477,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONDictType, JSONIntType, JSONStringType, JSONBoolType, JSONFloatType,
-		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType:
+		JSONDictPtrType, JSONIntPtrType, JSONStringPtrType, JSONBoolPtrType, JSONFloatPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch //fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
@@ -542,7 +543,8 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONArrayType, JSONIntType, JSONBoolType, JSONFloatType, JSONStringType,
-		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType:
+		JSONArrayPtrType, JSONIntPtrType, JSONBoolPtrType, JSONFloatPtrType, JSONStringPtrType,
+		tristate.TriStateType:
 		return ErrTypeMismatch // fmt.Errorf("JSONDict type mismatch %s", val.Type())
 	}
 	switch val.Kind() {
-- 
2.43.0


From b600169deac81357b4f1b1d7dd825331c819587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 26/35] fix: resolve references that precede the node they
 refer to

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index b3e9bfb..97dc859 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -523,7 +523,8 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 }
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
-	if this.nodeId > 0 && val.CanAddr() {
+	// a node is the value that a pointer refers to, not the pointer
+	if this.nodeId > 0 && val.CanAddr() && val.Kind() != reflect.Ptr {
 		err := s.saveNodeValue(this.nodeId, val.Addr())
 		if err != nil {
 			return errors.Wrap(err, "saveNodeValue")
-- 
2.43.0


From 7658df973f86fdb1658b0a4a052e1fb724b77aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 27/35] fix: marshal a node before the references to it

---
 marshal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marshal.go b/marshal.go
index 3e96f24..b91bdc8 100644
--- a/marshal.go
+++ b/marshal.go
@@ -122,6 +122,11 @@ func findValueByKey(pairs []JSONPair, key string) JSONObject {
 
 func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool) []JSONPair {
 	fields := reflectutils.FetchStructFieldValueSet(val)
+	// visit the fields in the order of the keys of the resulting dict, so that
+	// a node is always marshalled before the references to it
+	sort.SliceStable(fields, func(i, j int) bool {
+		return fields[i].Info.MarshalName() < fields[j].Info.MarshalName()
+	})
 	objPairs := make([]JSONPair, 0, len(fields))
 	depFields := make(map[string]string)
 	for i := 0; i < len(fields); i += 1 {
-- 
2.43.0


From dc1488aee2e58ccb182ada7408e2ad7b14af4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 28/35] fix: do not refer to shared pointers to values that are
 not dicts

---
 jsonpointer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpointer.go b/jsonpointer.go
index b525c7c..34d5fac 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -44,6 +44,9 @@ func (s *sJsonMarshalSession) newJsonPointer(inf interface{}) *sJSONPointer {
 func (s *sJsonMarshalSession) setJsonObject(ptr *sJSONPointer, obj JSONObject) {
 	if _, ok := obj.(*JSONDict); ok {
 		ptr.node = obj
+	} else if node, ok := s.nodeMap[ptr.nodeId]; ok {
+		// only a dict carries a node id, nothing else can be referred to
+		node.inf = nil
 	}
 	s.objectTrace.pop()
 }
-- 
2.43.0


From 480c6cdb4c4f3a6402d5a79a998a4217c6e20e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:08 +0000
Subject: [PATCH 29/35] fix: keep DEL, C1 control and line separator characters
 in YAML text

---
 yamlutils.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/yamlutils.go b/yamlutils.go
index 19d3e58..c823849 100644
--- a/yamlutils.go
+++ b/yamlutils.go
@@ -14,7 +14,12 @@
 
 package jsonutils
 
-import "github.com/ghodss/yaml"
+import (
+	"fmt"
+	"strings"
+
+	"github.com/ghodss/yaml"
+)
 
 func ParseYAML(str string) (JSONObject, error) {
 	jsonBytes, err := yaml.YAMLToJSON([]byte(str))
@@ -25,10 +30,38 @@ func ParseYAML(str string) (JSONObject, error) {
 }
 
 func yamlString(obj JSONObject) string {
-	yamlBytes, _ := yaml.JSONToYAML([]byte(obj.String()))
+	yamlBytes, _ := yaml.JSONToYAML([]byte(escapeYamlSpecial(obj.String())))
 	return string(yamlBytes)
 }
 
+// escapeYamlSpecial escapes the characters of a JSON text that JSON allows
+// verbatim in a string, but that YAML rejects or treats as line breaks
+func escapeYamlSpecial(text string) string {
+	if strings.IndexFunc(text, isYamlSpecial) < 0 {
+		return text
+	}
+	var sb strings.Builder
+	for _, r := range text {
+		if isYamlSpecial(r) {
+			fmt.Fprintf(&sb, "\\u%04x", r)
+		} else {
+			sb.WriteRune(r)
+		}
+	}
+	return sb.String()
+}
+
+func isYamlSpecial(r rune) bool {
+	switch {
+	case r >= 0x7f && r <= 0x9f:
+		return true
+	case r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe || r == 0xffff:
+		return true
+	default:
+		return false
+	}
+}
+
 func (this *JSONValue) YAMLString() string {
 	return yamlString(this)
 }
-- 
2.43.0


From 5148691e8f3a9cdf3441300c558cd9dbf541acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:49 +0000
Subject: [PATCH 30/35] fix: set references to later nodes in map entries

---
 unmarshal.go         | 8 ++++++++
 unmarshal_session.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 97dc859..1e71741 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -80,6 +80,9 @@ func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if err != nil {
 		return errors.Wrap(err, "jo.unmarshalValue")
 	}
+	for _, store := range s.mapEntries {
+		store()
+	}
 	return nil
 }
 
@@ -618,11 +621,16 @@ func (this *JSONDict) unmarshalMap(s *sJsonUnmarshalSession, val reflect.Value)
 		}
 		valVal := reflect.New(valType.Elem()).Elem()
 
+		waiting := s.waiting
 		err := v.unmarshalValue(s, valVal)
 		if err != nil {
 			return errors.Wrap(err, "JSONDict.unmarshalMap")
 		}
 		val.SetMapIndex(keyVal, valVal)
+		if s.waiting > waiting {
+			// the map holds a copy that lacks the references set later
+			s.mapEntries = append(s.mapEntries, func() { val.SetMapIndex(keyVal, valVal) })
+		}
 	}
 	return nil
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 3357480..2641def 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -28,6 +28,10 @@ type sJsonNodeValues struct {
 
 type sJsonUnmarshalSession struct {
 	objectMap map[int]*sJsonNodeValues
+	// number of references that had to wait for their node
+	waiting int
+	// stores the map entries that hold such references again
+	mapEntries []func()
 }
 
 func newJsonUnmarshalSession() *sJsonUnmarshalSession {
@@ -68,8 +72,10 @@ func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) e
 	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
 		return setNodeValue(val, nv.nodeValue)
 	} else if ok && !nv.nodeValueSet {
+		s.waiting++
 		nv.targetValues = append(nv.targetValues, val)
 	} else {
+		s.waiting++
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValueSet: false,
 			targetValues: []reflect.Value{
-- 
2.43.0


From 9367926693daef0f98a676e3fc45f26939a25b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:29 +0000
Subject: [PATCH 31/35] fix: name map members by the string of the key

---
 marshal.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index b91bdc8..c031c60 100644
--- a/marshal.go
+++ b/marshal.go
@@ -68,6 +68,15 @@ func (a tMapKeys) Len() int           { return len(a) }
 func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 func (a tMapKeys) Less(i, j int) bool { return a[i].String() < a[j].String() }
 
+// mapKeyName returns the member name of a map key. A string is taken as it is,
+// also if its type has a String method, as unmarshalMap converts it back
+func mapKeyName(key reflect.Value) string {
+	if key.Kind() == reflect.String {
+		return key.String()
+	}
+	return fmt.Sprintf("%s", key)
+}
+
 func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	if val.IsNil() {
 		if !omitEmpty {
@@ -87,7 +96,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%s", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: mapKeyName(key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From 28a2b88b9a10657fc9acd46557c1a731f383f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:31 +0000
Subject: [PATCH 32/35] fix: references to the same node are equal

---
 jsonpointer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index 34d5fac..1b68c53 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -167,7 +167,12 @@ func (ptr *sJSONPointer) Unmarshal(obj interface{}, keys ...string) error {
 }
 
 func (ptr *sJSONPointer) Equals(obj JSONObject) bool {
-	return ptr.getNode().Equals(obj)
+	// comparing the nodes instead might never end, as they may form a cycle
+	ptr2, ok := obj.(*sJSONPointer)
+	if !ok {
+		return false
+	}
+	return ptr.nodeId == ptr2.nodeId
 }
 
 func (ptr *sJSONPointer) Interface() interface{} {
-- 
2.43.0


From 7ea612293e47a7acb9bb8a950589b25f017835e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:19 +0000
Subject: [PATCH 33/35] fix: end the conversion of a cycle to plain data

---
 interface.go | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/interface.go b/interface.go
index 7d2b7ed..c6536ea 100644
--- a/interface.go
+++ b/interface.go
@@ -39,20 +39,40 @@ func (self *JSONString) Interface() interface{} {
 }
 
 func (self *JSONArray) Interface() interface{} {
-	ret := make([]interface{}, len(self.data))
-	for i := 0; i < len(self.data); i += 1 {
-		ret[i] = self.data[i].Interface()
-	}
-	return ret
+	return interfaceOf(self, make(map[*JSONDict]map[string]interface{}))
 }
 
 func (self *JSONDict) Interface() interface{} {
-	mapping := make(map[string]interface{})
+	return interfaceOf(self, make(map[*JSONDict]map[string]interface{}))
+}
 
-	for iter := sortedmap.NewIterator(self.data); iter.HasMore(); iter.Next() {
-		k, v := iter.Get()
-		mapping[k] = v.(JSONObject).Interface()
+// interfaceOf converts obj, given the maps of the dicts being converted: a
+// reference to one of these is a cycle, and becomes a reference to its map
+func interfaceOf(obj JSONObject, parents map[*JSONDict]map[string]interface{}) interface{} {
+	switch v := obj.(type) {
+	case *JSONArray:
+		ret := make([]interface{}, len(v.data))
+		for i := 0; i < len(v.data); i += 1 {
+			ret[i] = interfaceOf(v.data[i], parents)
+		}
+		return ret
+	case *JSONDict:
+		mapping := make(map[string]interface{})
+		parents[v] = mapping
+		for iter := sortedmap.NewIterator(v.data); iter.HasMore(); iter.Next() {
+			k, val := iter.Get()
+			mapping[k] = interfaceOf(val.(JSONObject), parents)
+		}
+		delete(parents, v)
+		return mapping
+	case *sJSONPointer:
+		if node, ok := v.node.(*JSONDict); ok {
+			if mapping, ok := parents[node]; ok {
+				return mapping
+			}
+		}
+		return interfaceOf(v.getNode(), parents)
+	default:
+		return obj.Interface()
 	}
-
-	return mapping
 }
-- 
2.43.0


From 1186e899b3b22157162390ee9c2a04fffd410506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:26 +0000
Subject: [PATCH 34/35] fix: a text of millions of nested containers overflowed
 the stack

Nesting deeper than 10000 levels is now a parse error.
---
 jsonutils.go     | 10 ++++++++++
 parse_session.go |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 4d97303..55063f8 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -572,7 +572,12 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 }
 
 func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int, error) {
+	s.depth++
+	if s.depth > maxParseDepth {
+		return offset, NewJSONError(str, offset, "Exceeded max depth")
+	}
 	smap, i, nodeId, e := s.parseDict(str, offset)
+	s.depth--
 	if e == nil {
 		this.nodeId = nodeId
 		this.data = smap
@@ -636,7 +641,12 @@ func (this *JSONDict) prettyString(level int) string {
 }
 
 func (this *JSONArray) parse(s *sJsonParseSession, str []byte, offset int) (int, error) {
+	s.depth++
+	if s.depth > maxParseDepth {
+		return offset, NewJSONError(str, offset, "Exceeded max depth")
+	}
 	val, i, e := s.parseArray(str, offset)
+	s.depth--
 	if e == nil {
 		this.data = val
 	}
diff --git a/parse_session.go b/parse_session.go
index aa34e89..98f618e 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -23,8 +23,13 @@ type sNodeReferer struct {
 	pointers []*sJSONPointer
 }
 
+// maxParseDepth is how deep containers may nest in a text. The parser recurses
+// for each level, and overflowing the stack is fatal
+const maxParseDepth = 10000
+
 type sJsonParseSession struct {
 	objectMap map[int]*sNodeReferer
+	depth     int
 }
 
 func newJsonParseSession() *sJsonParseSession {
-- 
2.43.0


From 1175bc20dfe75b78b6c6d03fdb78829bd8157fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:28 +0000
Subject: [PATCH 35/35] fix: a query string key of millions of steps overflowed
 the stack

---
 querystring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/querystring.go b/querystring.go
index 94c5508..9a5b2f8 100644
--- a/querystring.go
+++ b/querystring.go
@@ -107,6 +107,9 @@ func (this *JSONDict) parseQueryString(str string) error {
 	segmentKeys := strings2stringSegments(keys)
 	sort.Sort(segmentKeys)
 	for _, segs := range segmentKeys {
+		if len(segs) > maxParseDepth {
+			return errors.Wrapf(ErrOutOfKeyRange, "key of %d steps exceeds max depth", len(segs))
+		}
 		_, err := addQueryStringSeg(this, segs, m[segments2string(segs)])
 		if err != nil {
 			return errors.Wrap(err, "addQueryStringSeg")
-- 
2.43.0

