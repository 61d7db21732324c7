From 9e41911768e229675487bef2adb07d0bad95c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 01/45] fix: rendering a JSON parse error without excerpt must
 not panic

---
 jsonparse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..fb0772f 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -54,6 +54,9 @@ type ErrorParseJson struct {
 func (err *ErrorParseJson)Error()string  {
 	b := err.parseB
 	l := len(b)
+	if err.InvalidIndex < 0 || err.InvalidIndex > l{
+		return fmt.Sprintf("解析发生错误：%s",err.Type.String())
+	}
 	if l > err.InvalidIndex + 32{
 		l = err.InvalidIndex + 32
 	}
-- 
2.43.0


From 9149dc2888ea98d8ef7d5de4df6a99dd27bca9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 02/45] fix: JSON key with an escape is parsed once and
 returned

---
 jsonparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonparse.go b/jsonparse.go
index fb0772f..ba10eaa 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -238,6 +238,7 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return key,tail,err
 		}
 	}
 	return "", nil, &ErrorParseJson{
-- 
2.43.0


From 5bb25148d357890a2733efa558f524bce945bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:56 +0000
Subject: [PATCH 03/45] fix: JSON nan literal comparison was inverted

---
 jsonparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index ba10eaa..9e62032 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -481,7 +481,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -538,7 +538,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
-- 
2.43.0


From 1231753d273635a4aeab7012f9719fb24e0ce151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 04/45] fix: JSON numbers keep their full width and invalid or
 trailing ones are reported

---
 jsonparse.go | 71 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 26 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 9e62032..20a4376 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -551,11 +551,9 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 }
 
 func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
-	isfloat := false
 	for i := 0; i < len(b); i++ {
 		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 			continue
 		}
 		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
@@ -574,25 +572,45 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 		}
 		ns := b[:i]
 		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetInt(v)
+		return b, setJsonNum(ns,num)
+	}
+	return nil, setJsonNum(b,num)
+}
+
+//将完整的数字串写入到num中，整数按照int64，其他的按照double
+func setJsonNum(ns []byte,num *DxValue)error  {
+	vint,vfloat,isfloat,err := parseJsonNumToken(ns)
+	if err != nil{
+		return err
+	}
+	if isfloat{
+		num.Reset(VT_Double)
+		num.SetDouble(vfloat)
+	}else{
+		num.Reset(VT_Int)
+		num.SetInt(vint)
+	}
+	return nil
+}
+
+func parseJsonNumToken(ns []byte)(vint int64,vfloat float64,isfloat bool,err error)  {
+	if bytes.IndexAny(ns,".eE") < 0{
+		vint,err = strconv.ParseInt(string(ns),10,64)
+		if err == nil{
+			return vint,0,false,nil
 		}
-		return b, nil
 	}
-	return nil, nil
+	//有小数，指数，或者超过了int64的范围
+	vfloat,err = strconv.ParseFloat(string(ns),64)
+	if err != nil{
+		return 0,0,false,errors.New("无效的Json格式")
+	}
+	return 0,vfloat,true,nil
 }
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
-	isfloat := false
 	for i := 0; i < len(b); i++ {
 		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
 		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 			continue
 		}
@@ -610,18 +628,19 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 		}
 		ns := b[:i]
 		b = b[i:]
-		if isfloat{
-			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Float)
-			num.SetFloat(float32(v))
-		}else{
-			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Int)
-			num.SetInt(v)
-		}
-		return num, b, nil
+		num,err = newJsonNum(ns,c)
+		return num, b, err
+	}
+	num,err = newJsonNum(b,c)
+	return num, nil, err
+}
+
+func newJsonNum(ns []byte,c *ValueCache)(*DxValue,error)  {
+	num := c.getValue(VT_Int)
+	if err := setJsonNum(ns,num);err != nil{
+		return nil,err
 	}
-	return nil, nil, nil
+	return num,nil
 }
 
 func skipWB(b []byte) (r []byte,skiplen int) {
-- 
2.43.0


From 7c1b05b00edd35be9ac47df5bd93e2ee8c2b5647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:23 +0000
Subject: [PATCH 05/45] fix: no operation may change the shared
 true/false/null/nan/inf values

---
 dxvalue.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..1adac6f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnlyValue = errors.New("the system fixed value is read only")
 )
 
 
@@ -190,6 +192,9 @@ func (v *DxValue)ValueCache()*ValueCache  {
 }
 
 func (v *DxValue)Clear()  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.ownercache != nil{
 		v.ownercache.Reset(false) //根不回收
 	}
@@ -257,6 +262,9 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -266,6 +274,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
@@ -276,6 +287,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -307,6 +321,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnlyValue
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -578,6 +595,9 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -598,6 +618,9 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	v.Reset(fromv.DataType)
 	switch fromv.DataType {
 	case VT_Object:
@@ -698,6 +721,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -812,6 +838,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
@@ -995,6 +1024,9 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1002,6 +1034,9 @@ func (v *DxValue)SetTime(value time.Time)  {
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1124,6 +1159,9 @@ func (v *DxValue)GoTimeByPath(DefaultValue time.Time, paths ...string)time.Time
 }
 
 func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){ //系统固定的值不变更，返回一个独立的值
+		return c.getValue(tp)
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1157,6 +1195,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1178,6 +1219,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1215,20 +1259,23 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){ //系统固定的值不变更，返回一个独立的值
+		return c.getValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
 	l := len(v.farr)
 	if idx >= 0 && idx < l{
 		result := v.farr[idx]
-		if result != nil && result.DataType != tp{
+		if result != nil{
 			if result == valueTrue || result == valueNull || result == valueFalse || result == valueINF || result == valueNAN{
 				result = c.getValue(tp)
 				v.farr[idx] = result
 			}else if result.DataType != tp {
 				result.Reset(tp)
 			}
-		}else if result == nil{
+		}else{
 			result = c.getValue(tp)
 			v.farr[idx] = result
 		}
@@ -1241,6 +1288,9 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From 117f710a766a29b35ff845d95a1b635132249832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:51 +0000
Subject: [PATCH 06/45] fix: recycled values and member slots are fully
 re-initialised

---
 cache.go   | 5 ++++-
 dxvalue.go | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cache.go b/cache.go
index bc456b3..5d0ba5f 100644
--- a/cache.go
+++ b/cache.go
@@ -30,6 +30,7 @@ func (c *ValueCache)getValue(t ValueType)*DxValue  {
 	}
 	result := &c.Value[len(c.Value)-1]
 	result.Reset(t)
+	result.ownercache = nil
 	if c.fisroot{
 		c.fisroot = false
 		result.ownercache = c
@@ -54,7 +55,9 @@ func getCache()*ValueCache  {
 
 func (c *ValueCache)Reset(toRoot bool)  {
 	if !toRoot{
-		c.Value = c.Value[:1]
+		if len(c.Value) > 1{
+			c.Value = c.Value[:1]
+		}
 	}else{
 		c.Value = c.Value[:0]
 	}
diff --git a/dxvalue.go b/dxvalue.go
index 1adac6f..21e9a7b 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -54,7 +54,10 @@ func (obj *VObject)getKv()*strkv  {
 	} else {
 		obj.strkvs = append(obj.strkvs, strkv{})
 	}
-	return &obj.strkvs[len(obj.strkvs)-1]
+	kv := &obj.strkvs[len(obj.strkvs)-1]
+	kv.K = ""
+	kv.V = nil
+	return kv
 }
 
 func (obj *VObject)Remove(Name string)  {
@@ -367,6 +370,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.fbinary = nil
 	v.fstrvalue = ""
+	v.simpleV = [8]byte{}
 }
 
 func (v *DxValue)Type() ValueType {
-- 
2.43.0


From 20ecb2d8210e7b1aee02535525a550c739182df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 07/45] fix: loading into an existing value replaces its type
 and content

---
 dxvalue.go      | 16 ++++++++++++++--
 jsonparse.go    |  2 ++
 msgpackparse.go |  9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 21e9a7b..15a2a67 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -285,8 +285,19 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
-	return err
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err != nil{
+		return err
+	}
+	b,skiplen := skipWB(tail)
+	if len(b) > 0 {
+		return &ErrorParseJson{
+			Type:         JET_Invalidate,
+			InvalidIndex: skiplen,
+			parseB:       tail,
+		}
+	}
+	return nil
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
@@ -331,6 +342,7 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
 	return  err
 }
diff --git a/jsonparse.go b/jsonparse.go
index 20a4376..34bda6e 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -151,6 +151,7 @@ func parseJsonObj(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tail
 }
 
 func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)  {
+	v.Reset(VT_Object)
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0{
@@ -348,6 +349,7 @@ func parseJsonArray(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 
 
 func parseJsonArray2V(b []byte,result *DxValue,sharebinary bool)(tail []byte,err error)  {
+	result.Reset(VT_Array)
 	oldb := b
 	b,skiplen := skipWB(b)
 	if len(b) == 0 {
diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..95e180a 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,6 +31,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
@@ -140,11 +141,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -338,11 +339,13 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
 			v.fstrvalue = string(strbt)
 		}
+		return tail,nil
 	case code.IsArray():
 		return parseMsgPackArray2V(code,b,v,sharebinary)
 	case code.IsMap():
@@ -411,6 +414,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -434,6 +438,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -455,6 +460,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		tail = b[exlen+1:]
 		if code.IsTime(b[0]){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -474,6 +480,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
-- 
2.43.0


From 3a99aa188a1df11c5ddacc6c1debac4d1783ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 08/45] fix: clearing a value also clears its extension type

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index 15a2a67..329d958 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -221,6 +221,7 @@ func (v *DxValue)Clear()  {
 	}
 	v.fbinary = nil
 	v.fstrvalue = ""
+	v.ExtType = 0
 }
 
 func NewObject(cached bool)*DxValue  {
-- 
2.43.0


From f7703a032d8763ba2fc29fd0e2d26d4de322f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:46 +0000
Subject: [PATCH 09/45] fix: LoadFromYaml accepts and builds what
 NewValueFromYaml does

---
 dxvalue.go   | 16 ----------------
 yamlparse.go | 10 ++++++++--
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 329d958..227f2fc 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -306,30 +306,14 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 		return ErrReadOnlyValue
 	}
 	v.Clear()
-	spacount := 0
-	for i := 0;i<len(b);i++{
-		if b[i] == ' ' || b[i] == '\r' || b[i] == '\n' || b[i] == '\t'{
-			spacount++
-			continue
-		}
-		break
-	}
-	b = b[spacount:]
 	if len(b) == 0{
 		return nil
 	}
-	if b[0] == '-'{
-		v.Reset(VT_Array)
-	}else{
-		v.Reset(VT_Object)
-	}
-
 	parser := newyamParser()
 	parser.parseData = b
 	parser.usecache = false
 	parser.root = v
 	parser.fparentCache = v.ValueCache()
-	parser.fParsingValues = append(parser.fParsingValues,yamlNode{false,-1,v})
 	err := parser.parse()
 	freeyamlParser(parser)
 	return err
diff --git a/yamlparse.go b/yamlparse.go
index d909717..9503862 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -113,7 +113,10 @@ func (parser *yamlParser)parseArray(dataLine []byte,spaceCount int)error  {
 	}
 	lastIndex := len(parser.fParsingValues) - 1
 	if lastIndex < 0{
-		if parser.usecache{
+		if parser.root != nil{
+			currentValue = parser.root
+			currentValue.Reset(VT_Array)
+		}else if parser.usecache{
 			parser.fparentCache = getCache()
 			currentValue = parser.fparentCache.getValue(VT_Array)
 		}else{
@@ -262,7 +265,10 @@ func (parser *yamlParser)parseObject(dataLine []byte,spaceCount int)error  {
 	lastIndex := len(parser.fParsingValues) - 1
 	lastSpaceCount := parser.lastSpaceCount
 	if lastIndex < 0{
-		if parser.usecache{
+		if parser.root != nil{
+			currentValue = parser.root
+			currentValue.Reset(VT_Object)
+		}else if parser.usecache{
 			parser.fparentCache = getCache()
 			currentValue = parser.fparentCache.getValue(VT_Object)
 		}else{
-- 
2.43.0


From 936af30728a940d4c583c82ae7198e9190c1463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:46 +0000
Subject: [PATCH 10/45] fix: a YAML line of spaces only must not panic

---
 yamlparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 9503862..6def9b8 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -178,6 +178,10 @@ var(
 )
 func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 	dataLine := lineData[spaceCount:]
+	if len(dataLine) == 0{
+		//空行
+		return nil
+	}
 	if dataLine[0] == '#'{
 		//注释，不做处理
 		return nil
-- 
2.43.0


From 24c8714fd4ecb0abc8b014490c38876c9cca2d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:47 +0000
Subject: [PATCH 11/45] fix: a short last YAML line must not loop forever

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index 6def9b8..f3046dd 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -508,7 +508,7 @@ func (parser *yamlParser)parse()error  {
 		}
 		if curLineEnd - istart < 2{
 			istart = curLineEnd + 1
-			if istart == datalen{
+			if istart >= datalen{
 				break
 			}
 			continue
-- 
2.43.0


From a9e8c237b45a2234df8f2b06df8a037c6ec86a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:47 +0000
Subject: [PATCH 12/45] fix: a recycled YAML parser starts from a clean state

---
 yamlparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index f3046dd..6248ab6 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -52,6 +52,10 @@ func freeyamlParser(parser *yamlParser)  {
 
 func (parser *yamlParser)reset(data []byte)  {
 	parser.parseData = data
+	parser.ifFirstObjEle = false
+	parser.lastOpifMerge = false
+	parser.usecache = false
+	parser.lastSpaceCount = 0
 	parser.root = nil
 	parser.fparentCache = nil
 	for i := 0;i<len(parser.fParsingValues);i++{
-- 
2.43.0


From c9390a987485a5b3e37bcbcf8a4773dafcbdbbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:47 +0000
Subject: [PATCH 13/45] fix: an empty YAML document is null, not a nil value

---
 yamlparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 6248ab6..7ca403e 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -541,6 +541,10 @@ func NewValueFromYaml(b []byte,usecache bool)(*DxValue,error)  {
 	}
 	result := parser.root
 	freeyamlParser(parser)
+	if result == nil{
+		//没有任何内容
+		result = valueNull
+	}
 	return result,nil
 }
 
-- 
2.43.0


From 38fc012b640b5a3aeaa2cfb654813b8d743a77a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:36 +0000
Subject: [PATCH 14/45] fix: truncated MsgPack maps and extensions are reported
 instead of panicking

---
 msgpackparse.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 95e180a..d5d7f42 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -35,6 +35,9 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if maplen == 0{
 		return b,nil
 	}
+	if len(b) == 0{
+		return b,ErrUnKnownCode
+	}
 	if !MsgPackCode(b[0]).IsStr(){
 		return b,ErrMapKey
 	}
@@ -73,6 +76,9 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
+	if len(b) == 0{
+		return nil,b,ErrUnKnownCode
+	}
 	if !MsgPackCode(b[0]).IsStr(){
 		return nil,b,ErrMapKey
 	}
@@ -291,11 +297,11 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return result,b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen+1{ //还有一个字节的扩展类型
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			result = c.getValue(VT_DateTime)
 			switch code {
@@ -454,11 +460,11 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen+1{ //还有一个字节的扩展类型
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			v.Reset(VT_DateTime)
 			switch code {
-- 
2.43.0


From b1eaf7f9aa52da15d66430984aae16baa243175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 15/45] fix: the reserved MsgPack lead byte is an error

---
 msgpackparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index d5d7f42..99a21e9 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -330,6 +330,8 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+	default:
+		return nil,b,ErrInvalidateCode
 	}
 	return
 }
@@ -493,6 +495,8 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+	default:
+		return b,ErrInvalidateCode
 	}
 	return
 }
-- 
2.43.0


From 20a53a39254214091e292caa646c18c1995fcf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:37 +0000
Subject: [PATCH 16/45] fix: MsgPack extensions are written with exactly one
 header

---
 msgpack_value.go | 6 ++++++
 msgpackparse.go  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/msgpack_value.go b/msgpack_value.go
index 3c3c8a9..87e42d5 100644
--- a/msgpack_value.go
+++ b/msgpack_value.go
@@ -178,7 +178,13 @@ func writeExtCode(exlen int,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeFixExt8))
 	case 16:
 		dst = append(dst,byte(CodeFixExt16))
+	default:
+		dst = writeVarExtCode(exlen,dst)
 	}
+	return dst
+}
+
+func writeVarExtCode(exlen int,dst []byte)[]byte  {
 	if exlen < 256 {
 		dst = append(dst,byte(CodeExt8),byte(exlen))
 	}else if exlen < 65536 {
diff --git a/msgpackparse.go b/msgpackparse.go
index 99a21e9..86d2203 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -586,6 +586,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 			blen = len(v.fbinary[1:])
 		}
 		dst = writeExtCode(blen,dst)
+		if len(v.fbinary) == 0{
+			dst = append(dst,0) //没有扩展类型的，也要写入扩展类型
+		}
 		//直接写入内容
 		dst = append(dst,v.fbinary...)
 	case VT_Binary:
-- 
2.43.0


From c39478c5297231f42c707b8caf1789b19f6400fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 17/45] fix: every value is written as one MsgPack item

---
 msgpackparse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index 86d2203..6cefec9 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -613,6 +613,18 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeTrue))
 	case VT_NULL:
 		dst = append(dst,byte(CodeNil))
+	case VT_NAN:
+		dst = writeDouble(math.NaN(),dst)
+	case VT_INF:
+		dst = writeDouble(math.Inf(1),dst)
+	default:
+		//未知的类型，也必须占据一个位置
+		dst = append(dst,byte(CodeNil))
 	}
 	return dst
+}
+
+func writeDouble(vf float64,dst []byte)[]byte  {
+	u64 := math.Float64bits(vf)
+	return append(dst,byte(CodeDouble),byte(u64 >> 56),byte(u64 >> 48),byte(u64 >> 40),byte(u64 >> 32),byte(u64 >> 24),byte(u64 >> 16),byte(u64 >> 8),byte(u64))
 }
\ No newline at end of file
-- 
2.43.0


From b81cc996d53eea476764b979cc9835a4ac021833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:39 +0000
Subject: [PATCH 18/45] fix: MsgPack text is written unescaped

---
 msgpackparse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 6cefec9..3222c91 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -535,6 +535,7 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	}
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		l := len(v.fobject.strkvs)
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
@@ -604,9 +605,10 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
-		l := len(v.fstrvalue)
+		vstr := v.String() //解转义
+		l := len(vstr)
 		dst = writeStrCode(l,dst)
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		dst = append(dst,DxCommonLib.FastString2Byte(vstr)...)
 	case VT_False:
 		dst = append(dst,byte(CodeFalse))
 	case VT_True:
-- 
2.43.0


From d171a890278ac718c06719e150f63b3782fda75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:07 +0000
Subject: [PATCH 19/45] fix: malformed BSON is reported instead of panicking,
 and binaries and empty documents are decoded

---
 bson_parse.go | 82 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 14 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..8441f2f 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -27,15 +27,16 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b){
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen] //不能超出文档的范围
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -84,22 +85,29 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 			break
 		}
 	}
+	if parseIndex != docLen - 1 || b[parseIndex] != 0{ //必须有结束符
+		return docLen,parseIndex,ErrInvalidBSON
+	}
 	return docLen,parseIndex,nil
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+	if len(b) <= 4{
+		return 0,0,ErrBadBSONDocLen
+	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b){
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen] //不能超出文档的范围
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
-	for parseIndex < docLen{
+	for parseIndex < docLen - 1{
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -152,19 +160,31 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 			break
 		}
 	}
+	if parseIndex != docLen - 1 || b[parseIndex] != 0{ //必须有结束符
+		return docLen,parseIndex,ErrInvalidBSON
+	}
 	return docLen,parseIndex,nil
 }
 
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
 	switch btype {
 	case BSON_Double:
+		if len(b) < 8{
+			return 0,0,ErrInvalidBSON
+		}
 		u64 := binary.LittleEndian.Uint64(b[:8])
 		value.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return 8,8,nil
 	case BSON_String:
 		//UTF8
+		if len(b) < 4{
+			return 0,0,ErrInvalidBSON
+		}
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex += 4
+		if valueLen < 1 || valueLen > len(b) - parseIndex{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		start := parseIndex
 		parseIndex += valueLen
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
@@ -177,42 +197,61 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		value.DataType = VT_ExBinary
 		value.ExtType = uint8(btype)
 		//先读取长度
+		if len(b) < 5{
+			return 0,0,ErrInvalidBSON
+		}
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex = 4
 		//子类型
 		b = b[parseIndex:]
 		subType := b[0]
-		if subType == 2{
+		switch subType {
+		case uint8(BinaryBinaryOld):
 			parseIndex ++
-			b = b[parseIndex:]
-			//再重新处理一遍
-			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
+			b = b[1:]
+			//再重新处理一遍，内部还有一个长度
+			if len(b) < 4 || int(binary.LittleEndian.Uint32(b[:4])) != valueLen - 4{
 				return valueLen,parseIndex,ErrInvalidBSON
 			}
+			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
+			parseIndex += 4
+			b = b[4:]
 			value.DataType = VT_Binary
 			value.ExtType = 0
-		}else{
+		case uint8(BinaryGeneric):
+			//普通二进制
+			parseIndex ++
+			b = b[1:]
+			value.DataType = VT_Binary
+			value.ExtType = 0
+		default:
 			//VT_ExBinary要将subType带上
 			valueLen ++
 		}
+		if valueLen > len(b){
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		parseIndex += valueLen
 		if shareBinary{
-			value.SetBinary(b[:valueLen],false)
+			value.fbinary = b[:valueLen]
 		}else {
-			value.SetBinary(b[:valueLen],true)
+			value.fbinary = append([]byte(nil),b[:valueLen]...)
 		}
 	case BSON_Undefined:
 	case BSON_ObjectID:
 		//12字节
+		if len(b) < 12{
+			return 0,0,ErrInvalidBSON
+		}
 		value.DataType = VT_Binary
 		value.ExtType = uint8(btype)
 		value.SetBinary(b[:12],!shareBinary)
 		return 12,12,nil
 	case BSON_Boolean:
 		//一个字节
+		if len(b) < 1{
+			return 0,0,ErrInvalidBSON
+		}
 		if b[0] == 1{
 			value.DataType = VT_True
 		}else{
@@ -221,6 +260,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 1,1,nil
 	case BSON_DateTime:
 		//Unix 纪元(1970 年 1 月 1 日)以来的毫秒数
+		if len(b) < 8{
+			return 0,0,ErrInvalidBSON
+		}
 		vunix := time.Duration(binary.LittleEndian.Uint64(b[:8])) * time.Millisecond
 		value.SetTime(time.Date(1970,1,1,0,0,0,0,time.UTC).Add(vunix))
 		return 8,8,nil
@@ -232,18 +274,30 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 	case BSON_Symbol:
 	case BSON_CodeWithScope:
 	case BSON_Int32:
+		if len(b) < 4{
+			return 0,0,ErrInvalidBSON
+		}
 		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
+		if len(b) < 8{
+			return 0,0,ErrInvalidBSON
+		}
 		value.ExtType = uint8(btype)
 		value.DataType = VT_Int
 		copy(value.simpleV[:],b[:8])
 		return 8,8,nil
 	case BSON_Int64:
+		if len(b) < 8{
+			return 0,0,ErrInvalidBSON
+		}
 		value.SetInt(int64(binary.LittleEndian.Uint64(b[:8])))
 		return 8,8,nil
 	case BSON_Decimal128:
+		if len(b) < 16{
+			return 0,0,ErrInvalidBSON
+		}
 		value.DataType = VT_Binary
 		value.ExtType = uint8(btype)
 		value.SetBinary(b[:16],!shareBinary)
-- 
2.43.0


From 2e904917b03724f869050ef73f33e85263f0a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 20/45] fix: negative BSON int32 values keep their sign

---
 bson_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index 8441f2f..ac80ec5 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -277,7 +277,7 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		if len(b) < 4{
 			return 0,0,ErrInvalidBSON
 		}
-		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
+		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
-- 
2.43.0


From b0a3af0d16c77c0b519839caa0b8299d962eec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:08 +0000
Subject: [PATCH 21/45] fix: unsupported BSON element types are errors

---
 bson_parse.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ac80ec5..54c77a8 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -15,6 +15,7 @@ var(
 	ErrInvalidBSON = errors.New("invalidate bson format")
 	ErrInvalidArrayBsonIndex = errors.New("invalidate bson Array index")
 	ErrBadBSONDocLen = errors.New("BSONDocument size invalidate")
+	ErrUnSupportBsonType = errors.New("unsupported bson element type")
 )
 
 /**
@@ -268,11 +269,8 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 8,8,nil
 	case BSON_Null:
 		//啥都不干
-	case BSON_Regex:
-	case BSON_DBPointer:
-	case BSON_JavaScript:
-	case BSON_Symbol:
-	case BSON_CodeWithScope:
+	case BSON_Regex,BSON_DBPointer,BSON_JavaScript,BSON_Symbol,BSON_CodeWithScope:
+		return 0,0,ErrUnSupportBsonType
 	case BSON_Int32:
 		if len(b) < 4{
 			return 0,0,ErrInvalidBSON
@@ -304,6 +302,8 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 16,16,nil
 	case BSON_MinKey:
 	case BSON_MaxKey:
+	default:
+		return 0,0,ErrUnSupportBsonType
 	}
 	return
 }
-- 
2.43.0


From a3491d22ad37179784b369bf322d782397894eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:09 +0000
Subject: [PATCH 22/45] fix: the BSON writer's type bytes and payloads agree
 for every value

---
 bson_parse.go | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 54c77a8..ad6fb91 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -443,17 +443,16 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			}
 		}
 	case VT_Float,VT_Double:
-		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
-		dst = putLittI64(u64,dst)
+		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
 	case VT_DateTime:
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
 	case VT_Binary:
 		switch v.ExtType {
 		case uint8(BSON_ObjectID):
-			dst = append(dst,v.fbinary[:12]...)
+			dst = append(dst,fixedBinary(v.fbinary,12)...)
 		case uint8(BSON_Decimal128):
-			dst = append(dst,v.fbinary[:16]...)
+			dst = append(dst,fixedBinary(v.fbinary,16)...)
 		default:
 			//先写入长度
 			dst = putLittI32(int32(len(v.fbinary)),dst)
@@ -463,7 +462,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			dst = append(dst,v.fbinary...)
 		}
 	case VT_ExBinary:
-		if v.ExtType == byte(BSON_Binary){
+		if v.ExtType == byte(BSON_Binary) && len(v.fbinary) > 0{
 			//实际长度需要减去一个子类型占据的位
 			dst = putLittI32(int32(len(v.fbinary)-1),dst)
 		}else{
@@ -479,10 +478,21 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,1)
 	case VT_False:
 		dst = append(dst,0)
+	case VT_NAN:
+		dst = putLittI64(int64(math.Float64bits(math.NaN())),dst)
+	case VT_INF:
+		dst = putLittI64(int64(math.Float64bits(math.Inf(1))),dst)
 	}
 	return dst
 }
 
+//返回固定长度的二进制，不足的补0
+func fixedBinary(b []byte,n int)[]byte  {
+	result := make([]byte,n)
+	copy(result,b)
+	return result
+}
+
 func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 	if element == nil{
 		dst = append(dst,byte(BSON_Null))
@@ -510,24 +520,25 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 		dst = append(dst,byte(BSON_Double))
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
-	case VT_Binary,VT_ExBinary:
-		if element.ExtType != 0{
-			dst = append(dst,element.ExtType)
-		}else{
-			dst = append(dst,byte(BSON_Binary))
-		}
-		/*switch element.ExtType {
+	case VT_Binary:
+		switch element.ExtType {
 		case uint8(BSON_ObjectID):
 			dst = append(dst,byte(BSON_ObjectID))
 		case uint8(BSON_Decimal128):
 			dst = append(dst,byte(BSON_Decimal128))
 		default:
 			dst = append(dst,byte(BSON_Binary))
-		}*/
+		}
+	case VT_ExBinary:
+		dst = append(dst,byte(BSON_Binary))
 	case VT_NULL:
 		dst = append(dst,byte(BSON_Null))
 	case VT_True,VT_False:
 		dst = append(dst,byte(BSON_Boolean))
+	case VT_NAN,VT_INF:
+		dst = append(dst,byte(BSON_Double))
+	default:
+		dst = append(dst,byte(BSON_Null))
 	}
 	return dst
 }
-- 
2.43.0


From 62a4d86c080b7fc5d1e025d5abd320c0ad62c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 23/45] fix: short binaries must not panic when they are
 printed

---
 dxvalue.go   |  6 +++---
 jsonparse.go | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 227f2fc..9a8a94c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -758,18 +758,18 @@ func (v *DxValue)String()string  {
 		case uint8(BSON_ObjectID):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(fixedBinary(v.fbinary,12))...)
 			dst = append(dst,'"','}')
 
 		case uint8(BSON_Decimal128):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(fixedBinary(v.fbinary,16))...)
 			dst = append(dst,'"','}')
 		default:
 			dst = make([]byte,0,128)
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary)...)
 			dst = append(dst,')')
 		}
 		return DxCommonLib.FastByte2String(dst)
diff --git a/jsonparse.go b/jsonparse.go
index 34bda6e..9d0b9c9 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -798,16 +798,16 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		switch v.ExtType {
 		case uint8(BSON_ObjectID):
 			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(fixedBinary(v.fbinary,12))...)
 			dst = append(dst,'"','}')
 		case uint8(BSON_Decimal128):
 			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(fixedBinary(v.fbinary,16))...)
 			dst = append(dst,'"','}')
 		default:
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
+			dst = append(dst,"\"Bin("...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary)...)
+			dst = append(dst,')','"')
 		}
 	case VT_String:
 		dst = append(dst,'"')
-- 
2.43.0


From 0e312a9544977170b306e794f86d71727d255b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:46 +0000
Subject: [PATCH 24/45] fix: every value prints as one well-formed JSON token

---
 jsonparse.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 9d0b9c9..cde7985 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/suiyunonghen/DxCommonLib"
+	"math"
 	"os"
 	"strconv"
 )
@@ -672,6 +673,9 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 	switch v.DataType {
 	case VT_Object:
 		dst = append(dst,'{')
@@ -724,7 +728,11 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		}
 		dst = append(dst, ']')
 	case VT_Float,VT_Double:
-		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		if vf := v.Double();math.IsNaN(vf) || math.IsInf(vf,0){
+			dst = append(dst,'n','u','l','l') //Json没有NaN和Inf
+		}else{
+			dst = strconv.AppendFloat(dst,vf,'f',-1,64)
+		}
 	case VT_RawString:
 		dst = append(dst,'"')
 		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
@@ -747,7 +755,9 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
-	case VT_NULL:
+	case VT_Binary,VT_ExBinary:
+		dst = formatValue(v,escapeStyle,escapeDatetime,dst,0)
+	default:
 		dst = append(dst,'n','u','l','l')
 	}
 	return dst
@@ -761,6 +771,9 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 
 	formatSpace := func(level int) {
 		for i := 0;i<level;i++{
@@ -834,7 +847,11 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		formatSpace(level)
 		dst = append(dst, ']')
 	case VT_Float,VT_Double:
-		dst = strconv.AppendFloat(dst,v.Double(),'f',-1,64)
+		if vf := v.Double();math.IsNaN(vf) || math.IsInf(vf,0){
+			dst = append(dst,'n','u','l','l') //Json没有NaN和Inf
+		}else{
+			dst = strconv.AppendFloat(dst,vf,'f',-1,64)
+		}
 	case VT_RawString:
 		dst = append(dst,'"')
 		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
@@ -857,7 +874,11 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
-	case VT_NULL:
+	case VT_ExBinary:
+		dst = append(dst,"\"Bin("...)
+		dst = append(dst,DxCommonLib.Bin2Hex(v.Binary())...)
+		dst = append(dst,')','"')
+	default:
 		dst = append(dst,'n','u','l','l')
 	}
 	return dst
-- 
2.43.0


From ec5d4d214af964413da007d060125c29bba98bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 25/45] fix: equality compares both lengths, letter case and
 unescaped text

---
 dxvalue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 9a8a94c..178ce49 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -504,7 +504,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	if v.DataType != value.DataType {
 		if v.DataType == VT_String && value.DataType == VT_RawString ||
 			value.DataType == VT_String && v.DataType == VT_RawString{
-			return strings.EqualFold(v.String(),value.String())
+			return v.String() == value.String()
 		}
 		if v.DataType >= VT_Int && v.DataType <= VT_Double && value.DataType >= VT_Int && value.DataType <= VT_Double{
 			return v.Double() == value.Double()
@@ -513,7 +513,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 	}
 	switch v.DataType {
 	case VT_String,VT_RawString:
-		return v.fstrvalue == value.fstrvalue
+		return v.String() == value.String()
 	case VT_Binary,VT_ExBinary:
 		return bytes.Compare(v.fbinary,value.fbinary) == 0
 	case VT_Object:
@@ -529,7 +529,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
-- 
2.43.0


From 0b2f0881a5ab3d8a3ffa6094431f5065e7d63353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:47 +0000
Subject: [PATCH 26/45] fix: clone and CopyFrom keep binaries, extension types
 and nil members

---
 dxvalue.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 178ce49..6cf22e4 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -569,10 +569,11 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
-	if v.DataType >= VT_True{ //系统固定的值不变更
+	if v == nil || v.ReadOnly(){ //系统固定的值不变更
 		return v
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -580,6 +581,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
 		rootv.fstrvalue = v.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append([]byte(nil),v.fbinary...)
 	case VT_Object:
 		rootv.fobject.keysUnescaped = v.fobject.keysUnescaped
 		for i := 0; i<len(v.fobject.strkvs);i++{
@@ -619,10 +622,11 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
-	if v.ReadOnly(){
+	if v.ReadOnly() || fromv == nil || v == fromv{
 		return
 	}
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -641,6 +645,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append([]byte(nil),fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From 99ac8755b1ef7854aee682d805b109939799b43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 27/45] fix: AddFrom must not add a value to itself or mix
 escaped and unescaped keys

---
 dxvalue.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 6cf22e4..b098943 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -599,15 +599,20 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
-	if v.ReadOnly(){
+	if v.ReadOnly() || fromv == nil || v == fromv || fromv.DataType > VT_Array{
 		return
 	}
+	if v.DataType != fromv.DataType{
+		v.Reset(fromv.DataType)
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
+		//两边的键值的转义状态必须一致
+		fromv.fobject.UnEscapestrs()
+		v.fobject.UnEscapestrs()
 		for i := 0; i<len(fromv.fobject.strkvs);i++{
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
-- 
2.43.0


From 2a7a9da752d35fc70031ab23b782882f09d5b808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 28/45] fix: merging objects visits every member and reports
 exact paths

---
 dxvalue.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index b098943..b4c5f8f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -431,7 +431,10 @@ type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
 func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
 	mergeOp := MO_Normal
+	value.fobject.UnEscapestrs()
+	pathlen := len(parentpath)
 	for i := 0;i<len(value.fobject.strkvs);i++{
+		parentpath = parentpath[:pathlen]
 		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
 		if idx != -1{
 			if mergefunc!=nil{
@@ -439,21 +442,23 @@ func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte
 					parentpath = append(parentpath,'/')
 				}
 				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
+				mergeOp = mergefunc(string(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
 			}
 			if mergeOp == MO_Normal{
-				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
+				oldv,newv := v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V
+				if oldv != nil && newv != nil && oldv.DataType == VT_Object && newv.DataType == VT_Object{
+					parentpath = mergeObject(parentpath,oldv,newv,mergefunc)
+				}else if oldv != nil && newv != nil && oldv.DataType == VT_Array && newv.DataType == VT_Array{
+					oldv.MergeWith(newv,mergefunc)
 				}else{
 					//合并成数组
-					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-					v.fobject.strkvs[idx].V.Reset(VT_Array)
-					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
-					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
+					arr := NewArray(false)
+					arr.SetIndexValue(0,oldv.clone(nil))
+					arr.SetIndexValue(1,newv.clone(nil))
+					v.fobject.strkvs[idx].V = arr
 				}
 			}else if mergeOp == MO_Replace{
 				//直接替换
-				v.fobject.strkvs[idx].V.Reset(VT_NULL)
 				v.fobject.strkvs[idx].V = value.fobject.strkvs[i].V.clone(nil)
 			}
 		}else{
-- 
2.43.0


From 1d8af980a8a741dee3188de37eae89526a652188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:22 +0000
Subject: [PATCH 29/45] fix: Bool reads floats and times as what they are

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index b4c5f8f..a743fcd 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -923,7 +923,7 @@ func (v *DxValue)SetKeyTime(Name string,value time.Time)  {
 
 func (v *DxValue)Bool()bool  {
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
-		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
+		return v.Double() > 0
 	}
 	switch v.DataType {
 	case VT_True:
-- 
2.43.0


From 664f2e9735371b1ea15c233b4a3729b31f997c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:22 +0000
Subject: [PATCH 30/45] fix: Visit and KeyNameByIndex give unescaped keys

---
 dxvalue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index a743fcd..c6d4a7b 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1384,6 +1384,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
+			v.fobject.UnEscapestrs()
 			return v.fobject.strkvs[idx].K
 		}
 	}
@@ -1393,6 +1394,7 @@ func (v *DxValue)KeyNameByIndex(idx int)string  {
 func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
 				return
-- 
2.43.0


From 2926cee561dba52e555c28588136dde8d4c97d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 31/45] fix: setting the type of a nil member must not panic

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index c6d4a7b..5c56e85 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1191,7 +1191,7 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 	idx := v.fobject.indexByName(Name)
 	if idx >= 0{
 		result := v.fobject.strkvs[idx].V
-		if result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
+		if result == nil || result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
 		}else if result.DataType != tp {
-- 
2.43.0


From b34f1bf42dcdbdbc22760715e813a2bbe58447ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 32/45] fix: replacing binary content never writes into a
 shared buffer

---
 bin_value.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..1f527dc 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -29,10 +29,11 @@ func (v *DxValue)BinLen()int  {
 
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
+		//内容可能是和外部共享的，不能直接修改
 		if len(v.fbinary) > 0{
-			v.fbinary[0] = t
+			v.fbinary = append([]byte{t},v.fbinary[1:]...)
 		}else{
-			v.fbinary = append(v.fbinary,t)
+			v.fbinary = []byte{t}
 		}
 	}
 }
@@ -55,18 +56,18 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			v.fbinary = append([]byte(nil),b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
+			v.fbinary = append([]byte(nil),v.fbinary[0])
 			v.fbinary = append(v.fbinary,b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-				v.fbinary = append(v.fbinary[:0],b...)
+				v.fbinary = append([]byte(nil),b...)
 			}else{
 				v.fbinary = b
 			}
-- 
2.43.0


From c7379ddfeba092f6d4da225043a0ded777d7310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 33/45] fix: SaveBinaryToFile opens the file for writing

---
 bin_value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin_value.go b/bin_value.go
index 1f527dc..e25ffd8 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -77,7 +77,7 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 
 func (v *DxValue)SaveBinaryToFile(fileName string)error  {
 	if  v.DataType == VT_Binary || v.DataType == VT_ExBinary{
-		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC,0644);err == nil{
+		if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0644);err == nil{
 			defer file.Close()
 			if v.DataType == VT_Binary{
 				_,err := file.Write(v.fbinary)
-- 
2.43.0


From 8fcddab5e2382cbad1e8d24b6ef8ce375916bad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:25 +0000
Subject: [PATCH 34/45] fix: Value2File reports a failed BOM write

---
 jsonparse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonparse.go b/jsonparse.go
index cde7985..c5e6d08 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -899,7 +899,9 @@ func Value2File(v *DxValue, fileName string,BOMFile,format bool)error{
 	if file,err := os.OpenFile(fileName,os.O_CREATE | os.O_TRUNC | os.O_WRONLY,0666);err == nil{
 		defer file.Close()
 		if BOMFile{
-			file.Write([]byte{0xEF,0xBB,0xBF})
+			if _,err := file.Write([]byte{0xEF,0xBB,0xBF});err != nil{
+				return err
+			}
 		}
 		var dst []byte
 		if format{
-- 
2.43.0


From e596a6d6a2cd59a4a13e3dd3997b82e369c2cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 35/45] fix: nil pointers at any level are skipped when
 converting Go values

---
 reflect_parse.go | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..851467f 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -186,7 +186,16 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	return true
 }
 
+//是否是空指针
+func isNilPointer(value interface{})bool  {
+	rv := reflect.ValueOf(value)
+	return rv.Kind() == reflect.Ptr && rv.IsNil()
+}
+
 func (v *DxValue)SetValue(value interface{})  {
+	if isNilPointer(value){
+		return
+	}
 	if v == valueNAN || v == valueINF || v == valueTrue || v == valueFalse || v == valueNull{
 		return
 	}
@@ -354,6 +363,9 @@ func (v *DxValue)SetValue(value interface{})  {
 				if fv.Kind() == reflect.Ptr{
 					fv = fv.Elem()
 				}
+				if !fv.IsValid(){ //空指针
+					continue
+				}
 				switch fv.Kind() {
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
 					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -373,11 +385,11 @@ func (v *DxValue)SetValue(value interface{})  {
 				default:
 					if fv.CanInterface(){
 						fvtp := fv.Type()
-						if fvtp.Implements(ValueMarshalerType){
-							fv.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(sfield.Name,VT_Int,cache))
+						if marshaler,ok := fv.Interface().(DxValueMarshaler);ok && !isNilPointer(marshaler){
+							marshaler.EncodeToDxValue(v.SetKeyCached(sfield.Name,VT_Int,cache))
 						}else if fvtp == TimeType{
 							v.SetKeyCached(sfield.Name,VT_DateTime,cache).SetTime(fv.Interface().(time.Time))
-						}else if fvtp == TimePtrType{
+						}else if fvtp == TimePtrType && !fv.IsNil(){
 							v.SetKeyCached(sfield.Name,VT_DateTime,cache).SetTime(*(fv.Interface().(*time.Time)))
 						}else{
 							v.SetKeyvalue(sfield.Name,fv.Interface(),cache)
@@ -404,6 +416,9 @@ func (v *DxValue)SetValue(value interface{})  {
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
+				if !rvalue.IsValid(){ //空指针
+					continue
+				}
 				switch rvalue.Kind() {
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
@@ -424,11 +439,11 @@ func (v *DxValue)SetValue(value interface{})  {
 				default:
 					if rvalue.CanInterface(){
 						rvType := rvalue.Type()
-						if rvType.Implements(ValueMarshalerType){
-							rvalue.Interface().(DxValueMarshaler).EncodeToDxValue(v.SetKeyCached(kv.String(),VT_Int,cache))
+						if marshaler,ok := rvalue.Interface().(DxValueMarshaler);ok && !isNilPointer(marshaler){
+							marshaler.EncodeToDxValue(v.SetKeyCached(kv.String(),VT_Int,cache))
 						}else if rvType == TimeType{
 							v.SetKeyCached(kv.String(),VT_DateTime,cache).SetTime(rvalue.Interface().(time.Time))
-						}else if rvType == TimePtrType{
+						}else if rvType == TimePtrType && !rvalue.IsNil(){
 							v.SetKeyCached(kv.String(),VT_DateTime,cache).SetTime(*(rvalue.Interface().(*time.Time)))
 						}else{
 							v.SetKeyvalue(kv.String(),rvalue.Interface(),cache)
@@ -455,6 +470,9 @@ func (v *DxValue)SetValue(value interface{})  {
 }
 
 func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
+	if isNilPointer(value){
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(realv))
@@ -610,6 +628,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				if fv.Kind() == reflect.Ptr{
 					fv = fv.Elem()
 				}
+				if !fv.IsValid(){ //空指针
+					continue
+				}
 				switch fv.Kind() {
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
 					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -650,6 +671,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
+				if !rvalue.IsValid(){ //空指针
+					continue
+				}
 				switch rvalue.Kind() {
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
@@ -691,6 +715,9 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 }
 
 func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
+	if isNilPointer(value){
+		return
+	}
 	switch realv := value.(type) {
 	case int:
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(realv))
@@ -840,6 +867,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				if fv.Kind() == reflect.Ptr{
 					fv = fv.Elem()
 				}
+				if !fv.IsValid(){ //空指针
+					continue
+				}
 				switch fv.Kind() {
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
 					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
@@ -880,6 +910,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 				if rvalue.Kind() == reflect.Ptr{
 					rvalue = rvalue.Elem()
 				}
+				if !rvalue.IsValid(){ //空指针
+					continue
+				}
 				switch rvalue.Kind() {
 				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(kv.String(),VT_Int,cache).SetInt(rvalue.Int())
@@ -923,6 +956,9 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 
 //转换到标砖的数据
 func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
+	if isNilPointer(destv){
+		return false
+	}
 	switch value := destv.(type) {
 	case int,int8,int16,int32,int64,uint,uint8,uint16,uint32,uint64,[]byte,string:
 		return false
-- 
2.43.0


From 27f96e64bcfb873c9dffe912d42102c4e1eabf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 36/45] fix: unsigned struct fields must not panic

---
 reflect_parse.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index 851467f..cba55b1 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -367,9 +367,10 @@ func (v *DxValue)SetValue(value interface{})  {
 					continue
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					v.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						v.SetKeyValue(sfield.Name,valueTrue)
@@ -632,9 +633,10 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 					continue
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
@@ -871,9 +873,10 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 					continue
 				}
 				switch fv.Kind() {
-				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64,
-					reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+				case reflect.Int,reflect.Int8,reflect.Int16,reflect.Int32,reflect.Int64:
 					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(fv.Int())
+				case reflect.Uint,reflect.Uint8,reflect.Uint16,reflect.Uint32,reflect.Uint64:
+					newv.SetKeyCached(sfield.Name,VT_Int,cache).SetInt(int64(fv.Uint()))
 				case reflect.Bool:
 					if fv.Bool(){
 						newv.SetKeyValue(sfield.Name,valueTrue)
-- 
2.43.0


From 373ab07c166f3df4b5bca0dcb486c2002510cc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 37/45] fix: loading into unexported fields, pre-sized slices
 and nil unmarshalers must not panic

---
 reflect_parse.go | 55 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index cba55b1..d2e17fb 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -14,9 +14,12 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 			fld := valueType.Field(i)
 			if ignoreCase && strings.EqualFold(Key,fld.Name) || Key == fld.Name{
 				childreflectv := fvalue.Field(i)
+				if !childreflectv.CanSet() || childvalue == nil{ //未导出的字段，或者没有值
+					break
+				}
 				tp := fld.Type
 				if tp.Implements(ValueUnMarshalerType){
-					childreflectv.Interface().(DxValueUnMarshaler).DecodeFromDxValue(childvalue)
+					decodeByUnMarshaler(childreflectv,childvalue)
 					break
 				}
 				vhandler,ok := structTypePool.Load(tp)
@@ -54,6 +57,24 @@ func decode2reflectFromdxValue(fvalue reflect.Value,value *DxValue,ignoreCase bo
 	})
 }
 
+func decodeByUnMarshaler(fvalue reflect.Value,value *DxValue)  {
+	if fvalue.Kind() == reflect.Ptr && fvalue.IsNil(){
+		fvalue.Set(reflect.New(fvalue.Type().Elem()))
+	}
+	if unMarshaler,ok := fvalue.Interface().(DxValueUnMarshaler);ok && !isNilPointer(unMarshaler){
+		unMarshaler.DecodeFromDxValue(value)
+	}
+}
+
+//空的节点当null处理
+func arrayNode(arrvalue *DxValue,idx int)*DxValue  {
+	node := arrvalue.ValueByIndex(idx)
+	if node == nil{
+		return valueNull
+	}
+	return node
+}
+
 func growSliceValue(v reflect.Value, n int) reflect.Value {
 	diff := n - v.Len()
 	if diff > 256 {
@@ -71,27 +92,23 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 	if n == 0{
 		return false
 	}
-	var vtype reflect.Type
+	vtype := sliceValue.Type().Elem()
 	if sliceValue.Cap() == 0{
 		vslice := reflect.MakeSlice(sliceValue.Type(), n, n)
-		sv := vslice.Index(0)
-		vtype = sv.Type()
 		sliceValue.Set(vslice.Slice(0, n))
 	}else if sliceValue.Cap() >= n {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, n))
 	} else if sliceValue.Len() < sliceValue.Cap() {
-		vtype = sliceValue.Slice(1,1).Field(0).Type()
 		sliceValue.Set(sliceValue.Slice(0, sliceValue.Cap()))
 	}
 
 	if vtype.Implements(ValueUnMarshalerType){
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Interface().(DxValueUnMarshaler).DecodeFromDxValue(arrNode)
+			decodeByUnMarshaler(sliceValue.Index(i),arrNode)
 		}
 		return true
 	}
@@ -101,11 +118,11 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		convertHandler := vhandler.(StdValueFromDxValue)
 		if convertHandler != nil{
 			for i := 0;i<n;i++{
-				arrNode := arrvalue.ValueByIndex(i)
+				arrNode := arrayNode(arrvalue,i)
 				if i >= sliceValue.Len() {
 					sliceValue.Set(growSliceValue(sliceValue, n))
 				}
-				convertHandler(sliceValue.Field(i),arrNode)
+				convertHandler(sliceValue.Index(i),arrNode)
 			}
 			return true
 		}
@@ -113,18 +130,18 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 
 	if vtype == TimeType{
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-			sliceValue.Field(i).Set(reflect.ValueOf(arrNode.GoTime()))
+			sliceValue.Index(i).Set(reflect.ValueOf(arrNode.GoTime()))
 		}
 		return true
 	}
 	switch vtype.Kind() {
 	case reflect.String:
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
@@ -132,7 +149,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		}
 	case reflect.Int,reflect.Int64,reflect.Int8,reflect.Int16,reflect.Int32:
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
@@ -140,7 +157,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		}
 	case reflect.Uint,reflect.Uint64,reflect.Uint8,reflect.Uint16,reflect.Uint32:
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
@@ -148,7 +165,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		}
 	case reflect.Float32,reflect.Float64:
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
@@ -156,7 +173,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		}
 	case reflect.Bool:
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
@@ -164,7 +181,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		}
 	case reflect.Slice:
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
@@ -172,7 +189,7 @@ func decodeArray2reflect(sliceValue reflect.Value,arrvalue *DxValue,ignoreCase b
 		}
 	case reflect.Struct:
 		for i := 0;i<n;i++{
-			arrNode := arrvalue.ValueByIndex(i)
+			arrNode := arrayNode(arrvalue,i)
 			if i >= sliceValue.Len() {
 				sliceValue.Set(growSliceValue(sliceValue, n))
 			}
-- 
2.43.0


From cef10dc2dbc031d37bebf9afd14d748309f9c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:35 +0000
Subject: [PATCH 38/45] fix: arrays are really written to slice destinations,
 nil maps and members must not panic

---
 reflect_parse.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/reflect_parse.go b/reflect_parse.go
index d2e17fb..fc495d0 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -1015,18 +1015,24 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 	case *float32:
 		*value = v.Float()
 	case map[string]string:
-		if v.DataType != VT_Object{
+		if v.DataType != VT_Object || value == nil{
 			return false
 		}
 		v.Visit(func(Key string, mapvalue *DxValue) bool {
+			if mapvalue == nil{
+				mapvalue = valueNull
+			}
 			value[Key] = mapvalue.String()
 			return true
 		})
 	case map[string]interface{}:
-		if v.DataType != VT_Object{
+		if v.DataType != VT_Object || value == nil{
 			return false
 		}
 		v.Visit(func(Key string, mapvalue *DxValue) bool {
+			if mapvalue == nil{
+				mapvalue = valueNull
+			}
 			switch mapvalue.DataType {
 			case VT_Object:
 				newvalue := make(map[string]interface{},mapvalue.Count())
@@ -1061,7 +1067,11 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		if v.DataType != VT_Array{
 			return false
 		}
+		value = value[:0:len(value)] //直接写入到目标中
 		v.Visit(func(Key string, arrvalue *DxValue) bool {
+			if arrvalue == nil{
+				arrvalue = valueNull
+			}
 			switch arrvalue.DataType {
 			case VT_Object:
 				newvalue := make(map[string]interface{},arrvalue.Count())
@@ -1096,7 +1106,11 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		if v.DataType != VT_Array{
 			return false
 		}
+		value = value[:0:len(value)] //直接写入到目标中
 		v.Visit(func(Key string, arrvalue *DxValue) bool {
+			if arrvalue == nil{
+				arrvalue = valueNull
+			}
 			value = append(value,arrvalue.String())
 			return true
 		})
@@ -1115,15 +1129,15 @@ func (v *DxValue)ToStdValue(destv interface{},ignoreCase bool)bool  {
 		reflectv = reflectv.Elem()
 		valueType := reflectv.Type()
 
-		if v.DataType != VT_Object{
-			return false
-		}
 		//反射处理,只处理结构体
 		switch valueType.Kind() {
 		case reflect.Struct:
+			if v.DataType != VT_Object{
+				return false
+			}
 			decode2reflectFromdxValue(reflectv,v,ignoreCase,valueType)
 		case reflect.Slice:
-			decodeArray2reflect(reflectv,v,ignoreCase)
+			return decodeArray2reflect(reflectv,v,ignoreCase)
 		default:
 			return false
 		}
-- 
2.43.0


From bad623627a0b239ef50079c692b2ac0dfbb25365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:35 +0000
Subject: [PATCH 39/45] fix: SetValue stores times and binaries as SetKeyvalue
 and SetIndexvalue do

---
 reflect_parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index fc495d0..1c56d2e 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -268,8 +268,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *bool:
 		v.SetBool(*realv)
 	case time.Time:
+		v.Reset(VT_DateTime)
 		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(realv)))
 	case *time.Time:
+		v.Reset(VT_DateTime)
 		v.SetDouble(float64(DxCommonLib.Time2DelphiTime(*realv)))
 	case float32:
 		v.SetFloat(realv)
@@ -280,8 +282,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(realv,true)
 	case *[]byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
-- 
2.43.0


From 905b394b46e2c6c210108150a9df8b2010812082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:00 +0000
Subject: [PATCH 40/45] fix: FreeValue no longer writes to the shared constant
 values

---
 cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5d0ba5f..f48bc37 100644
--- a/cache.go
+++ b/cache.go
@@ -65,7 +65,7 @@ func (c *ValueCache)Reset(toRoot bool)  {
 
 //释放Value回收ValueCache
 func FreeValue(v *DxValue)  {
-	if v == nil{
+	if v == nil || v.ReadOnly(){ //系统固定的值不回收
 		return
 	}
 	v.Clear()
-- 
2.43.0


From 97bc406e98119c41fefe5d02e3ea0a20db7d97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:35 +0000
Subject: [PATCH 41/45] fix: keep 64-bit integers of YAML scalars at full width

---
 yamlparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 7ca403e..1e69335 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/suiyunonghen/DxCommonLib"
+	"strconv"
 	"sync"
 )
 
@@ -438,6 +439,11 @@ func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bo
 		target.SetBool(false)
 		return
 	}
+	//整数按照int64处理，否则会丢失精度
+	if vint,err := strconv.ParseInt(string(vstr),10,64);err == nil{
+		target.SetInt(vint)
+		return
+	}
 	if vfloat,err := DxCommonLib.ParseFloat(DxCommonLib.FastByte2String(vstr));err == nil{
 		target.SetDouble(vfloat)
 		return
-- 
2.43.0


From 9c9be82df63e0ec398853cfd6e067d237640213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:03 +0000
Subject: [PATCH 42/45] fix: BSON dates outside 1678-2262 no longer overflow on
 the way through nanoseconds

---
 bson_parse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad6fb91..93f2833 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -264,8 +264,8 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		if len(b) < 8{
 			return 0,0,ErrInvalidBSON
 		}
-		vunix := time.Duration(binary.LittleEndian.Uint64(b[:8])) * time.Millisecond
-		value.SetTime(time.Date(1970,1,1,0,0,0,0,time.UTC).Add(vunix))
+		unixMillisecond := int64(binary.LittleEndian.Uint64(b[:8]))
+		value.SetTime(time.Unix(unixMillisecond/1000,unixMillisecond%1000*int64(time.Millisecond)).UTC())
 		return 8,8,nil
 	case BSON_Null:
 		//啥都不干
@@ -445,7 +445,8 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 	case VT_Float,VT_Double:
 		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
 	case VT_DateTime:
-		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
+		vtime := v.GoTime()
+		unixMillisecond := vtime.Unix()*1000 + int64(vtime.Nanosecond())/int64(time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
 	case VT_Binary:
 		switch v.ExtType {
-- 
2.43.0


From bc960217eee12632e5d8378c9344963bc07e1fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:41 +0000
Subject: [PATCH 43/45] fix: SetValue of a float64 on a date kept the date type

---
 reflect_parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index 1c56d2e..ef7537a 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -278,8 +278,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float32:
 		v.SetFloat(*realv)
 	case float64:
+		v.Reset(VT_Double)
 		v.SetDouble(realv)
 	case *float64:
+		v.Reset(VT_Double)
 		v.SetDouble(*realv)
 	case []byte:
 		v.Reset(VT_Binary)
-- 
2.43.0


From 8f7962df147a8c5de23f8b80b9a5b8382d353a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:26 +0000
Subject: [PATCH 44/45] fix: LoadFromJson of a document of white space kept the
 old value

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 5c56e85..f956e3c 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -282,10 +282,10 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 		return ErrReadOnlyValue
 	}
 	v.Clear()
-	b,_ = skipWB(b)
 	if len(b) == 0{
 		return nil
 	}
+	b,_ = skipWB(b)
 	tail,err := parseJson2Value(b,v,sharebinary)
 	if err != nil{
 		return err
-- 
2.43.0


From 4a5a37c0028b4eb4ca1f9401fad8268e65863e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:27 +0000
Subject: [PATCH 45/45] fix: LoadFromYaml of a document without content kept
 the old type

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index f956e3c..b48cffa 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -309,6 +309,7 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_NULL) //没有任何内容的文档
 	parser := newyamParser()
 	parser.parseData = b
 	parser.usecache = false
-- 
2.43.0

