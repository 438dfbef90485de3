From 68abf20d071f787d5ac6b294e1defed7474125bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 01/70] fix: do not skip a closing quote that follows an
 escaped backslash

A string such as "\\\\" was scanned past its closing quote because the
byte before the first quote is a backslash, even when that backslash is
itself escaped.
---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index ee0ffb2..018be47 100644
--- a/parser.go
+++ b/parser.go
@@ -144,8 +144,8 @@ readString:
 		i := strings.IndexByte(s, delimString) - 1
 		if 0 <= i && i < len(s) {
 			if s[i] == delimEscape {
-				// Advance past '\' and '"' and scan the remaining string
-				for i += 2; 0 <= i && i < len(s); i++ { // Avoid bounds check
+				// The '\' might itself be escaped so rescan from the first '\'
+				for i = strings.IndexByte(s, delimEscape); 0 <= i && i < len(s); i++ { // Avoid bounds check
 					switch s[i] {
 					case delimString:
 						// Slice until the closing quote
-- 
2.43.0


From 885f0dc7544a6758adb838f73976842b34e66321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:00 +0000
Subject: [PATCH 02/70] fix: reject a misspelled literal near the end of the
 input

Text such as "tr]" was reported as incomplete because fewer than four bytes
were left, although nothing appended to it makes it a literal.
---
 parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.go b/parser.go
index 018be47..d11a246 100644
--- a/parser.go
+++ b/parser.go
@@ -178,6 +178,9 @@ readTrue:
 		}
 		return p.abort(pos, TypeBoolean, s, strTrue)
 	}
+	if !strings.HasPrefix(strTrue, s) {
+		return p.abort(pos, TypeBoolean, s, strTrue)
+	}
 	return p.eof(TypeBoolean, pos)
 readFalse:
 	info |= vBoolean
@@ -188,6 +191,9 @@ readFalse:
 		}
 		return p.abort(pos, TypeBoolean, s, strFalse)
 	}
+	if !strings.HasPrefix(strFalse, s) {
+		return p.abort(pos, TypeBoolean, s, strFalse)
+	}
 	return p.eof(TypeBoolean, pos)
 readNull:
 	info |= vNull
@@ -198,6 +204,9 @@ readNull:
 		}
 		return p.abort(pos, TypeNull, s, strNull)
 	}
+	if !strings.HasPrefix(strNull, s) {
+		return p.abort(pos, TypeNull, s, strNull)
+	}
 	return p.eof(TypeNull, pos)
 done:
 	n := p.node()
-- 
2.43.0


From 380fd8c3d0d928b520f5b672cd6fa7fac5eff8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 03/70] fix: do not mark copies of a node as free-standing

A copy made while inserting kept the root flag of its source, so inserting
the copy again linked the same node under two parents.
---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index ea8a555..5c9409c 100644
--- a/document.go
+++ b/document.go
@@ -304,7 +304,7 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 	values := cp.values[:cap(cp.values)]
 	*cp = node{
 		raw:  n.raw,
-		info: n.info,
+		info: n.info &^ infRoot, // the copy is about to be linked to a parent
 	}
 	numV := uint(0)
 	for i := range n.values {
-- 
2.43.0


From 584dcb12af73b48e04c4235c9bd0157cc5d409ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 04/70] fix: copy a node that is inserted into its own
 descendant

Linking it in place made the tree cyclic and serializing it never ended.
---
 document.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 5c9409c..d5faa05 100644
--- a/document.go
+++ b/document.go
@@ -340,13 +340,29 @@ func (d *Document) ncopy(other *Document, n *node) uint {
 // 	return id
 // }
 
+// contains checks if node to is a descendant of node id.
+func (d *Document) contains(id, to uint) bool {
+	if n := d.get(to); n == nil || n.info.IsRoot() {
+		// A root node has no parent.
+		return false
+	}
+	if n := d.get(id); n != nil {
+		for i := range n.values {
+			if v := n.values[i].id; v == to || d.contains(v, to) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (d *Document) copyOrAdopt(other *Document, id, to uint) uint {
 	n := other.get(id)
 	if n == nil {
 		return maxUint
 	}
 	if other == d {
-		if id != to && n.info.IsRoot() && id != 0 {
+		if id != to && n.info.IsRoot() && id != 0 && !d.contains(id, to) {
 			n.info &^= infRoot
 			return id
 		}
-- 
2.43.0


From 2b9ddbde86056ab3c65e1c156e611b0fb2825c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 05/70] fix: do not append an invalid node to an array

Set and Replace ignore it, Append left a dangling element that made the
whole document fail to serialize.
---
 node.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 2fd55ec..a6fcf2d 100644
--- a/node.go
+++ b/node.go
@@ -300,10 +300,13 @@ func (n Node) Append(values ...Node) {
 	if nn := n.get(); nn != nil && nn.info.IsArray() {
 		vv := nn.values
 		for _, v := range values {
-			vv = append(vv, V{
-				id:  n.doc.copyOrAdopt(v.Document(), v.ID(), n.id),
-				key: "",
-			})
+			id := n.doc.copyOrAdopt(v.Document(), v.ID(), n.id)
+			if id < maxUint {
+				vv = append(vv, V{
+					id:  id,
+					key: "",
+				})
+			}
 		}
 		// copyOrAdopt might grow nodes array invalidating nn pointer
 		n.doc.nodes[n.id].values = vv
-- 
2.43.0


From c7d9ba7da14b49e9d18623d658fc5abe972e6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:19 +0000
Subject: [PATCH 06/70] fix: allow Slice to keep the last element and to keep
 none

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index a6fcf2d..7b642de 100644
--- a/node.go
+++ b/node.go
@@ -317,7 +317,7 @@ func (n Node) Append(values ...Node) {
 
 // Slice reslices an Array node.
 func (n Node) Slice(i, j int) {
-	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i < j && j < len(n.values) {
+	if n := n.get(); n != nil && n.info.IsArray() && 0 <= i && i <= j && j <= len(n.values) {
 		n.values = n.values[i:j]
 	}
 }
-- 
2.43.0


From 38e185300b97930dd4ae69654e77cc53ea58a6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:21 +0000
Subject: [PATCH 07/70] fix: do not look up an array element by an empty or
 overflowing position

---
 document.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index d5faa05..1251c3d 100644
--- a/document.go
+++ b/document.go
@@ -76,9 +76,12 @@ lookup:
 					}
 				}
 			case TypeArray:
+				if key == "" {
+					return maxUint
+				}
 				i := 0
 				for _, c := range []byte(key) {
-					if c -= '0'; 0 <= c && c <= 9 {
+					if c -= '0'; 0 <= c && c <= 9 && i < len(n.values) {
 						i = i*10 + int(c)
 					} else {
 						return maxUint
-- 
2.43.0


From 92d53c50cdb30241f98ac21c4d638f8be4ce791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:43 +0000
Subject: [PATCH 08/70] fix: strip a key inside arrays and when it is
 duplicated

---
 node.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/node.go b/node.go
index 7b642de..59ca4ba 100644
--- a/node.go
+++ b/node.go
@@ -349,24 +349,29 @@ func (n Node) Remove(i int) {
 
 // Strip recursively deletes a key from a node.
 func (n Node) Strip(key string) {
-	if nn := n.get(); nn != nil && nn.info.IsObject() {
-		for i := range nn.values {
+	nn := n.get()
+	if nn == nil {
+		return
+	}
+	if nn.info.IsObject() {
+		for i := 0; i < len(nn.values); {
 			v := &nn.values[i]
-			if key == v.key {
-				if j := len(nn.values) - 1; 0 <= j && j < len(nn.values) {
-					nn.values[i] = nn.values[j]
-					nn.values[j] = V{}
-					nn.values = nn.values[:j]
-					for j := i; 0 <= j && j < len(nn.values); j++ {
-						n.With(nn.values[j].id).Strip(key)
-					}
-				}
-				return
+			if key != v.key {
+				n.With(v.id).Strip(key)
+				i++
+				continue
+			}
+			if j := len(nn.values) - 1; 0 <= j && j < len(nn.values) {
+				nn.values[i] = nn.values[j]
+				nn.values[j] = V{}
+				nn.values = nn.values[:j]
 			}
-			n.With(v.id).Strip(key)
+		}
+	} else if nn.info.IsArray() {
+		for i := range nn.values {
+			n.With(nn.values[i].id).Strip(key)
 		}
 	}
-
 }
 
 // Del finds a key in an Object node's values and removes it.
-- 
2.43.0


From b3b33506a64d7b2d2cfdd75db51ed47188389f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 09/70] fix: unescape object keys when converting to a Go map

---
 document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 1251c3d..ccf1857 100644
--- a/document.go
+++ b/document.go
@@ -229,7 +229,7 @@ func (d *Document) toInterfaceMap(values []V) (interface{}, bool) {
 		ok bool
 	)
 	for _, v := range values {
-		m[v.key], ok = d.toInterface(v.id)
+		m[strjson.Unescaped(v.key)], ok = d.toInterface(v.id)
 		if !ok {
 			return nil, false
 		}
-- 
2.43.0


From f4a30dab068cae1be3a8da5103841a45c0046a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 10/70] fix: pass unescaped text to a TextUnmarshaler

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 59ca4ba..d105574 100644
--- a/node.go
+++ b/node.go
@@ -226,7 +226,7 @@ func (n Node) WrapUnmarshalText(u encoding.TextUnmarshaler) (err error) {
 		switch t := node.info.Type(); t {
 		case TypeString:
 			buf := bufferpool.Get().([]byte)
-			buf = append(buf[:0], node.raw...)
+			buf = strjson.AppendUnescaped(buf[:0], node.raw)
 			err = u.UnmarshalText(buf)
 			bufferpool.Put(buf)
 			return
-- 
2.43.0


From ce908c593b5ae46c39d32effbe666389452ca210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:47 +0000
Subject: [PATCH 11/70] fix: keep the buffer when serializing an invalid node

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index d105574..656bff8 100644
--- a/node.go
+++ b/node.go
@@ -63,7 +63,7 @@ func (n Node) AppendJSON(dst []byte) ([]byte, error) {
 	if nn := n.get(); nn != nil {
 		return n.doc.appendJSON(dst, nn)
 	}
-	return nil, &typeError{TypeInvalid, TypeAnyValue}
+	return dst, newTypeError(TypeInvalid, TypeAnyValue)
 }
 
 // Raw returns the JSON string of a Node's value.
-- 
2.43.0


From ca7cc9f6d62cd91961203ca37d409a0984c96f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 12/70] fix: do not convert the text of a string node to a
 number

ToBool and Unescaped refuse nodes of another kind, ToFloat, ToInt and ToUint
converted the escaped text of a string, so a string was silently decoded
into a number.
---
 node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 656bff8..dd66ee4 100644
--- a/node.go
+++ b/node.go
@@ -93,7 +93,7 @@ func (n Node) Data() (string, Type) {
 
 // ToFloat converts a node's value to float64.
 func (n Node) ToFloat() (float64, bool) {
-	if n := n.get(); n != nil {
+	if n := n.get(); n != nil && n.info.IsNumber() {
 		f := numjson.ParseFloat(n.raw)
 		return f, f == f
 	}
@@ -102,7 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
-	if n := n.get(); n != nil {
+	if n := n.get(); n != nil && n.info.IsNumber() {
 		f := numjson.ParseFloat(n.raw)
 		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
 	}
@@ -111,7 +111,7 @@ func (n Node) ToInt() (int64, bool) {
 
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
-	if n := n.get(); n != nil {
+	if n := n.get(); n != nil && n.info.IsNumber() {
 		f := numjson.ParseFloat(n.raw)
 		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
 	}
-- 
2.43.0


From 208fbd537e50781295d78c93b73d8f9c9c50afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:07 +0000
Subject: [PATCH 13/70] fix: do not swallow the escape that follows an unpaired
 surrogate

---
 strjson/unescape.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/strjson/unescape.go b/strjson/unescape.go
index 5c55bbd..920dd17 100644
--- a/strjson/unescape.go
+++ b/strjson/unescape.go
@@ -78,12 +78,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					// Consume the second escape only if it completes the pair
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
@@ -223,12 +225,14 @@ unescapeRune:
 		i += 5
 		if utf16.IsSurrogate(r1) {
 			if len(ss) > 10 && ss[5] == delimEscape && ss[6] == 'u' {
-				i += 6
 				r2 := rune(fromHex(ss[7])) << 12
 				r2 |= rune(fromHex(ss[8])) << 8
 				r2 |= rune(fromHex(ss[9])) << 4
 				r2 |= rune(fromHex(ss[10]))
-				r1 = utf16.DecodeRune(r1, r2)
+				if r1 = utf16.DecodeRune(r1, r2); r1 != utf8.RuneError {
+					// Consume the second escape only if it completes the pair
+					i += 6
+				}
 			} else {
 				r1 = utf8.RuneError
 			}
-- 
2.43.0


From c1f68ce0a7acb748c8413df4eb7dbfc931f5902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 14/70] fix: parse floats correctly rounded and integers
 exactly

ParseFloat added up rounded parts (0.3 gave 0.30000000000000004), overflowed
with many digits and accepted exponents such as 1e+-5. ParseInt and ParseUint
went through a float, so integers beyond 2^53 lost digits and the extremes of
the range were refused.
---
 node.go            |   7 +-
 numjson/numjson.go | 242 +++++++++++++++++++++++++--------------------
 2 files changed, 136 insertions(+), 113 deletions(-)

diff --git a/node.go b/node.go
index dd66ee4..94c13e9 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding"
 	"encoding/json"
 	"io"
-	"math"
 	"strconv"
 	"sync"
 
@@ -103,8 +102,7 @@ func (n Node) ToFloat() (float64, bool) {
 // ToInt converts a node's value to int64.
 func (n Node) ToInt() (int64, bool) {
 	if n := n.get(); n != nil && n.info.IsNumber() {
-		f := numjson.ParseFloat(n.raw)
-		return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+		return numjson.ParseInt(n.raw)
 	}
 	return 0, false
 }
@@ -112,8 +110,7 @@ func (n Node) ToInt() (int64, bool) {
 // ToUint converts a node's  value to uint64.
 func (n Node) ToUint() (uint64, bool) {
 	if n := n.get(); n != nil && n.info.IsNumber() {
-		f := numjson.ParseFloat(n.raw)
-		return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+		return numjson.ParseUint(n.raw)
 	}
 	return 0, false
 }
diff --git a/numjson/numjson.go b/numjson/numjson.go
index fb3c233..f0b2867 100644
--- a/numjson/numjson.go
+++ b/numjson/numjson.go
@@ -7,136 +7,162 @@ import (
 
 var fNaN = math.NaN()
 
-// ParseFloat parses a float number from a string.
-func ParseFloat(s string) float64 {
-	var (
-		i      uint
-		j      int
-		c      byte
-		num    uint64
-		dec    uint64
-		f      float64
-		signed bool
-	)
-	if len(s) > 0 {
-		if c = s[0]; c == '-' {
-			signed = true
-			i = 1
-		}
-		if len(s) == 1 {
-			if '0' <= c && c <= '9' {
-				return float64(c - '0')
-			}
-			return fNaN
-		}
+// pow10 holds the powers of 10 that are exact in a float64.
+var pow10 = [...]float64{
+	1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11,
+	1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22,
+}
+
+const (
+	maxExactDigits = 15      // any integer of that many digits is exact in a float64
+	maxExp         = 1 << 60 // exponents saturate here, far beyond the length of any input
+)
+
+// number is the result of scanning the text of a number.
+type number struct {
+	signed bool
+	intg   string // integer digits
+	frac   string // fraction digits
+	exp    int64  // exponent
+}
+
+func scanDigits(s string, i int) int {
+	for 0 <= i && i < len(s) && '0' <= s[i] && s[i] <= '9' {
+		i++
 	}
+	return i
+}
 
-	for ; i < uint(len(s)); i++ {
-		c = s[i]
-		if '0' <= c && c <= '9' {
-			num = num*10 + uint64(c-'0')
-			j++
-			continue
-		}
-		if j == 0 {
-			return fNaN
-		}
-		// c = s[i]
-		goto decimal
+// scan splits the text of a number to it's parts.
+func scan(s string) (n number, ok bool) {
+	i := 0
+	if len(s) > 0 && s[0] == '-' {
+		n.signed = true
+		i = 1
 	}
-	if 0 < j && j <= 18 {
-		if signed {
-			return -float64(num)
-		}
-		return float64(num)
+	j := scanDigits(s, i)
+	if j == i {
+		return n, false
 	}
-	if j == 0 {
-		return fNaN
+	n.intg = s[i:j]
+	if i = j; i < len(s) && s[i] == '.' {
+		i++
+		if j = scanDigits(s, i); j == i {
+			return n, false
+		}
+		n.frac = s[i:j]
+		i = j
 	}
-	goto fallback
-decimal:
-	if c == '.' {
-		j = 0
-		for i++; i < uint(len(s)); i++ {
-			c = s[i]
-			if '0' <= c && c <= '9' {
-				dec = 10*dec + uint64(c-'0')
-				j++
-				continue
-			}
-			if j > 0 {
-				goto scientific
-			}
-			return fNaN
+	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
+		signed := false
+		if i++; i < len(s) && (s[i] == '+' || s[i] == '-') {
+			signed = s[i] == '-'
+			i++
 		}
-		if 0 < j && j <= 18 {
-			f = float64(num) + float64(dec)*math.Pow10(-j)
-			if signed {
-				return -f
+		if j = scanDigits(s, i); j == i {
+			return n, false
+		}
+		for ; i < j; i++ {
+			if n.exp = 10*n.exp + int64(s[i]-'0'); n.exp > maxExp/10 {
+				n.exp = maxExp / 10
 			}
-			return f
 		}
-		if j == 0 {
-			return fNaN
+		if signed {
+			n.exp = -n.exp
 		}
-		goto fallback
 	}
-scientific:
-	if c == 'e' || c == 'E' {
-		signed := false
-		exp := 0
-		jj := 0
-		for i++; i < uint(len(s)); i++ {
-			c = s[i]
-			if '0' <= c && c <= '9' {
-				jj++
-				exp = 10*exp + int(c-'0')
-				continue
-			}
-			if jj == 0 {
-				switch c {
-				case '-':
-					signed = true
-					continue
-				case '+':
-					continue
-				}
-			}
-			return fNaN
+	return n, i == len(s)
+}
+
+// ParseFloat parses a float number from a string.
+func ParseFloat(s string) float64 {
+	n, ok := scan(s)
+	if !ok {
+		return fNaN
+	}
+	if len(n.intg)+len(n.frac) <= maxExactDigits {
+		num := uint64(0)
+		for _, c := range []byte(n.intg) {
+			num = 10*num + uint64(c-'0')
 		}
-		if jj == 0 {
-			return fNaN
+		for _, c := range []byte(n.frac) {
+			num = 10*num + uint64(c-'0')
 		}
-		if exp > 300 {
-			goto fallback
+		f := float64(num)
+		if n.signed {
+			f = -f
 		}
-		if signed {
-			f = (float64(num) + float64(dec)*math.Pow10(-j)) * math.Pow10(-exp)
-		} else {
-			f = float64(num)*math.Pow10(exp) + float64(dec)*math.Pow10(exp-j)
+		// Both f and the power of 10 are exact so the result is correctly rounded
+		switch exp := n.exp - int64(len(n.frac)); {
+		case exp == 0:
+			return f
+		case 0 < exp && exp < int64(len(pow10)):
+			return f * pow10[exp]
+		case 0 < -exp && -exp < int64(len(pow10)):
+			return f / pow10[-exp]
 		}
-		goto done
-	}
-	return fNaN
-done:
-	if signed {
-		return -f
 	}
+	f, _ := strconv.ParseFloat(s, 64)
 	return f
-fallback:
-	f, _ = strconv.ParseFloat(s, 64)
-	return f
-
 }
 
 // ParseInt parses an int from string
 func ParseInt(s string) (int64, bool) {
-	f := ParseFloat(s)
-	return int64(f), math.MinInt64 <= f && f < math.MaxInt64 && math.Trunc(f) == f
+	n, ok := scan(s)
+	if !ok {
+		return 0, false
+	}
+	u, ok := n.integer()
+	switch {
+	case !ok:
+		return 0, false
+	case n.signed && u <= -math.MinInt64:
+		return -int64(u), true
+	case !n.signed && u <= math.MaxInt64:
+		return int64(u), true
+	default:
+		return 0, false
+	}
 }
 
 // ParseUint parses an uint from string
 func ParseUint(s string) (uint64, bool) {
-	f := ParseFloat(s)
-	return uint64(f), 0 <= f && f < math.MaxUint64 && math.Trunc(f) == f
+	n, ok := scan(s)
+	if !ok {
+		return 0, false
+	}
+	u, ok := n.integer()
+	if !ok || (n.signed && u != 0) {
+		return 0, false
+	}
+	return u, true
+}
+
+// integer returns the absolute value of a number that is an integer.
+func (n *number) integer() (u uint64, ok bool) {
+	var (
+		point = int64(len(n.intg)) + n.exp // position of the decimal point
+		pos   = int64(0)
+	)
+	for _, digits := range [...]string{n.intg, n.frac} {
+		for _, c := range []byte(digits) {
+			d := uint64(c - '0')
+			if pos < point {
+				if u > (math.MaxUint64-d)/10 {
+					return 0, false
+				}
+				u = 10*u + d
+			} else if d != 0 {
+				return 0, false
+			}
+			pos++
+		}
+	}
+	for ; u != 0 && pos < point; pos++ {
+		if u > math.MaxUint64/10 {
+			return 0, false
+		}
+		u *= 10
+	}
+	return u, true
 }
-- 
2.43.0


From 0240404a67b7c7d41718a41ab083e531100dfa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:26 +0000
Subject: [PATCH 15/70] fix: encode float64 values in full precision

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index cf89c9f..a9a05d0 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -131,7 +131,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	case reflect.Float32:
 		return newFloatEncoder(32, options)
 	case reflect.Float64:
-		return newFloatEncoder(32, options)
+		return newFloatEncoder(64, options)
 	case reflect.Bool:
 		return boolEncoder{}, nil
 	case reflect.String:
-- 
2.43.0


From 0b7e8170fc31205e98ee425462b1618aa43da553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:27 +0000
Subject: [PATCH 16/70] fix: report numbers that do not fit the decoded type

---
 unjson/decode.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/unjson/decode.go b/unjson/decode.go
index e87e213..1983390 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"encoding/json"
 	"errors"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -57,6 +58,7 @@ func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 var (
 	errInvalidValueType = errors.New("Invalid value type")
 	errValue            = errors.New("Unsupported value")
+	errOverflow         = errors.New("Number out of range")
 	errInvalidType      = errors.New("Invalid type")
 	errNilNode          = errors.New("Nil JSON node")
 )
@@ -415,6 +417,9 @@ func (uintDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseUint(raw)
 		if ok {
+			if v.OverflowUint(n) {
+				return errOverflow
+			}
 			v.SetUint(n)
 			return nil
 		}
@@ -437,6 +442,9 @@ func (intDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNumber:
 		n, ok := numjson.ParseInt(raw)
 		if ok {
+			if v.OverflowInt(n) {
+				return errOverflow
+			}
 			v.SetInt(n)
 			return nil
 		}
@@ -459,6 +467,9 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
 		if f == f {
+			if math.IsInf(f, 0) || v.OverflowFloat(f) {
+				return errOverflow
+			}
 			v.SetFloat(f)
 			return nil
 		}
-- 
2.43.0


From 41e6cf8d4728f7c12084396085e59a5b6a906721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:29 +0000
Subject: [PATCH 17/70] fix: report errors of slice and array elements

---
 unjson/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 1983390..4854cc9 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -199,7 +199,9 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 		iter := n.Values()
 		for i := 0; i < dec.size; i++ {
 			if iter.Next() {
-				dec.decoder.decode(v.Index(i), iter.Value())
+				if err := dec.decoder.decode(v.Index(i), iter.Value()); err != nil {
+					return err
+				}
 			} else {
 				for ; i < dec.size; i++ {
 					el := v.Index(i)
@@ -260,7 +262,7 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			err = d.decoder.decode(v.Index(i), iter.Value())
 			if err != nil {
 				v.SetLen(i)
-				break
+				return
 			}
 		}
 	default:
-- 
2.43.0


From 248b64c8d3af3e102d7c219552f7df319eb87445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 18/70] fix: round decoded float32 values once

---
 unjson/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 4854cc9..b6888b6 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -469,7 +469,11 @@ func (floatDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNumber:
 		f := numjson.ParseFloat(raw)
 		if f == f {
-			if math.IsInf(f, 0) || v.OverflowFloat(f) {
+			if v.Kind() == reflect.Float32 {
+				// Round once, from the decimal value
+				f, _ = strconv.ParseFloat(raw, 32)
+			}
+			if math.IsInf(f, 0) {
 				return errOverflow
 			}
 			v.SetFloat(f)
-- 
2.43.0


From 0e9da85f001dddde81f491b013178620840c912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:55 +0000
Subject: [PATCH 19/70] fix: keep the struct allocated for an embedded pointer

---
 unjson/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 08ebc0a..9dbceb7 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -218,7 +218,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 				for _, i := range fc.index[1:] {
 					if i == -1 {
 						if field.IsNil() {
-							field = reflect.New(field.Type().Elem())
+							field.Set(reflect.New(field.Type().Elem()))
 						}
 						field = field.Elem()
 					} else {
-- 
2.43.0


From b16907169b049da98f7f188b32cf7b4febbccc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:57 +0000
Subject: [PATCH 20/70] fix: handle an embedded pointer to a type that is not a
 struct

---
 unjson/codec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 9dbceb7..52e1fa1 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -107,11 +107,13 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		if !tagged && field.Anonymous {
 			t := field.Type
 			if t.Kind() == reflect.Ptr {
-				// Flag for fieldByIndex
-				index = append(index, -1)
 				t = t.Elem()
 			}
 			if t.Kind() == reflect.Struct {
+				if field.Type.Kind() == reflect.Ptr {
+					// Flag for fieldByIndex
+					index = append(index, -1)
+				}
 				// embedded struct
 				if err := c.merge(t, options, index, codecs); err != nil {
 					return err
-- 
2.43.0


From aa516e8204ac2a84cf7b3af8f8384738f9a6a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:58 +0000
Subject: [PATCH 21/70] fix: report an error when decoding to a nil pointer

---
 unjson/decode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index b6888b6..58aa2af 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -37,7 +37,7 @@ type typeDecoder struct {
 }
 
 // Decode implements the Decoder interface.
-// It handles the case of a x being a nil pointer by creating a new blank value.
+// It reports an error if x is a nil pointer.
 func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 	if x == nil {
 		return errInvalidValueType
@@ -50,7 +50,8 @@ func (c *typeDecoder) Decode(x interface{}, n njson.Node) error {
 		if n.Type() == njson.TypeNull {
 			return nil
 		}
-		v.Set(reflect.New(c.typ.Elem()))
+		// There's nowhere to store a new value
+		return errInvalidValueType
 	}
 	return c.decode(v.Elem(), n)
 }
@@ -376,7 +377,7 @@ func (stringDecoder) decode(v reflect.Value, n njson.Node) error {
 type interfaceDecoder struct{}
 
 func (interfaceDecoder) Decode(x interface{}, n njson.Node) error {
-	if x, ok := x.(*interface{}); ok {
+	if x, ok := x.(*interface{}); ok && x != nil {
 		if *x, ok = n.ToInterface(); !ok {
 			return n.TypeError(njson.TypeAnyValue)
 		}
-- 
2.43.0


From 1872a66e3ed02844b59e1e94d4b561b99c2b4b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:59 +0000
Subject: [PATCH 22/70] fix: report data that follows the unmarshaled value

---
 unjson/decode.go | 1 +
 unjson/unjson.go | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 58aa2af..b4bf036 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -60,6 +60,7 @@ var (
 	errInvalidValueType = errors.New("Invalid value type")
 	errValue            = errors.New("Unsupported value")
 	errOverflow         = errors.New("Number out of range")
+	errTrailing         = errors.New("Trailing data after JSON value")
 	errInvalidType      = errors.New("Invalid type")
 	errNilNode          = errors.New("Nil JSON node")
 )
diff --git a/unjson/unjson.go b/unjson/unjson.go
index e6af236..cd3b60f 100644
--- a/unjson/unjson.go
+++ b/unjson/unjson.go
@@ -29,6 +29,7 @@ package unjson
 
 import (
 	"reflect"
+	"strings"
 
 	"github.com/alxarch/njson"
 )
@@ -71,7 +72,10 @@ func UnmarshalFromString(s string, x interface{}) (err error) {
 		return
 	}
 	p := njson.Blank()
-	n, _, err := p.Parse(s)
+	n, tail, err := p.Parse(s)
+	if err == nil && strings.TrimLeft(tail, " \t\r\n") != "" {
+		err = errTrailing
+	}
 	if err == nil {
 		err = d.Decode(x, n)
 	}
-- 
2.43.0


From 645a4108c850aa39eb0e9829d246d42a73da0fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 23/70] fix: keep the buffer when there is no encoder for a
 type

---
 unjson/unjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/unjson.go b/unjson/unjson.go
index cd3b60f..57bc33b 100644
--- a/unjson/unjson.go
+++ b/unjson/unjson.go
@@ -102,7 +102,7 @@ func AppendJSON(out []byte, x interface{}) ([]byte, error) {
 	}
 	m, err := defaultCache.Encoder(reflect.TypeOf(x))
 	if err != nil {
-		return nil, err
+		return out, err
 	}
 	return m.Encode(out, x)
 }
-- 
2.43.0


From a2fcb2c91d5d0360ff536bc6756397b0b915ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:29 +0000
Subject: [PATCH 24/70] fix: hide an embedded field behind the outer field of
 the same name

---
 unjson/codec.go | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 52e1fa1..58cd11e 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -16,6 +16,16 @@ func (c *structCodec) Add(f codec) {
 	c.fields = append(c.fields, f)
 }
 
+func (c *structCodec) remove(key string) {
+	fields := c.fields[:0]
+	for _, f := range c.fields {
+		if f.key != key {
+			fields = append(fields, f)
+		}
+	}
+	c.fields = fields
+}
+
 func (c *structCodec) Get(key string) *codec {
 	for i := range c.fields {
 		f := &c.fields[i]
@@ -92,7 +102,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 	}
 	n := typ.NumField()
 	v := reflect.New(typ).Elem()
-	depth := len(index)
+	size := len(index)
 	for i := 0; i < n; i++ {
 		// Check field is exported and settable
 		if !v.Field(i).CanSet() {
@@ -103,7 +113,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		if tag == "-" {
 			continue
 		}
-		index = append(index[:depth], field.Index...)
+		index = append(index[:size], field.Index...)
 		if !tagged && field.Anonymous {
 			t := field.Type
 			if t.Kind() == reflect.Ptr {
@@ -122,8 +132,12 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 			}
 		}
 		// tag = string(strjson.Escape(nil, tag))
-		if ff := c.Get(tag); ff != nil && cmpIndex(ff.index, index) != -1 {
-			continue
+		if ff := c.Get(tag); ff != nil {
+			if depth(ff.index) <= depth(index) {
+				continue
+			}
+			// Drop the embedded field that is hidden by this one
+			c.remove(tag)
 		}
 
 		dec, err := codecs.decoder(field.Type, options)
@@ -244,23 +258,14 @@ func copyIndex(a []int) (b []int) {
 	return
 }
 
-func cmpIndex(a, b []int) int {
-	if len(a) > len(b) {
-		return -1
-	}
-	if len(a) == len(b) {
-		// Avoid bounds check
-		b = b[:len(a)]
-		for i, j := range a {
-			if jj := b[i]; j > jj {
-				return -1
-			} else if jj > j {
-				return 1
-			}
+// depth counts the structs a field index goes through
+func depth(index []int) (n int) {
+	for _, i := range index {
+		if i != -1 {
+			n++
 		}
-		return 0
 	}
-	return 1
+	return
 }
 
 type hint uint8
-- 
2.43.0


From 59004333a5d188fb8018faf5a134377546bed88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:30 +0000
Subject: [PATCH 25/70] fix: do not recurse forever into a struct that embeds
 itself

---
 unjson/codec.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index 58cd11e..a2d12ec 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -96,10 +96,17 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 	return b, nil
 }
 
-func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache) error {
+func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, codecs cache, parents ...reflect.Type) error {
 	if typ == nil {
 		return nil
 	}
+	for _, parent := range parents {
+		if parent == typ {
+			// All fields are hidden by those of the parent
+			return nil
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], typ)
 	n := typ.NumField()
 	v := reflect.New(typ).Elem()
 	size := len(index)
@@ -125,7 +132,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 					index = append(index, -1)
 				}
 				// embedded struct
-				if err := c.merge(t, options, index, codecs); err != nil {
+				if err := c.merge(t, options, index, codecs, parents...); err != nil {
 					return err
 				}
 				continue
-- 
2.43.0


From 90526617672727ef9a4190e4903ed81901ac7f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:32 +0000
Subject: [PATCH 26/70] fix: include the exported fields of an embedded
 unexported struct

---
 unjson/codec.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index a2d12ec..cd8f8c6 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -111,11 +111,12 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 	v := reflect.New(typ).Elem()
 	size := len(index)
 	for i := 0; i < n; i++ {
+		field := typ.Field(i)
 		// Check field is exported and settable
-		if !v.Field(i).CanSet() {
+		exported := v.Field(i).CanSet()
+		if !exported && !(field.Anonymous && field.Type.Kind() == reflect.Struct) {
 			continue
 		}
-		field := typ.Field(i)
 		tag, hints, tagged := options.parseField(field)
 		if tag == "-" {
 			continue
@@ -138,6 +139,9 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 				continue
 			}
 		}
+		if !exported {
+			continue
+		}
 		// tag = string(strjson.Escape(nil, tag))
 		if ff := c.Get(tag); ff != nil {
 			if depth(ff.index) <= depth(index) {
-- 
2.43.0


From 30e8449d3d2007f821e61a25a46c2e0b59578132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:47 +0000
Subject: [PATCH 27/70] fix: escape the keys of struct fields and match them
 unescaped

---
 unjson/codec.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/unjson/codec.go b/unjson/codec.go
index cd8f8c6..2526041 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -4,6 +4,7 @@ import (
 	"reflect"
 
 	"github.com/alxarch/njson"
+	"github.com/alxarch/njson/strjson"
 )
 
 type structCodec struct {
@@ -84,7 +85,7 @@ func (c *structCodec) encode(b []byte, v reflect.Value) ([]byte, error) {
 		b = append(b, start[more])
 		more = 1
 		b = append(b, delimString)
-		b = append(b, fc.key...)
+		b = strjson.AppendEscaped(b, fc.key, false)
 		b = append(b, delimString)
 		b = append(b, delimNameSeparator)
 		b, err = fc.encode(b, fv)
@@ -142,7 +143,7 @@ func (c *structCodec) merge(typ reflect.Type, options *Options, index []int, cod
 		if !exported {
 			continue
 		}
-		// tag = string(strjson.Escape(nil, tag))
+
 		if ff := c.Get(tag); ff != nil {
 			if depth(ff.index) <= depth(index) {
 				continue
@@ -231,7 +232,7 @@ func (c *structCodec) decode(v reflect.Value, n njson.Node) (err error) {
 			iter  = n.Values()
 		)
 		for iter.Next() {
-			fc = c.Get(iter.Key())
+			fc = c.Get(strjson.Unescaped(iter.Key()))
 			if fc == nil {
 				continue
 			}
-- 
2.43.0


From 98859a281e25717152897b899ee548ddc9a29be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:48 +0000
Subject: [PATCH 28/70] fix: create maps as needed and decode their keys

---
 unjson/decode.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index b4bf036..66e8518 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -290,7 +290,7 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 		zeroKey:   reflect.Zero(key),
 		zeroValue: reflect.Zero(el),
 	}
-	if key.Implements(typTextUnmarshaler) {
+	if reflect.PtrTo(key).Implements(typTextUnmarshaler) {
 		md.keys = textDecoder{}
 	} else if key.Kind() == reflect.String {
 		md.keys = stringDecoder{}
@@ -311,6 +311,10 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeNull:
 		return
 	case njson.TypeObject:
+		if v.IsNil() {
+			v.Set(reflect.MakeMap(d.typ))
+		}
+		key := reflect.New(d.typ.Key()).Elem()
 		val := reflect.New(d.typ.Elem()).Elem()
 		iter := n.Values()
 		for iter.Next() {
@@ -319,7 +323,17 @@ func (d *mapDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 			if err != nil {
 				return
 			}
-			v.SetMapIndex(reflect.ValueOf(iter.Key()), val)
+			key.Set(d.zeroKey)
+			switch name := strjson.Unescaped(iter.Key()); d.keys.(type) {
+			case textDecoder:
+				err = key.Addr().Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(name))
+				if err != nil {
+					return
+				}
+			default:
+				key.SetString(name)
+			}
+			v.SetMapIndex(key, val)
 		}
 		return
 	default:
-- 
2.43.0


From ec8ace23dc6726c430576ca95741668aaa434212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:45 +0000
Subject: [PATCH 29/70] fix: encode a nil pointer as null

---
 unjson/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index a9a05d0..4984660 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -42,9 +42,12 @@ func (m *typeEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
 	}
 	v := reflect.ValueOf(x)
 	if v.Kind() == reflect.Ptr {
+		if v.IsNil() && v.Type().Elem() == m.typ {
+			return append(out, strNull...), nil
+		}
 		v = v.Elem()
 	}
-	if v.Type() != m.typ {
+	if !v.IsValid() || v.Type() != m.typ {
 		return out, errInvalidValueType
 	}
 	return m.encode(out, v)
-- 
2.43.0


From 57d2704ee1c97251a26169b1d4f5b6c1b60f50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:46 +0000
Subject: [PATCH 30/70] fix: escape the output of a TextMarshaler

---
 unjson/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 4984660..322f2dc 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -213,7 +213,7 @@ func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error)
 	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
-		out = append(out, text...)
+		out = strjson.AppendEscaped(out, string(text), false)
 		out = append(out, delimString)
 	}
 	return out, err
-- 
2.43.0


From bba2aab4357dc84f170a14efc1dc03f8bdf5b17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:48 +0000
Subject: [PATCH 31/70] fix: use marshalers defined on a pointer receiver and
 encode nil ones as null

---
 unjson/encode.go | 53 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 322f2dc..3ea8266 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -104,11 +104,11 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 		return nil, errInvalidType
 	}
 	switch {
-	case typ.Implements(typAppender):
+	case hasMethods(typ, typAppender):
 		return njsonEncoder{}, nil
-	case typ.Implements(typJSONMarshaler):
+	case hasMethods(typ, typJSONMarshaler):
 		return jsonEncoder{}, nil
-	case typ.Implements(typTextMarshaler):
+	case hasMethods(typ, typTextMarshaler):
 		return textEncoder{}, nil
 	}
 	switch typ.Kind() {
@@ -144,16 +144,53 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 	}
 }
 
+// hasMethods checks if a type or the pointer to it implements an interface
+func hasMethods(typ, iface reflect.Type) bool {
+	return typ.Implements(iface) || reflect.PtrTo(typ).Implements(iface)
+}
+
+// methods returns the value or the pointer to it that implements an interface.
+// It returns nil if the value is a nil pointer or interface.
+func methods(v reflect.Value, iface reflect.Type) interface{} {
+	if v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
+		if v.IsNil() {
+			return nil
+		}
+	}
+	if v.Type().Implements(iface) {
+		return v.Interface()
+	}
+	return addr(v).Interface()
+}
+
+// addr returns a pointer to a value or to a copy of it
+func addr(v reflect.Value) reflect.Value {
+	if v.CanAddr() {
+		return v.Addr()
+	}
+	p := reflect.New(v.Type())
+	p.Elem().Set(v)
+	return p
+}
+
 type njsonEncoder struct{}
 
 func (njsonEncoder) encode(out []byte, v reflect.Value) ([]byte, error) {
-	return v.Interface().(njson.Appender).AppendJSON(out)
+	x := methods(v, typAppender)
+	if x == nil {
+		return append(out, strNull...), nil
+	}
+	return x.(njson.Appender).AppendJSON(out)
 }
 
 type jsonEncoder struct{}
 
 func (jsonEncoder) encode(out []byte, v reflect.Value) (b []byte, err error) {
-	b, err = v.Interface().(json.Marshaler).MarshalJSON()
+	x := methods(v, typJSONMarshaler)
+	if x == nil {
+		return append(out, strNull...), nil
+	}
+	b, err = x.(json.Marshaler).MarshalJSON()
 	if err == nil && b != nil {
 		out = append(out, b...)
 	}
@@ -210,7 +247,11 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 type textEncoder struct{}
 
 func (textEncoder) encode(out []byte, v reflect.Value) (text []byte, err error) {
-	text, err = v.Interface().(encoding.TextMarshaler).MarshalText()
+	x := methods(v, typTextMarshaler)
+	if x == nil {
+		return append(out, strNull...), nil
+	}
+	text, err = x.(encoding.TextMarshaler).MarshalText()
 	if err == nil {
 		out = append(out, delimString)
 		out = strjson.AppendEscaped(out, string(text), false)
-- 
2.43.0


From f75ab2172c2c15a9aa66849d967f08f59f8d8634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:49 +0000
Subject: [PATCH 32/70] fix: use unmarshalers defined on a pointer receiver and
 allocate nil ones

---
 unjson/decode.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 66e8518..8f8aee1 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -65,18 +65,28 @@ var (
 	errNilNode          = errors.New("Nil JSON node")
 )
 
+// isNil checks if x is a nil pointer
+func isNil(x interface{}) bool {
+	v := reflect.ValueOf(x)
+	return v.Kind() == reflect.Ptr && v.IsNil()
+}
+
 // njsonDecoder implements the Decoder interface for types implementing njson.Unmarshaler
 type njsonDecoder struct{}
 
 func (njsonDecoder) Decode(x interface{}, n njson.Node) error {
-	if x, ok := x.(njson.Unmarshaler); ok {
+	if x, ok := x.(njson.Unmarshaler); ok && !isNil(x) {
 		return x.UnmarshalNodeJSON(n)
 	}
 	return errInvalidValueType
 }
 
 func (njsonDecoder) decode(v reflect.Value, n njson.Node) error {
-	return v.Interface().(njson.Unmarshaler).UnmarshalNodeJSON(n)
+	x, ok := methods(v, typNodeUnmarshaler).(njson.Unmarshaler)
+	if !ok {
+		return errInvalidValueType
+	}
+	return x.UnmarshalNodeJSON(n)
 }
 
 // jsonDecoder implements the Decoder interface for types implementing json.Unmarshaller
@@ -84,14 +94,18 @@ type jsonDecoder struct{}
 
 func (jsonDecoder) Decode(x interface{}, n njson.Node) (err error) {
 
-	if u, ok := x.(json.Unmarshaler); ok {
+	if u, ok := x.(json.Unmarshaler); ok && !isNil(u) {
 		return n.WrapUnmarshalJSON(u)
 	}
 	return errInvalidValueType
 }
 
 func (jsonDecoder) decode(v reflect.Value, n njson.Node) (err error) {
-	return n.WrapUnmarshalJSON(v.Interface().(json.Unmarshaler))
+	u, ok := methods(v, typJSONUnmarshaler).(json.Unmarshaler)
+	if !ok {
+		return errInvalidValueType
+	}
+	return n.WrapUnmarshalJSON(u)
 }
 
 // NewTypeDecoder creates a new decoder for a type.
@@ -132,11 +146,13 @@ func newDecoder(typ reflect.Type, options *Options, codecs cache) (decoder, erro
 		return nil, errInvalidType
 	}
 	switch {
-	case typ.Implements(typNodeUnmarshaler):
+	case typ.Kind() == reflect.Ptr:
+		// Allocate nil pointers before using the methods of the element
+	case hasMethods(typ, typNodeUnmarshaler):
 		return njsonDecoder{}, nil
-	case typ.Implements(typJSONUnmarshaler):
+	case hasMethods(typ, typJSONUnmarshaler):
 		return jsonDecoder{}, nil
-	case typ.Implements(typTextUnmarshaler):
+	case hasMethods(typ, typTextUnmarshaler):
 		return textDecoder{}, nil
 	}
 
@@ -511,13 +527,17 @@ type textDecoder struct{}
 
 func (textDecoder) decode(v reflect.Value, n njson.Node) error {
 	if n.Type() == njson.TypeString {
-		return n.WrapUnmarshalText(v.Interface().(encoding.TextUnmarshaler))
+		u, ok := methods(v, typTextUnmarshaler).(encoding.TextUnmarshaler)
+		if !ok {
+			return errInvalidValueType
+		}
+		return n.WrapUnmarshalText(u)
 	}
 	return n.TypeError(njson.TypeString)
 }
 
 func (textDecoder) Decode(x interface{}, n njson.Node) error {
-	if u, ok := x.(encoding.TextUnmarshaler); ok {
+	if u, ok := x.(encoding.TextUnmarshaler); ok && !isNil(u) {
 		return n.WrapUnmarshalText(u)
 	}
 	return errInvalidValueType
-- 
2.43.0


From 8fe7a7830f7aa0fa56db5745ca017cdd8545083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 33/70] fix: omit nil pointers without calling their Omit
 method and use it on values that are not addressable

---
 unjson/omit.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/unjson/omit.go b/unjson/omit.go
index 34f2fde..cc961a7 100644
--- a/unjson/omit.go
+++ b/unjson/omit.go
@@ -84,14 +84,32 @@ func (m omitMethod) omit(v reflect.Value) bool {
 
 func customOmiter(typ reflect.Type, methodName string) omiter {
 	if method, ok := typ.MethodByName(methodName); ok {
-		f := method.Func.Type()
-		if f.NumIn() == 1 && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
-			return omitMethod(method.Index)
+		f, in := method.Type, 1
+		if typ.Kind() == reflect.Interface {
+			// Methods of interface types don't have a receiver argument
+			in = 0
+		}
+		if f.NumIn() == in && f.NumOut() == 1 && f.Out(0).Kind() == reflect.Bool {
+			switch typ.Kind() {
+			case reflect.Ptr, reflect.Interface:
+				return &nilOmiter{omitMethod(method.Index)}
+			default:
+				return omitMethod(method.Index)
+			}
 		}
 	}
 	return nil
 }
 
+// nilOmiter omits nil values without calling their method
+type nilOmiter struct {
+	omiter
+}
+
+func (o *nilOmiter) omit(v reflect.Value) bool {
+	return v.IsNil() || o.omiter.omit(v)
+}
+
 type ptrOmiter struct {
 	omiter
 }
@@ -105,7 +123,7 @@ type elemOmiter struct {
 }
 
 func (o *elemOmiter) omit(v reflect.Value) bool {
-	return v.CanAddr() && o.omiter.omit(v.Addr())
+	return o.omiter.omit(addr(v))
 }
 
 // newCustomOmiter creates an omiter func for a type.
@@ -180,10 +198,7 @@ func newOmiter(typ reflect.Type, methodName string) omiter {
 	case reflect.Array:
 		return newArrayOmiter(typ, methodName)
 	case reflect.Interface:
-		if typ.NumMethod() == 0 {
-			return omitNil{}
-		}
-		return omitAlways{}
+		return omitNil{}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return omitInt{}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-- 
2.43.0


From bed97589ec79937651d1707c33567ed19353c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:49 +0000
Subject: [PATCH 34/70] fix: do not expose stale elements when a slice grows
 within its capacity

---
 unjson/decode.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 8f8aee1..c962461 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -245,13 +245,15 @@ func (dec *arrayDecoder) decode(v reflect.Value, n njson.Node) error {
 }
 
 type sliceDecoder struct {
-	typ     reflect.Type
-	decoder decoder
+	typ       reflect.Type
+	zeroValue reflect.Value
+	decoder   decoder
 }
 
 func newSliceDecoder(typ reflect.Type, options *Options, codecs cache) (*sliceDecoder, error) {
 	sd := sliceDecoder{
-		typ: typ,
+		typ:       typ,
+		zeroValue: reflect.Zero(typ.Elem()),
 	}
 	codecs[cacheKey{typ, 0}] = &sd
 	dec, err := codecs.decoder(typ.Elem(), options)
@@ -273,7 +275,12 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 		if size := iter.Len(); v.IsNil() || v.Cap() < size {
 			v.Set(reflect.MakeSlice(d.typ, size, size))
 		} else {
+			i := v.Len()
 			v.SetLen(size)
+			// Clear elements of previous values
+			for ; i < size; i++ {
+				v.Index(i).Set(d.zeroValue)
+			}
 		}
 		for iter.Next() {
 			i := iter.Index()
-- 
2.43.0


From 974bc179ef1ade71b11ac7e256cd15184c6b73cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:07 +0000
Subject: [PATCH 35/70] fix: decode into named empty interface types

---
 unjson/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index c962461..117b483 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -429,8 +429,11 @@ func (interfaceDecoder) decode(v reflect.Value, n njson.Node) error {
 		return errInvalidValueType
 	}
 	if x, ok := n.ToInterface(); ok {
-		xx := v.Addr().Interface().(*interface{})
-		*xx = x
+		if x == nil {
+			v.Set(reflect.Zero(v.Type()))
+		} else {
+			v.Set(reflect.ValueOf(x))
+		}
 		return nil
 	}
 	return n.TypeError(njson.TypeAnyValue)
-- 
2.43.0


From 90b796582b0244befa414bae957d6ca19ab8e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:09 +0000
Subject: [PATCH 36/70] fix: encode values inside interfaces using the options
 of the encoder

---
 unjson/encode.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/unjson/encode.go b/unjson/encode.go
index 3ea8266..4fd66fd 100644
--- a/unjson/encode.go
+++ b/unjson/encode.go
@@ -124,7 +124,7 @@ func newEncoder(typ reflect.Type, options *Options, hints hint, codecs cache) (e
 		return newMapEncoder(typ, options, codecs)
 	case reflect.Interface:
 		if typ.NumMethod() == 0 {
-			return interfaceEncoder{}, nil
+			return newInterfaceEncoder(options), nil
 		}
 		return nil, errInvalidType
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -227,7 +227,15 @@ func (HTML stringEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 }
 
 type interfaceEncoder struct {
-	// options *Options
+	cache *Cache
+}
+
+// newInterfaceEncoder creates an encoder using the same options for dynamic values
+func newInterfaceEncoder(options *Options) interfaceEncoder {
+	if *options == defaultOptions {
+		return interfaceEncoder{&defaultCache}
+	}
+	return interfaceEncoder{&Cache{Options: *options}}
 }
 
 func (c interfaceEncoder) Encode(out []byte, x interface{}) ([]byte, error) {
@@ -241,7 +249,12 @@ func (c interfaceEncoder) encode(b []byte, v reflect.Value) ([]byte, error) {
 	if v.IsNil() {
 		return append(b, strNull...), nil
 	}
-	return AppendJSON(b, v.Interface())
+	x := v.Interface()
+	m, err := c.cache.Encoder(reflect.TypeOf(x))
+	if err != nil {
+		return b, err
+	}
+	return m.Encode(b, x)
 }
 
 type textEncoder struct{}
-- 
2.43.0


From a2b6bf24d6f8eeb4d5cae09533404ba4a5bf955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:21 +0000
Subject: [PATCH 37/70] fix: release the values of previous lines when decoding
 a line stream

---
 unjson/stream.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index c0c1f79..e088ea9 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -42,6 +42,7 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 		if isPrefix {
 			continue
 		}
+		d.p.Reset()
 		n, tail, err := d.p.Parse(s.String())
 		if err != nil {
 			return err
-- 
2.43.0


From 03fca706400f21ef766418dfb724c7a493d9dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:54 +0000
Subject: [PATCH 38/70] fix: report reader failures in the middle of a line and
 keep the last line of a stream

---
 unjson/stream.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index e088ea9..23bef86 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -14,6 +14,7 @@ type LineDecoder struct {
 	Decoder                // Use a specific type decoder
 	r       *bufio.Reader  // underlying reader
 	p       njson.Document // a local njson.Parser
+	line    []byte         // the current line
 }
 
 // NewLineDecoder creates a new LineDecoder
@@ -32,18 +33,20 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 
 // Decode decodes the next JSON line in the stream to x
 func (d *LineDecoder) Decode(x interface{}) (err error) {
-	s := strings.Builder{}
 	for {
-		line, isPrefix, err := d.r.ReadLine()
-		if err != nil {
-			return err
-		}
-		s.Write(line)
-		if isPrefix {
+		line, err := d.r.ReadSlice('\n')
+		d.line = append(d.line, line...)
+		if err == bufio.ErrBufferFull {
 			continue
 		}
+		if err != nil && (err != io.EOF || len(d.line) == 0) {
+			// Keep a partial line in case the reader recovers
+			return err
+		}
+		s := string(d.line)
+		d.line = d.line[:0]
 		d.p.Reset()
-		n, tail, err := d.p.Parse(s.String())
+		n, tail, err := d.p.Parse(s)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6ee0f6061123d12d491ffe12747e47419c1f43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:55 +0000
Subject: [PATCH 39/70] fix: only allow JSON white space after the value of a
 line

---
 unjson/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index 23bef86..bf5a9f7 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -50,7 +50,7 @@ func (d *LineDecoder) Decode(x interface{}) (err error) {
 		if err != nil {
 			return err
 		}
-		if strings.TrimSpace(tail) != "" {
+		if strings.TrimLeft(tail, " \t\r\n") != "" {
 			return errors.New("Invalid line delimited JSON")
 		}
 		if d.Decoder == nil {
-- 
2.43.0


From c39eaaa138d4f93407bc6c6605a40112c2a78d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:56 +0000
Subject: [PATCH 40/70] fix: write each value of a line stream on a single line

---
 unjson/stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unjson/stream.go b/unjson/stream.go
index bf5a9f7..1b3bb7c 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -86,6 +86,12 @@ func (e *LineEncoder) Encode(x interface{}) (err error) {
 	if err != nil {
 		return
 	}
+	for i, c := range e.buffer {
+		if c == '\n' {
+			// White space in the output of a custom marshaler
+			e.buffer[i] = ' '
+		}
+	}
 	e.buffer = append(e.buffer, '\n')
 	_, err = e.w.Write(e.buffer)
 	return
-- 
2.43.0


From 04ff33d6f9688179825bdc0f2b02bf1245b81f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 41/70] fix: use the marshaler of a struct type that has no
 unmarshaler and the other way around

---
 unjson/cache.go  | 7 ++++---
 unjson/codec.go  | 4 +++-
 unjson/decode.go | 8 ++++----
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/unjson/cache.go b/unjson/cache.go
index f548ea6..c886542 100644
--- a/unjson/cache.go
+++ b/unjson/cache.go
@@ -68,14 +68,15 @@ func (c *Cache) Encoder(typ reflect.Type) (enc Encoder, err error) {
 // cache is used when creating new encoders/decoders to not recalculate stuff and avoid recursion issues.
 type cache map[cacheKey]interface{}
 
-// cacheKey is based on both Type and hint so types with different hints get correct encoders
+// cacheKey is based on both Type and hint so types with different hints get correct encoders.
+// Decoders are kept apart because a struct codec is both and a type's methods can be only for one of them.
 type cacheKey struct {
 	typ   reflect.Type
 	hints hint
 }
 
 func (c cache) codec(typ reflect.Type) *structCodec {
-	key := cacheKey{typ, 0}
+	key := cacheKey{typ, hintCodec}
 	if x := c[key]; x != nil {
 		if c, ok := x.(*structCodec); ok {
 			return c
@@ -109,7 +110,7 @@ func (c cache) encoder(typ reflect.Type, options *Options, hints hint) (encoder,
 }
 
 func (c cache) decoder(typ reflect.Type, options *Options) (decoder, error) {
-	key := cacheKey{typ, 0}
+	key := cacheKey{typ, hintDecoder}
 	if x := c[key]; x != nil {
 		if e, ok := x.(decoder); ok {
 			return e, nil
diff --git a/unjson/codec.go b/unjson/codec.go
index 2526041..5493f03 100644
--- a/unjson/codec.go
+++ b/unjson/codec.go
@@ -199,7 +199,7 @@ func newStructCodec(typ reflect.Type, options *Options, codecs cache) (*structCo
 		fields:    make([]codec, 0, typ.NumField()),
 		zeroValue: reflect.Zero(typ),
 	}
-	codecs[cacheKey{typ, 0}] = &c
+	codecs[cacheKey{typ, hintCodec}] = &c
 	if err := c.merge(typ, options, nil, codecs); err != nil {
 		return nil, err
 	}
@@ -286,4 +286,6 @@ const (
 	hintRaw hint = 1 << iota
 	hintHTML
 	hintOmitempty
+	hintDecoder // cache key for decoders
+	hintCodec   // cache key for struct codecs
 )
diff --git a/unjson/decode.go b/unjson/decode.go
index 117b483..707671a 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -202,7 +202,7 @@ func newArrayDecoder(typ reflect.Type, options *Options, codecs cache) (*arrayDe
 		size:      typ.Len(),
 		zeroValue: reflect.Zero(el),
 	}
-	codecs[cacheKey{typ, 0}] = &ad
+	codecs[cacheKey{typ, hintDecoder}] = &ad
 	dec, err := codecs.decoder(typ.Elem(), options)
 	if err != nil {
 		return nil, err
@@ -255,7 +255,7 @@ func newSliceDecoder(typ reflect.Type, options *Options, codecs cache) (*sliceDe
 		typ:       typ,
 		zeroValue: reflect.Zero(typ.Elem()),
 	}
-	codecs[cacheKey{typ, 0}] = &sd
+	codecs[cacheKey{typ, hintDecoder}] = &sd
 	dec, err := codecs.decoder(typ.Elem(), options)
 	if err != nil {
 		return nil, err
@@ -321,7 +321,7 @@ func newMapDecoder(typ reflect.Type, options *Options, codecs cache) (*mapDecode
 		return nil, errInvalidType
 	}
 	// First cache the decoder to avoid recursion issues
-	codecs[cacheKey{typ, 0}] = &md
+	codecs[cacheKey{typ, hintDecoder}] = &md
 	dec, err := codecs.decoder(el, options)
 	if err != nil {
 		return nil, err
@@ -375,7 +375,7 @@ func newPtrDecoder(typ reflect.Type, options *Options, codecs cache) (*ptrDecode
 		typ:  typ.Elem(),
 		zero: reflect.Zero(typ),
 	}
-	codecs[cacheKey{typ, 0}] = &pd
+	codecs[cacheKey{typ, hintDecoder}] = &pd
 	dec, err := codecs.decoder(pd.typ, options)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6b8e787f6806c9a55eacf12ef4ce65b71593b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 42/70] fix: read any reader in NewLineDecoder

---
 unjson/stream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unjson/stream.go b/unjson/stream.go
index 1b3bb7c..6709e34 100644
--- a/unjson/stream.go
+++ b/unjson/stream.go
@@ -23,8 +23,8 @@ func NewLineDecoder(r io.Reader) *LineDecoder {
 		return nil
 	}
 	d := LineDecoder{}
-	if r, ok := r.(*bufio.Reader); ok {
-		d.r = r
+	if b, ok := r.(*bufio.Reader); ok {
+		d.r = b
 	} else {
 		d.r = bufio.NewReader(r)
 	}
-- 
2.43.0


From d095d6e09a6b49cb5c9ff31f05947d1e51af1052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 43/70] fix: keep the old elements when decoding grows a slice

---
 unjson/decode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unjson/decode.go b/unjson/decode.go
index 707671a..d1ba870 100644
--- a/unjson/decode.go
+++ b/unjson/decode.go
@@ -273,7 +273,10 @@ func (d *sliceDecoder) decode(v reflect.Value, n njson.Node) (err error) {
 	case njson.TypeArray:
 		iter := n.Values()
 		if size := iter.Len(); v.IsNil() || v.Cap() < size {
-			v.Set(reflect.MakeSlice(d.typ, size, size))
+			s := reflect.MakeSlice(d.typ, size, size)
+			// Decode into the existing elements whatever the capacity
+			reflect.Copy(s, v)
+			v.Set(s)
 		} else {
 			i := v.Len()
 			v.SetLen(size)
-- 
2.43.0


From da6c108372748c88bd4d2453c0fb6621db971497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 44/70] fix: end an AppendJSON test case after a missing method

---
 njsontest/t.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/njsontest/t.go b/njsontest/t.go
index 0dceb9f..2163bf3 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -49,6 +49,7 @@ func AppendJSON(x interface{}, options ...Option) func(t *testing.T) {
 		v := reflect.ValueOf(x)
 		if err := checkMethod(v, method); err != nil {
 			t.Errorf("Wrong value type: %s", err)
+			return
 		}
 		expect, err := test.json()
 		if err != nil {
-- 
2.43.0


From 701c52b6e7253891bde223a242b3cb6cd00c5f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 45/70] fix: report a test case without a value

---
 njsontest/t.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/njsontest/t.go b/njsontest/t.go
index 2163bf3..50c1ec4 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -37,7 +37,7 @@ func newT(x interface{}, options []Option) (t T) {
 // AppendJSON check a value implementing njson.Appender interface.
 func AppendJSON(x interface{}, options ...Option) func(t *testing.T) {
 	if x == nil {
-		return nil
+		return nilValue
 	}
 	test := newT(x, options)
 	method := typAppender.Method(0)
@@ -77,7 +77,7 @@ func AppendJSON(x interface{}, options ...Option) func(t *testing.T) {
 // Unmarshal is a test case for an njson.Unmarshaler
 func Unmarshal(x interface{}, options ...Option) func(t *testing.T) {
 	if x == nil {
-		return nil
+		return nilValue
 	}
 	test := newT(x, options)
 	method := typUnmarshaler.Method(0)
@@ -133,6 +133,10 @@ func Unmarshal(x interface{}, options ...Option) func(t *testing.T) {
 
 }
 
+func nilValue(t *testing.T) {
+	t.Error("Nil test value")
+}
+
 func checkError(v reflect.Value, check func(error) error) error {
 	if v.IsNil() {
 		if check == nil {
-- 
2.43.0


From 79eb24c57d4c6f432a1a0da8d3997bf2cc1bc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:11 +0000
Subject: [PATCH 46/70] fix: compare nil pointers and values of other kinds in
 an Unmarshal test case

---
 njsontest/t.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/njsontest/t.go b/njsontest/t.go
index 50c1ec4..170087c 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -125,9 +125,15 @@ func Unmarshal(x interface{}, options ...Option) func(t *testing.T) {
 			t.Errorf("[%s.%s] Unmarshal error: %s", typ, method.Name, err)
 			return
 		}
-		if test.check == nil && !reflect.DeepEqual(original.Interface(), v.Elem().Interface()) {
-			t.Errorf("[%s.%s] Invalid unmarshal:\nexpect: %v\nactual: %v\ninput: %s",
-				reflect.TypeOf(v), method.Name, original, v.Elem(), data)
+		if test.check == nil {
+			actual := v
+			if v.Kind() == reflect.Ptr {
+				actual = v.Elem()
+			}
+			if !original.IsValid() || !actual.IsValid() || !reflect.DeepEqual(original.Interface(), actual.Interface()) {
+				t.Errorf("[%s.%s] Invalid unmarshal:\nexpect: %v\nactual: %v\ninput: %s",
+					v.Type(), method.Name, original, actual, data)
+			}
 		}
 	}
 
-- 
2.43.0


From fabddd458fc120b2faf3c182f5143ebfd496447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 47/70] fix: keep the JSON read from a reader for the next run
 of a test case

---
 njsontest/option.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/njsontest/option.go b/njsontest/option.go
index ddbdc4e..2b9509d 100644
--- a/njsontest/option.go
+++ b/njsontest/option.go
@@ -7,6 +7,7 @@ import (
 	"io/ioutil"
 	"regexp"
 	"strings"
+	"sync"
 )
 
 // Option is a test case option.
@@ -111,8 +112,17 @@ func JSON(x interface{}) Option {
 			return []byte(j), nil
 		}
 	case io.Reader:
+		var (
+			once sync.Once
+			data []byte
+			err  error
+		)
+		// A test case can run more than once
 		getjson = func() ([]byte, error) {
-			return ioutil.ReadAll(j)
+			once.Do(func() {
+				data, err = ioutil.ReadAll(j)
+			})
+			return data, err
 		}
 	case nil:
 		getjson = func() ([]byte, error) {
-- 
2.43.0


From 3f33ae8c18d5573c909f3d92535c71378c59a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 48/70] fix: only ask for the JSON of an AppendJSON test case
 that compares it

---
 njsontest/t.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/njsontest/t.go b/njsontest/t.go
index 170087c..666f6c5 100644
--- a/njsontest/t.go
+++ b/njsontest/t.go
@@ -51,10 +51,13 @@ func AppendJSON(x interface{}, options ...Option) func(t *testing.T) {
 			t.Errorf("Wrong value type: %s", err)
 			return
 		}
-		expect, err := test.json()
-		if err != nil {
-			t.Errorf("[%s.%s] Unexpected JSON data error: %s", v.Type(), method.Name, err)
-			return
+		var expect []byte
+		if test.check == nil {
+			var err error
+			if expect, err = test.json(); err != nil {
+				t.Errorf("[%s.%s] Unexpected JSON data error: %s", v.Type(), method.Name, err)
+				return
+			}
 		}
 		results := v.MethodByName(method.Name).Call([]reflect.Value{
 			reflect.ValueOf(([]byte)(nil)),
-- 
2.43.0


From 5b0513b2cd2ee7c0d53028189221f77a09030ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 49/70] fix: report the types the generator cannot unmarshal

Formatting the code dropped the error and an empty method set was written.
---
 internal/generator/unmarshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index dd5a68e..28396a4 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -39,10 +39,15 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 
 // WriteUnmarshaler writes an unmarshaler method for a type in the generator's buffer.
 func (g *Generator) WriteUnmarshaler(typeName string) (err error) {
-	code := g.Unmarshaler(typeName).Format()
+	code := g.Unmarshaler(typeName)
 	if err = code.Err(); err != nil {
 		return
 	}
+	code = code.Format()
+	if err = code.Err(); err != nil {
+		return
+	}
+
 
 	g.Import(code.Imports...)
 	_, err = g.buffer.Write(code.Code)
-- 
2.43.0


From 2be914e245b3bc0ca6ecb90d45b8cebced0cdc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:53 +0000
Subject: [PATCH 50/70] fix: generate imports and types in the same order on
 every run

The imports came from a map and the types from a map of files. A type alias,
which has no methods of its own, is no longer taken for a struct type.
---
 internal/generator/generator.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 1dc7c54..a349b17 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -19,6 +19,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -44,10 +45,18 @@ func (e typeError) Error() string {
 	return fmt.Sprintf("Unsupported type %s %#v", e.typ, e.typ)
 }
 
-// AllStructs returns all structs from the package.
+// AllStructs returns all structs from the package in the order they are declared.
 func (g *Generator) AllStructs() (all []string) {
-	types := g.Package.DefinedTypes(meta.IsStruct)
-	for _, typ := range types {
+	structs := []*types.Named{}
+	for _, typ := range g.Package.DefinedTypes(meta.IsStruct) {
+		if typ, ok := typ.(*types.Named); ok {
+			structs = append(structs, typ)
+		}
+	}
+	sort.Slice(structs, func(i, j int) bool {
+		return structs[i].Obj().Pos() < structs[j].Obj().Pos()
+	})
+	for _, typ := range structs {
 		all = append(all, g.TypeString(typ))
 	}
 	return
@@ -210,7 +219,13 @@ func (g *Generator) Header() string {
 	h = append(h, fmt.Sprintf(headerComment, ts))
 	h = append(h, fmt.Sprintf("package %s", g.Name()))
 
-	for path, pkg := range g.imports {
+	paths := make([]string, 0, len(g.imports))
+	for path := range g.imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	for _, path := range paths {
+		pkg := g.imports[path]
 		if filepath.Base(path) == pkg.Name() {
 			h = append(h, fmt.Sprintf("import %q", path))
 		} else {
-- 
2.43.0


From ae123f25f457a7c03efcffeb3a6ec0ca824a0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 51/70] fix: generate the fields of a struct in the order they
 are declared

The order of fields, and which of two fields of the same JSON name was used,
depended on the iteration of a map and on the text of the tags.
---
 internal/generator/append.go    | 24 ++---------------
 internal/generator/options.go   | 43 ++++++++++++++++++++++++++++++
 internal/generator/unmarshal.go | 47 ++++++++++-----------------------
 3 files changed, 59 insertions(+), 55 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 11f41f8..a76c7eb 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -3,7 +3,6 @@ package generator
 import (
 	"fmt"
 	"go/types"
-	"sort"
 	"strings"
 
 	"github.com/alxarch/meta"
@@ -120,27 +119,8 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	c = c.Println(`more := 0`)
-	sortedFields := []meta.Field{}
-	for name := range fields {
-		sortedFields = append(sortedFields, fields[name]...)
-	}
-	sort.SliceStable(sortedFields, func(i, j int) bool {
-		return sortedFields[i].Tag < sortedFields[j].Tag
-	})
-	used := make(map[string]bool)
-	for _, field := range sortedFields {
-		field = field.WithTag(g.TagKey())
-		name, tag, ok := g.parseField(field.Var, field.Tag)
-		if !ok {
-			continue
-		}
-		if tag.Name != "" {
-			name = tag.Name
-		}
-		if used[name] {
-			continue
-		}
-		used[name] = true
+	for _, field := range g.selectFields(fields) {
+		name, tag := field.name, field.tag
 		var cf meta.Code
 		cf = g.TypeAppender(field.Type(), tag.Params)
 		cf = g.Code(`
diff --git a/internal/generator/options.go b/internal/generator/options.go
index 2596927..2c378a3 100644
--- a/internal/generator/options.go
+++ b/internal/generator/options.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"reflect"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/alxarch/meta"
@@ -145,6 +146,48 @@ func (o *options) MatchField(name string) bool {
 	return o.matchField(name)
 }
 
+// selectedField is a struct field that is generated with its JSON name and tag.
+type selectedField struct {
+	meta.Field
+	name string
+	tag  meta.Tag
+}
+
+// selectFields returns the fields to generate in the order they are declared.
+// A field hides the fields of the same JSON name at the end of longer paths.
+func (o *options) selectFields(fields meta.Fields) (selected []selectedField) {
+	for _, named := range fields {
+		for _, field := range named {
+			field = field.WithTag(o.TagKey())
+			if name, tag, ok := o.parseField(field.Var, field.Tag); ok {
+				if tag.Name != "" {
+					name = tag.Name
+				}
+				selected = append(selected, selectedField{field, name, tag})
+			}
+		}
+	}
+	sort.Slice(selected, func(i, j int) bool {
+		return meta.ShortestPath(selected[i].Path, selected[j].Path) < 0
+	})
+	used := make(map[string]bool, len(selected))
+	unique := selected[:0]
+	for _, field := range selected {
+		if !used[field.name] {
+			used[field.name] = true
+			unique = append(unique, field)
+		}
+	}
+	sort.Slice(unique, func(i, j int) bool {
+		a, b := unique[i].Path, unique[j].Path
+		for len(a) > 0 && len(b) > 0 && a[0].Index == b[0].Index {
+			a, b = a[1:], b[1:]
+		}
+		return len(b) > 0 && (len(a) == 0 || a[0].Index < b[0].Index)
+	})
+	return unique
+}
+
 // TagKey sets the tag key to use when parsing struct fields
 func TagKey(key string) Option {
 	return func(g *Generator) {
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 28396a4..e5b17d7 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -306,45 +306,26 @@ func (g *Generator) RawStringUnmarshaler(t types.Type) meta.Code {
 // StructUnmarshaler generates the code block to unmarshal a struct.
 func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 	fields := meta.NewFields(t, true)
-	tagKey := g.TagKey()
-	used := make(map[string]bool)
-	for name := range fields {
-		for _, field := range fields[name] {
-			field = field.WithTag(tagKey)
-			if field.Name() == "_" {
-				continue
-			}
-			if !CanUnmarshal(field.Type()) {
-				continue
-			}
-			name, tag, ok := g.parseField(field.Var, field.Tag)
-			if !ok {
-				continue
-			}
-			if tag.Name != "" {
-				name = tag.Name
-			}
-			if used[name] {
-				continue
-			}
-			used[name] = true
-			var cf meta.Code
-			if tag.Params.Has("raw") && meta.IsString(field.Type()) {
-				cf = g.RawStringUnmarshaler(field.Type())
-			} else {
-				cf = g.TypeUnmarshaler(field.Type())
-			}
-			code = g.Code(`%s
+	for _, field := range g.selectFields(fields) {
+		if !CanUnmarshal(field.Type()) {
+			continue
+		}
+		var cf meta.Code
+		if field.tag.Params.Has("raw") && meta.IsString(field.Type()) {
+			cf = g.RawStringUnmarshaler(field.Type())
+		} else {
+			cf = g.TypeUnmarshaler(field.Type())
+		}
+		code = g.Code(`%s
 				case %s:
 					n := n.With(values.ID())
 					%s{
 						r := &r%s
 						%s
 					}
-					`, code, fmt.Sprintf("`%s`", name), g.EnsurePath(field.Path), field.Path, cf)
-			if code.Err() != nil {
-				return
-			}
+					`, code, fmt.Sprintf("`%s`", field.name), g.EnsurePath(field.Path), field.Path, cf)
+		if code.Err() != nil {
+			return
 		}
 	}
 	return g.Code(`
-- 
2.43.0


From dbc44f339aec0a5ba172ec92ed23ad84fe82bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:20 +0000
Subject: [PATCH 52/70] fix: qualify generated types by package name

The type url.Values was written net/url.Values.
---
 internal/generator/generator.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a349b17..0f239a8 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -37,6 +37,18 @@ type Generator struct {
 	imports map[string]*types.Package
 }
 
+// Code formats a code block using the names types have in the generated file.
+func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
+	return c.QPrintf(g.qualifier, format, args...)
+}
+
+func (g *Generator) qualifier(pkg *types.Package) string {
+	if pkg.Path() == g.Path() {
+		return ""
+	}
+	return pkg.Name()
+}
+
 type typeError struct {
 	typ types.Type
 }
-- 
2.43.0


From e1be614d1fd162231242e4b40d8f30db5eb50364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:23 +0000
Subject: [PATCH 53/70] fix: escape field names in generated code

A tag name with a quote or a backslash gave invalid code or invalid JSON, and
a key that uses escapes did not match its field.
---
 internal/generator/append.go    | 6 ++++--
 internal/generator/unmarshal.go | 9 ++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index a76c7eb..44336bb 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -6,6 +6,8 @@ import (
 	"strings"
 
 	"github.com/alxarch/meta"
+
+	"github.com/alxarch/njson/strjson"
 )
 
 // WriteAppender writes an AppendJSON method for a type
@@ -127,11 +129,11 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 				out = append(out, "{,"[more])
 				more = 1
 				out = append(out, '"')
-				out = append(out, "%s"...)
+				out = append(out, %q...)
 				out = append(out, '"', ':')
 				{
 					%s
-				}`, name, cf)
+				}`, strjson.AppendEscaped(nil, name, false), cf)
 		if tag.Params.Has(paramOmitempty) {
 			cf = g.TypeOmiter(field.Type(), cf)
 		}
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index e5b17d7..28770c4 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -1,7 +1,6 @@
 package generator
 
 import (
-	"fmt"
 	"go/types"
 	"strings"
 
@@ -317,13 +316,13 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 			cf = g.TypeUnmarshaler(field.Type())
 		}
 		code = g.Code(`%s
-				case %s:
+				case %q:
 					n := n.With(values.ID())
 					%s{
 						r := &r%s
 						%s
 					}
-					`, code, fmt.Sprintf("`%s`", field.name), g.EnsurePath(field.Path), field.Path, cf)
+					`, code, field.name, g.EnsurePath(field.Path), field.Path, cf)
 		if code.Err() != nil {
 			return
 		}
@@ -333,10 +332,10 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 			return n.TypeError(njson.TypeObject)
 		}
 		for values := n.Values(); values.Next(); {
-			switch values.Key() {
+			switch strjson.Unescaped(values.Key()) {
 				%s
 			}
-		}`, code).Import(njsonPkg)
+		}`, code).Import(njsonPkg, strjsonPkg)
 
 }
 
-- 
2.43.0


From 4aed912afe6a8e2c75896a525389f115aaf37cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 54/70] fix: generate a type check for string fields

A number, or an object, was decoded as an empty string without an error.
---
 internal/generator/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 28770c4..673d8bb 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -166,7 +166,7 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 	case types.Bool:
 		c = "if b, ok := n.ToBool(); ok { *r = %s(b) } else { return n.TypeError(njson.TypeBoolean) }"
 	case types.String:
-		return g.Code("*r = %s(n.Unescaped())", t)
+		c = "if n.Type() == njson.TypeString { *r = %s(n.Unescaped()) } else { return n.TypeError(njson.TypeString) }"
 	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
 		c = "if i, ok := n.ToInt(); ok { *r = %s(i) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
@@ -299,7 +299,7 @@ default:
 
 // RawStringUnmarshaler unmarshals strings without unescaping
 func (g *Generator) RawStringUnmarshaler(t types.Type) meta.Code {
-	return g.Code(`*r = %s(n.Raw())`, t)
+	return g.Code("if n.Type() == njson.TypeString { *r = %s(n.Raw()) } else { return n.TypeError(njson.TypeString) }", t).Import(njsonPkg)
 }
 
 // StructUnmarshaler generates the code block to unmarshal a struct.
-- 
2.43.0


From 231e22cc2e8312df9338b03ac1b8785ab0c637b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:29 +0000
Subject: [PATCH 55/70] fix: generate an overflow check for integer fields

The number 300 was decoded into a uint8 as 44.
---
 internal/generator/unmarshal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 673d8bb..468e96c 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -168,9 +168,9 @@ func (g *Generator) BasicUnmarshaler(t types.Type, b *types.Basic) (code meta.Co
 	case types.String:
 		c = "if n.Type() == njson.TypeString { *r = %s(n.Unescaped()) } else { return n.TypeError(njson.TypeString) }"
 	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
-		c = "if i, ok := n.ToInt(); ok { *r = %s(i) } else { return n.TypeError(njson.TypeNumber) }"
+		c = "if i, ok := n.ToInt(); ok && int64(%[1]s(i)) == i { *r = %[1]s(i) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
-		c = ("if u, ok := n.ToUint(); ok { *r = %s(u) } else { return n.TypeError(njson.TypeNumber) }")
+		c = "if u, ok := n.ToUint(); ok && uint64(%[1]s(u)) == u { *r = %[1]s(u) } else { return n.TypeError(njson.TypeNumber) }"
 	case types.Float32, types.Float64:
 		c = "if f, ok := n.ToFloat(); ok { *r = %s(f) } else { return n.TypeError(njson.TypeNumber) }"
 	default:
-- 
2.43.0


From 5f12f4d56437e40f33e7314d82d74ad532697d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 56/70] fix: generate code that decodes a slice of the right
 length

A slice that had to grow kept its old length as empty elements at the end.
---
 internal/generator/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 468e96c..81547ea 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -118,7 +118,7 @@ case njson.TypeArray:
 	size := values.Len()
 	
 	if cap(*r) < size {
-		*r = make([]%s, len(*r) + size)
+		*r = make([]%s, size)
 	} else {
 		*r = (*r)[:size]
 	}
-- 
2.43.0


From 28ba5461727949da41e5c06e46b13320fb6e348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 57/70] fix: generate code for empty interfaces that compiles

---
 internal/generator/append.go    | 2 +-
 internal/generator/unmarshal.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 44336bb..7da925f 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -247,7 +247,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 			return c.Println(`
 				// Fallback to json.Marshal for empty interface
 				if data, err := json.Marshal(v); err == nil {
-					out = append(out, data)
+					out = append(out, data...)
 				} else {
 					return out, err
 				}`).Import(jsonPkg)
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 81547ea..58365d0 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -156,7 +156,7 @@ default:
 
 // InterfaceUnmarshaler generates the code block to unmarshal an empty interface.
 func (g *Generator) InterfaceUnmarshaler(t types.Type, b *types.Interface) (code meta.Code) {
-	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.AnyValue) }`)
+	return code.Import(njsonPkg).Println(`if x, ok := n.ToInterface(); ok { *r = x } else { return n.TypeError(njson.TypeAnyValue) }`)
 }
 
 // BasicUnmarshaler generates the code block to unmarshal a basic type.
-- 
2.43.0


From 80cecc85e24e896795c3aa9990ec24083e46ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:04 +0000
Subject: [PATCH 58/70] fix: generate code for time.Duration that compiles

Also unescape times and durations before they are parsed.
---
 internal/generator/unmarshal.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 58365d0..614e39c 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -218,26 +218,28 @@ func (g *Generator) JSONUnmarshaler(t types.Type) (code meta.Code) {
 // TimeUnmarshaler generates code to unmarshal time.Time values.
 func (g *Generator) TimeUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if t, err := time.Parse(time.RFC3339, n.Raw()); err != nil {
+	if n.Type() != njson.TypeString {
+		return n.TypeError(njson.TypeString)
+	} else if t, err := time.Parse(time.RFC3339, n.Unescaped()); err != nil {
 		return err
 	} else {
 		*r = t
 	}
-	`).Import(types.NewPackage("time", "time"))
+	`).Import(types.NewPackage("time", "time"), njsonPkg)
 }
 
 // DurationUnmarshaler generates code to unmarshal time.Time values.
 func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
 	switch n.Type() {
-	case njson.Number:
-		if f, ok := n.ToNumber(); ok {
-			*r = time.Duration(f)
+	case njson.TypeNumber:
+		if i, ok := n.ToInt(); ok {
+			*r = time.Duration(i)
 		} else {
-			return errors.New("Invalid JSON number")
+			return n.TypeError(njson.TypeNumber|njson.TypeString)
 		}
-	case njson.String:
-		if t, err := time.ParseDuration(n.Raw()); err != nil {
+	case njson.TypeString:
+		if t, err := time.ParseDuration(n.Unescaped()); err != nil {
 			return err
 		} else {
 			*r = t
@@ -245,7 +247,7 @@ func (g *Generator) DurationUnmarshaler(t types.Type) (code meta.Code) {
 	default:
 		return n.TypeError(njson.TypeNumber|njson.TypeString)
 	}
-	`).Import(types.NewPackage("time", "time"))
+	`).Import(types.NewPackage("time", "time"), njsonPkg)
 }
 
 // TextUnmarshaler generates code to wrap the UnmarshalText method of a value.
-- 
2.43.0


From 74f5f0452a085cc45580b50e0329f85c5f7421fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:06 +0000
Subject: [PATCH 59/70] fix: generate code that compiles for fields with an
 UnmarshalNodeJSON method

---
 internal/generator/unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 614e39c..f8df78f 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -200,7 +200,7 @@ func (g *Generator) EnsurePath(path meta.FieldPath) (code meta.Code) {
 // NodeJSONUnmarshaler generates code to wrap the UnmarshalNodeJSON method of a value.
 func (g *Generator) NodeJSONUnmarshaler(t types.Type) (code meta.Code) {
 	return g.Code(`
-	if err := v.%s(n); err != nil {
+	if err := r.%s(n); err != nil {
 		return err
 	}
 	`, methodNodeUnmarshalJSON.Name())
-- 
2.43.0


From 52589b5060dd4c4ae1042e9af22bbc9ec782b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 60/70] fix: generate the keys of maps

Keys were written with two quotes on each side and read without unescaping,
and only the key type string compiled. The text of a TextMarshaler is escaped
and named string types compile.
---
 internal/generator/append.go    | 58 +++++++++++++++++++++++----------
 internal/generator/unmarshal.go | 29 ++++++++++-------
 2 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 7da925f..13853e2 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -146,6 +146,43 @@ func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
 	return
 }
 
+// KeyAppender returns the AppendJSON block code for the key of a map
+func (g *Generator) KeyAppender(typ types.Type) (c meta.Code) {
+	switch {
+	case types.Implements(typ, typTextMarshaler):
+		return g.TextAppender()
+	case meta.IsString(typ):
+		return g.StringAppender()
+	default:
+		return g.Code(`
+		out = append(out, '"')
+		%s
+		out = append(out, '"')
+		`, g.TypeAppender(typ, nil))
+	}
+}
+
+// TextAppender returns the AppendJSON block code for the text a value marshals to
+func (g *Generator) TextAppender() (c meta.Code) {
+	return c.Println(`
+		data, err := v.MarshalText()
+		if err != nil {
+			return out, err
+		}
+		out = append(out, '"')
+		out = strjson.AppendEscaped(out, string(data), false)
+		out = append(out, '"')
+	`).Import(strjsonPkg)
+}
+
+// StringAppender returns the AppendJSON block code for a string
+func (g *Generator) StringAppender() (c meta.Code) {
+	return c.Println(`
+				out = append(out, '"')
+				out = strjson.AppendEscaped(out, string(v), false)
+				out = append(out, '"')`).Import(strjsonPkg)
+}
+
 // TypeAppender returnds the AppendJSON block code for a type
 func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
 	switch {
@@ -165,16 +202,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		out = append(out, data...)
 		`)
 	case types.Implements(typ, typTextMarshaler):
-		return g.Code(`
-		data, err := v.MarshalText()
-		if err != nil {
-			return out, err
-		}
-		out = append(out, '"')
-		out = append(out, data...)
-		out = append(out, '"')
-		`)
-
+		return g.TextAppender()
 	}
 	switch t := typ.Underlying().(type) {
 	case *types.Pointer:
@@ -192,17 +220,16 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 				for k, v := range v {
 					out = append(out, "{,"[more])
 					more = 1
-					out = append(out, '"')
 					{
 						v := k
 						%s
 					}
-					out = append(out, '"', ':')
+					out = append(out, ':')
 					%s
 				}
 				out = append(out, "{}"[more:]...)
 			}
-		`, g.TypeAppender(t.Key(), nil), g.TypeAppender(t.Elem(), params))
+		`, g.KeyAppender(t.Key()), g.TypeAppender(t.Elem(), params))
 	case *types.Slice:
 		return g.Code(`
 			out = append(out, '[')
@@ -228,10 +255,7 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 					out = append(out, v...)
 					out = append(out, '"')`)
 			}
-			return c.Println(`
-				out = append(out, '"')
-				out = strjson.AppendEscaped(out, v, false)
-				out = append(out, '"')`).Import(strjsonPkg)
+			return g.StringAppender()
 		default:
 			if info := t.Info(); info&types.IsFloat != 0 {
 				return c.Println(`out = numjson.AppendFloat(out, float64(v), 64)`).Import(numjsonPkg)
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index f8df78f..48743be 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -261,17 +261,21 @@ func (g *Generator) TextUnmarshaler(t types.Type) (code meta.Code) {
 
 // MapUnmarshaler generates the code block to unmarshal a map.
 func (g *Generator) MapUnmarshaler(t types.Type, m *types.Map) (code meta.Code) {
-	// TODO: Enforce string, TextUnmarshaler key type
 	typK := m.Key()
-	// var codeK meta.Code
-	// switch {
-	// case meta.IsString(typK):
-	// 	codeK = g.TypeUnmarshaler(typK)
-	// case types.Implements(typK, typTextUnmarshaler):
-	// 	codeK = g.TypeUnmarshaler(typK)
-	// default:
-	// 	return code.Errorf("Invalid key type %s", typK)
-	// }
+	var codeK meta.Code
+	switch {
+	case types.Implements(types.NewPointer(typK), typTextUnmarshaler):
+		codeK = g.Code(`
+		var k %s
+		if err := k.UnmarshalText([]byte(strjson.Unescaped(values.Key()))); err != nil {
+			return err
+		}
+		`, typK)
+	case meta.IsString(typK):
+		codeK = g.Code(`k := %s(strjson.Unescaped(values.Key()))`, typK)
+	default:
+		return code.Errorf("Invalid key type %s", typK)
+	}
 	typV := m.Elem()
 	codeV := g.TypeUnmarshaler(typV)
 	return g.Code(`
@@ -285,18 +289,19 @@ case njson.TypeObject:
 	}
 	m := *r
 	for values.Next() {
+		%[4]s
 		var v %[2]s
 		{
 			n := n.With(values.ID())
 			r := &v
 			%[3]s
 		}
-		m[values.Key()] = v
+		m[k] = v
 	}
 default:
 	return n.TypeError(njson.TypeObject|njson.TypeNull)
 }
-`, typK, typV, codeV).Import(njsonPkg)
+`, typK, typV, codeV, codeK).Import(njsonPkg, strjsonPkg)
 }
 
 // RawStringUnmarshaler unmarshals strings without unescaping
-- 
2.43.0


From 40e7765b2301aa02528447b8f5c4662a4ace9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 61/70] fix: generate code for pointer fields

A pointer to a type that is not a struct did not compile, a nil pointer to a
type with an encoding method panicked, a nil pointer field was left out and
methods of the pointer type of a field were not used.
---
 internal/generator/append.go | 38 +++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 13853e2..c3b5dfb 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -98,7 +98,7 @@ func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 // EnsureReversePath returns a code block to check the path to an embedded field does not contain any nil pointers
 func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.Code {
 	cond := []string{}
-	for i, p := range path {
+	for i, p := range path[:len(path)-1] {
 		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
 			cond = append(cond, fmt.Sprintf("v%s != nil", path[:i+1]))
 		}
@@ -185,15 +185,35 @@ func (g *Generator) StringAppender() (c meta.Code) {
 
 // TypeAppender returnds the AppendJSON block code for a type
 func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Code) {
+	switch typ.Underlying().(type) {
+	case *types.Pointer, *types.Interface:
+		c = g.valueAppender(typ, typ, params)
+		if c.Err() == nil {
+			c = g.Code(`
+			if v == nil {
+				out = append(out, "null"...)
+			} else {
+				%s
+			}
+			`, c)
+		}
+		return c
+	default:
+		// The value is in a variable so it has the methods of its pointer
+		return g.valueAppender(typ, types.NewPointer(typ), params)
+	}
+}
+
+func (g *Generator) valueAppender(typ, methods types.Type, params meta.Params) (c meta.Code) {
 	switch {
-	case types.Implements(typ, typJSONAppender):
+	case types.Implements(methods, typJSONAppender):
 		return g.Code(`
 		var err error
 		if out, err = v.AppendJSON(out); err != nil {
 			return out, err
 		}
 		`)
-	case types.Implements(typ, typJSONMarshaler):
+	case types.Implements(methods, typJSONMarshaler):
 		return g.Code(`
 		data, err := v.MarshalJSON()
 		if err != nil {
@@ -201,17 +221,17 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 		}
 		out = append(out, data...)
 		`)
-	case types.Implements(typ, typTextMarshaler):
+	case types.Implements(methods, typTextMarshaler):
 		return g.TextAppender()
 	}
 	switch t := typ.Underlying().(type) {
 	case *types.Pointer:
+		if meta.IsStruct(t.Elem()) {
+			return g.TypeAppender(t.Elem(), params)
+		}
 		return g.Code(`
-			if v == nil {
-				out = append(out, "null"...)
-			} else {
-				%s
-			}
+			v := *v
+			%s
 		`, g.TypeAppender(t.Elem(), params))
 	case *types.Map:
 		return g.Code(`
-- 
2.43.0


From 027b5ce597b48668a1fde4b6b604afb30a6dccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 62/70] fix: generate omitempty for structs and for types with
 an omit method

A struct was an error, where encoding/json never leaves it out. The omit
method of a nil pointer panicked and that of a pointer type was not used.
---
 internal/generator/append.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index c3b5dfb..7946b66 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -53,9 +53,18 @@ func (g *Generator) OmiterType() (string, *types.Interface) {
 // TypeOmiter returns the code block to check if a value should be omitted
 func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 	cond := ""
-	if method, omiter := g.OmiterType(); types.Implements(typ, omiter) {
-		cond = `!v.` + method + `()`
-	} else {
+	method, omiter := g.OmiterType()
+	switch typ.Underlying().(type) {
+	case *types.Pointer, *types.Interface:
+		if types.Implements(typ, omiter) {
+			cond = `v != nil && !v.` + method + `()`
+		}
+	default:
+		if types.Implements(types.NewPointer(typ), omiter) {
+			cond = `!v.` + method + `()`
+		}
+	}
+	if cond == "" {
 		switch t := typ.Underlying().(type) {
 		case *types.Pointer:
 			cond = `v != nil`
@@ -63,9 +72,6 @@ func (g *Generator) TypeOmiter(typ types.Type, block meta.Code) meta.Code {
 			cond = `len(v) > 0`
 		case *types.Slice:
 			cond = `len(v) > 0`
-		case *types.Struct:
-			return block.Error(typeError{typ})
-
 		case *types.Basic:
 			switch t.Kind() {
 			case types.Bool:
-- 
2.43.0


From e63fdadf9910304d669c1a98a00a4910dfa5b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 63/70] fix: generate code that compiles for structs without
 fields to use

---
 internal/generator/append.go    | 7 ++++++-
 internal/generator/unmarshal.go | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 7946b66..4094fc4 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -126,8 +126,13 @@ func (g *Generator) EnsureReversePath(path meta.FieldPath, code meta.Code) meta.
 
 // StructAppender returns the AppendJSON block code for a struct
 func (g *Generator) StructAppender(fields meta.Fields) (c meta.Code) {
+	selected := g.selectFields(fields)
+	if len(selected) == 0 {
+		return c.Println(`_ = v
+	out = append(out, "{}"...)`)
+	}
 	c = c.Println(`more := 0`)
-	for _, field := range g.selectFields(fields) {
+	for _, field := range selected {
 		name, tag := field.name, field.tag
 		var cf meta.Code
 		cf = g.TypeAppender(field.Type(), tag.Params)
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 48743be..cfd3c90 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -334,6 +334,13 @@ func (g *Generator) StructUnmarshaler(t *types.Struct) (code meta.Code) {
 			return
 		}
 	}
+	if len(code.Code) == 0 {
+		return g.Code(`
+		_ = r
+		if n.Type() != njson.TypeObject {
+			return n.TypeError(njson.TypeObject)
+		}`).Import(njsonPkg)
+	}
 	return g.Code(`
 		if n.Type() != njson.TypeObject {
 			return n.TypeError(njson.TypeObject)
-- 
2.43.0


From 70bbc9d28bfc352dd292aed8f56614a6c13b8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 64/70] fix: generate code to decode fields of any kind with a
 decoding method

---
 internal/generator/unmarshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index cfd3c90..2720783 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -358,6 +358,12 @@ func CanUnmarshal(t types.Type) bool {
 	if t == nil {
 		return false
 	}
+	switch pt := types.NewPointer(t); {
+	case types.Implements(pt, typNodeJSONUnmarshaler),
+		types.Implements(pt, typJSONUnmarshaler),
+		types.Implements(pt, typTextUnmarshaler):
+		return true
+	}
 	switch typ := t.Underlying().(type) {
 	case *types.Map:
 		return true
-- 
2.43.0


From d7d6df5ab107dc8ab5075bbe5764c43066e28d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 65/70] fix: generate a valid receiver name for type names that
 start with _ or a non-ASCII letter

---
 internal/generator/append.go    |  2 +-
 internal/generator/generator.go | 11 +++++++++++
 internal/generator/unmarshal.go |  3 +--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index 4094fc4..fba83a5 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -27,7 +27,7 @@ func (g *Generator) Appender(typName string) (c meta.Code) {
 	if typ == nil {
 		return c.Errorf("Type %s not found", typName)
 	}
-	receiverName := strings.ToLower(typName[:1])
+	receiverName := g.receiverName(typName)
 	method := g.AppendMethod()
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(out []byte) ([]byte, error) {
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 0f239a8..229725a 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -22,6 +22,8 @@ import (
 	"sort"
 	"strings"
 	"time"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/alxarch/meta"
 )
@@ -42,6 +44,15 @@ func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
 	return c.QPrintf(g.qualifier, format, args...)
 }
 
+// receiverName returns the name of the receiver for the methods of a type.
+func (g *Generator) receiverName(typName string) string {
+	r, _ := utf8.DecodeRuneInString(typName)
+	if r = unicode.ToLower(r); unicode.IsLetter(r) {
+		return string(r)
+	}
+	return "x"
+}
+
 func (g *Generator) qualifier(pkg *types.Package) string {
 	if pkg.Path() == g.Path() {
 		return ""
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 2720783..17e893f 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -2,7 +2,6 @@ package generator
 
 import (
 	"go/types"
-	"strings"
 
 	"github.com/alxarch/meta"
 )
@@ -13,7 +12,7 @@ func (g *Generator) Unmarshaler(typeName string) (code meta.Code) {
 	if typ == nil {
 		return code.Errorf("Type %s not found", typeName)
 	}
-	receiverName := strings.ToLower(typeName[:1])
+	receiverName := g.receiverName(typeName)
 	return g.Code(`
 		func (%[1]s *%[2]s) %[3]s(node njson.Node) error {
 			typ := node.Type()
-- 
2.43.0


From 9f46f962285155ae492cbc73705a03b1ff710a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 66/70] fix: do not generate code for the unexported fields of
 other packages

---
 internal/generator/options.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/generator/options.go b/internal/generator/options.go
index 2c378a3..d920b4c 100644
--- a/internal/generator/options.go
+++ b/internal/generator/options.go
@@ -155,11 +155,14 @@ type selectedField struct {
 
 // selectFields returns the fields to generate in the order they are declared.
 // A field hides the fields of the same JSON name at the end of longer paths.
-func (o *options) selectFields(fields meta.Fields) (selected []selectedField) {
+func (g *Generator) selectFields(fields meta.Fields) (selected []selectedField) {
 	for _, named := range fields {
 		for _, field := range named {
-			field = field.WithTag(o.TagKey())
-			if name, tag, ok := o.parseField(field.Var, field.Tag); ok {
+			field = field.WithTag(g.TagKey())
+			if !g.accessible(field.Path) {
+				continue
+			}
+			if name, tag, ok := g.parseField(field.Var, field.Tag); ok {
 				if tag.Name != "" {
 					name = tag.Name
 				}
@@ -188,6 +191,16 @@ func (o *options) selectFields(fields meta.Fields) (selected []selectedField) {
 	return unique
 }
 
+// accessible checks that a path does not use unexported fields of other packages.
+func (g *Generator) accessible(path meta.FieldPath) bool {
+	for _, field := range path {
+		if !field.Exported() && field.Pkg().Path() != g.Path() {
+			return false
+		}
+	}
+	return true
+}
+
 // TagKey sets the tag key to use when parsing struct fields
 func TagKey(key string) Option {
 	return func(g *Generator) {
-- 
2.43.0


From fe96431ce8794f7d26b0971d40422eac27e93957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:52 +0000
Subject: [PATCH 67/70] fix: generate code for types that refer to themselves

The generator ran out of stack. A type that refers to itself calls its own
method, other cycles are reported.
---
 internal/generator/append.go    | 12 ++++++++++++
 internal/generator/generator.go | 20 ++++++++++++++++++++
 internal/generator/unmarshal.go | 15 +++++++++++++++
 3 files changed, 47 insertions(+)

diff --git a/internal/generator/append.go b/internal/generator/append.go
index fba83a5..c84845f 100644
--- a/internal/generator/append.go
+++ b/internal/generator/append.go
@@ -216,7 +216,19 @@ func (g *Generator) TypeAppender(typ types.Type, params meta.Params) (c meta.Cod
 }
 
 func (g *Generator) valueAppender(typ, methods types.Type, params meta.Params) (c meta.Code) {
+	recursive, leave, err := g.enter(typ)
+	if err != nil {
+		return c.Error(err)
+	}
+	defer leave()
 	switch {
+	case recursive:
+		return g.Code(`
+		var err error
+		if out, err = v.%s(out); err != nil {
+			return out, err
+		}
+		`, g.AppendMethod())
 	case types.Implements(methods, typJSONAppender):
 		return g.Code(`
 		var err error
diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index 229725a..a5b4412 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -37,6 +37,7 @@ type Generator struct {
 	test    bool
 	buffer  bytes.Buffer
 	imports map[string]*types.Package
+	entered []types.Type
 }
 
 // Code formats a code block using the names types have in the generated file.
@@ -44,6 +45,25 @@ func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
 	return c.QPrintf(g.qualifier, format, args...)
 }
 
+// enter keeps track of the defined types that are being generated, the type of
+// the method first, until leave is called. Inside itself that type is recursive.
+func (g *Generator) enter(typ types.Type) (recursive bool, leave func(), err error) {
+	named, ok := typ.(*types.Named)
+	if !ok {
+		return false, func() {}, nil
+	}
+	for i, t := range g.entered {
+		if types.Identical(t, named) {
+			if i > 0 {
+				return false, nil, typeError{typ}
+			}
+			recursive = true
+		}
+	}
+	g.entered = append(g.entered, named)
+	return recursive, func() { g.entered = g.entered[:len(g.entered)-1] }, nil
+}
+
 // receiverName returns the name of the receiver for the methods of a type.
 func (g *Generator) receiverName(typName string) string {
 	r, _ := utf8.DecodeRuneInString(typName)
diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 17e893f..6e74309 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -72,8 +72,23 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return code.Error(typeError{t})
 	}
 
+	recursive, leave, err := g.enter(t)
+	if err != nil {
+		return code.Error(err)
+	}
+	defer leave()
+
 	pt := types.NewPointer(t)
 	switch {
+	case recursive:
+		return g.Code(`
+	if n.Type() != njson.TypeObject {
+		return n.TypeError(njson.TypeObject)
+	}
+	if err := r.%s(n); err != nil {
+		return err
+	}
+	`, g.UnmarshalMethod()).Import(njsonPkg)
 	case g.isTime(t):
 		return g.TimeUnmarshaler(t)
 	case g.isDuration(t):
-- 
2.43.0


From c41e6326edf559c786dc208cfaec88348457d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:32 +0000
Subject: [PATCH 68/70] fix: use the UnmarshalNodeJSON method of field types in
 generated code

---
 internal/generator/unmarshal.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index 6e74309..c083474 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -52,6 +52,19 @@ func (g *Generator) WriteUnmarshaler(typeName string) (err error) {
 	return
 }
 
+// implementsNodeUnmarshaler checks if a type has an UnmarshalNodeJSON method.
+// The generated package has imported its own njson.Node, not identical to typNode.
+func implementsNodeUnmarshaler(t types.Type) bool {
+	m := types.NewMethodSet(t).Lookup(nil, methodNodeUnmarshalJSON.Name())
+	if m == nil {
+		return false
+	}
+	sig, ok := m.Type().(*types.Signature)
+	return ok && sig.Params().Len() == 1 && !sig.Variadic() &&
+		types.TypeString(sig.Params().At(0).Type(), nil) == types.TypeString(typNode, nil) &&
+		types.Identical(sig.Results(), methodNodeUnmarshalJSON.Type().(*types.Signature).Results())
+}
+
 func (g *Generator) isTime(t types.Type) bool {
 	if pkg := g.FindImport("time"); pkg != nil {
 		return types.Identical(t, pkg.Scope().Lookup("Time").Type())
@@ -93,7 +106,7 @@ func (g *Generator) TypeUnmarshaler(t types.Type) (code meta.Code) {
 		return g.TimeUnmarshaler(t)
 	case g.isDuration(t):
 		return g.DurationUnmarshaler(t)
-	case types.Implements(pt, typNodeJSONUnmarshaler):
+	case implementsNodeUnmarshaler(pt):
 		return g.NodeJSONUnmarshaler(t)
 	case types.Implements(pt, typJSONUnmarshaler):
 		return g.JSONUnmarshaler(t)
@@ -373,7 +386,7 @@ func CanUnmarshal(t types.Type) bool {
 		return false
 	}
 	switch pt := types.NewPointer(t); {
-	case types.Implements(pt, typNodeJSONUnmarshaler),
+	case implementsNodeUnmarshaler(pt),
 		types.Implements(pt, typJSONUnmarshaler),
 		types.Implements(pt, typTextUnmarshaler):
 		return true
-- 
2.43.0


From 36f9d06b0d15b0faf728d10a85ad891928cde133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:35 +0000
Subject: [PATCH 69/70] fix: generate the same code for time.Time and
 time.Duration fields of other packages' structs

---
 internal/generator/unmarshal.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/internal/generator/unmarshal.go b/internal/generator/unmarshal.go
index c083474..4f2d009 100644
--- a/internal/generator/unmarshal.go
+++ b/internal/generator/unmarshal.go
@@ -66,17 +66,11 @@ func implementsNodeUnmarshaler(t types.Type) bool {
 }
 
 func (g *Generator) isTime(t types.Type) bool {
-	if pkg := g.FindImport("time"); pkg != nil {
-		return types.Identical(t, pkg.Scope().Lookup("Time").Type())
-	}
-	return false
+	return types.TypeString(t, nil) == "time.Time"
 }
 
 func (g *Generator) isDuration(t types.Type) bool {
-	if pkg := g.FindImport("time"); pkg != nil {
-		return types.Identical(t, pkg.Scope().Lookup("Duration").Type())
-	}
-	return false
+	return types.TypeString(t, nil) == "time.Duration"
 }
 
 // TypeUnmarshaler returns the code block for unmarshaling a type.
-- 
2.43.0


From ab5f4078ae3f77066dde81889ce1b7fb950ea2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 70/70] fix: import all packages of the types named in
 generated code

---
 internal/generator/generator.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/generator/generator.go b/internal/generator/generator.go
index a5b4412..6913c02 100644
--- a/internal/generator/generator.go
+++ b/internal/generator/generator.go
@@ -40,9 +40,15 @@ type Generator struct {
 	entered []types.Type
 }
 
-// Code formats a code block using the names types have in the generated file.
+// Code formats a code block using the names types have in the generated file
+// and imports their packages.
 func (g *Generator) Code(format string, args ...interface{}) (c meta.Code) {
-	return c.QPrintf(g.qualifier, format, args...)
+	var used []interface{}
+	c = c.QPrintf(func(pkg *types.Package) string {
+		used = append(used, pkg)
+		return g.qualifier(pkg)
+	}, format, args...)
+	return c.Import(used...)
 }
 
 // enter keeps track of the defined types that are being generated, the type of
-- 
2.43.0

