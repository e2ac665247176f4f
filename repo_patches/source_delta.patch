From 4bb130f629922836ae5dcfb7ac2675f39fd73163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 01/29] fix: never append to the path slice of a caller

Extending the variadic path with append wrote the key into the spare
capacity of the slice the caller passed in: concurrent calls sharing a
path prefix mixed up their keys, and Walk overwrote paths it had
already handed to its callback.
---
 inter_add.go      | 5 ++---
 inter_get.go      | 4 ++--
 inter_set.go      | 2 +-
 jin_object_add.go | 2 +-
 utils.go          | 9 +++++++++
 walk.go           | 4 ++--
 6 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 5eb2cad..8dd4fef 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -60,8 +60,7 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			json = replace(json, val, end-1, end-1)
 			return json, nil
 		}
-		path = append(path, key)
-		_, _, _, err = core(json, false, path...)
+		_, _, _, err = core(json, false, joinPath(path, key)...)
 		if err != nil {
 			if ErrEqual(err, ErrCodeKeyNotFound) {
 				val := []byte(`,"` + key + `":` + string(value))
@@ -181,7 +180,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, append(path, strconv.Itoa(index))...)
+	_, start, end, err = core(json, false, joinPath(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
diff --git a/inter_get.go b/inter_get.go
index 369126f..6a6669e 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -631,7 +631,7 @@ func GetAll(json []byte, keys []string, path ...string) ([]string, error) {
 	var val string
 	results := make([]string, 0, len(keys))
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, joinPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
@@ -647,7 +647,7 @@ func GetAllMap(json []byte, keys []string, path ...string) (map[string]string, e
 	var val string
 	results := make(map[string]string)
 	for _, k := range keys {
-		val, err = GetString(json, append(path, k)...)
+		val, err = GetString(json, joinPath(path, k)...)
 		if err != nil {
 			return nil, err
 		}
diff --git a/inter_set.go b/inter_set.go
index f32c914..5070a9c 100755
--- a/inter_set.go
+++ b/inter_set.go
@@ -92,7 +92,7 @@ func SetKey(json []byte, newKey string, path ...string) ([]byte, error) {
 // Store sets or adds a new value to the body
 // like a real json store event
 func Store(json []byte, key string, value []byte, path ...string) ([]byte, error) {
-	_, start, end, err := core(json, false, append(path, key)...)
+	_, start, end, err := core(json, false, joinPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			return AddKeyValue(json, key, value, path...)
diff --git a/jin_object_add.go b/jin_object_add.go
index 49e602d..a435800 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -108,7 +108,7 @@ func (j *JO) InsertBool(index int, value bool, path ...string) error {
 }
 
 func (j *JO) Store(key string, value []byte, path ...string) error {
-	_, start, end, err := core(j.body, false, append(path, key)...)
+	_, start, end, err := core(j.body, false, joinPath(path, key)...)
 	if err != nil {
 		if ErrEqual(err, ErrCodeKeyNotFound) {
 			j.body, err = AddKeyValue(j.body, key, value, path...)
diff --git a/utils.go b/utils.go
index 09ff21e..c763d28 100755
--- a/utils.go
+++ b/utils.go
@@ -13,6 +13,15 @@ func replace(json, newValue []byte, start, end int) []byte {
 	return newJSON
 }
 
+// joinPath returns path followed by key in memory of its own,
+// appending to the path of a caller could write into his array.
+func joinPath(path []string, key string) []string {
+	newPath := make([]string, len(path)+1)
+	copy(newPath, path)
+	newPath[len(path)] = key
+	return newPath
+}
+
 func space(curr byte) bool {
 	// space
 	if curr == 32 {
diff --git a/walk.go b/walk.go
index 2c13fbd..6f475cf 100644
--- a/walk.go
+++ b/walk.go
@@ -20,7 +20,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	switch t {
 	case TypeObject:
 		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, append(path, string(keyBytes)), callback)
+			err = walk(json, joinPath(path, string(keyBytes)), callback)
 			if err != nil {
 				return false, err
 			}
@@ -32,7 +32,7 @@ func walk(json []byte, path []string, callback func(k string, v []byte, p []stri
 	case TypeArray:
 		i := 0
 		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, append(path, strconv.Itoa(i)), callback)
+			err = walk(json, joinPath(path, strconv.Itoa(i)), callback)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 39b779ad930efe9d45fc5aa8d03d3d41744ab138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 02/29] fix: keep the saved and current keys of a Scheme apart

MakeScheme, Save, Restore and the key getters shared one array, so Add
after Save or Restore, or a caller appending to a returned slice, could
change the saved keys or the keys of another Scheme.
---
 make.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/make.go b/make.go
index 15dd856..a8ce91e 100755
--- a/make.go
+++ b/make.go
@@ -14,11 +14,18 @@ type Scheme struct {
 	keys         []string
 }
 
+// copyKeys gives a key slice its own memory.
+func copyKeys(keys []string) []string {
+	newKeys := make([]string, len(keys))
+	copy(newKeys, keys)
+	return newKeys
+}
+
 // MakeScheme is constructor method for creating Scheme's.
 // It needs key(s) for create JSON.
 // More information on Type Scheme example.
 func MakeScheme(keys ...string) *Scheme {
-	return &Scheme{keys: keys, originalKeys: keys}
+	return &Scheme{keys: copyKeys(keys), originalKeys: copyKeys(keys)}
 }
 
 // MakeJson is main creation method for creating JSON's from Schemes.
@@ -139,25 +146,25 @@ func (s *Scheme) Remove(key string) bool {
 // Save saves current keys for protect them temporary changes.
 // More information on Type Scheme example.
 func (s *Scheme) Save() {
-	s.originalKeys = s.keys
+	s.originalKeys = copyKeys(s.keys)
 }
 
 // Restore Schemes original form.
 // More information on Type Scheme example.
 func (s *Scheme) Restore() {
-	s.keys = s.originalKeys
+	s.keys = copyKeys(s.originalKeys)
 }
 
 // GetOriginalKeys is a simple get function for get Schemes original keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetOriginalKeys() []string {
-	return s.originalKeys
+	return copyKeys(s.originalKeys)
 }
 
 // GetCurrentKeys is a simple get function for get Schemes current keys.
 // More information on Type Scheme example.
 func (s *Scheme) GetCurrentKeys() []string {
-	return s.keys
+	return copyKeys(s.keys)
 }
 
 // MakeEmptyArray simply creates "[]" this as byte slice.
-- 
2.43.0


From 1980a9dba835d1c9e8e55ff910708980a1722cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 03/29] fix: builders give valid JSON for empty input and for
 floats

An empty but non-nil slice, map or key list gave "]" or "}", and
MakeArrayFloat dropped or panicked on short numbers.
---
 make.go | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/make.go b/make.go
index a8ce91e..022c970 100755
--- a/make.go
+++ b/make.go
@@ -176,7 +176,7 @@ func MakeEmptyArray() []byte {
 // Do not use any slice/array for parameter.
 // It will accept this kind types but won't be able to make valid representation for use!
 func MakeArray(elements ...interface{}) []byte {
-	if elements == nil {
+	if len(elements) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -194,7 +194,7 @@ func MakeArray(elements ...interface{}) []byte {
 // Parameter type must be slice of string.
 // For more information look MakeArray() function.
 func MakeArrayString(values []string) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte(`[]`)
 	}
 	js := make([]byte, 0, 128)
@@ -212,7 +212,7 @@ func MakeArrayString(values []string) []byte {
 // Parameter type must be slice of integer.
 // For more information look MakeArray() function.
 func MakeArrayInt(values []int) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -230,7 +230,7 @@ func MakeArrayInt(values []int) []byte {
 // Parameter type must be slice of boolean.
 // For more information look MakeArray() function.
 func MakeArrayBool(values []bool) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -256,25 +256,13 @@ func MakeArrayBool(values []bool) []byte {
 // Parameter type must be slice of float64.
 // For more information look MakeArray() function.
 func MakeArrayFloat(values []float64) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
 	js = append(js, 91)
 	for _, v := range values {
-		num := strconv.FormatFloat(v, 'f', -1, 64)
-		start := 0
-		for i := 0; i < len(num); i++ {
-			if num[i] == 'e' {
-				start = i
-			}
-		}
-		exp, _ := strconv.Atoi(num[start+2:])
-		if exp == 0 {
-			js = append(js, []byte(num[:start])...)
-		} else {
-			js = append(js, []byte(num)...)
-		}
+		js = append(js, []byte(strconv.FormatFloat(v, 'f', -1, 64))...)
 		js = append(js, 44)
 	}
 	js = js[:len(js)-1]
@@ -286,7 +274,7 @@ func MakeArrayFloat(values []float64) []byte {
 // Parameter type must be slice of byte.
 // For more information look MakeArray() function.
 func MakeArrayBytes(values ...[]byte) []byte {
-	if values == nil {
+	if len(values) == 0 {
 		return []byte{91, 93}
 	}
 	js := make([]byte, 0, 128)
@@ -312,7 +300,7 @@ func MakeJson(keys []string, values []interface{}) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -335,7 +323,7 @@ func MakeJsonString(keys, values []string) []byte {
 	if len(keys) != len(values) {
 		return nil
 	}
-	if keys == nil {
+	if len(keys) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
@@ -355,7 +343,7 @@ func MakeJsonString(keys, values []string) []byte {
 
 // MakeJsonWithMap creates an JSON formation from given string-string-map, and returns them as byte slice.
 func MakeJsonWithMap(json map[string]string) []byte {
-	if json == nil {
+	if len(json) == 0 {
 		return []byte{123, 125}
 	}
 	js := make([]byte, 0, 128)
-- 
2.43.0


From ae473a7c9dd4fa56e9e77fc6187ea224e6c77213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 04/29] fix: failed AddKeyValueString and InsertString return
 the document

They returned nil where every other edit returns the unchanged document,
so a JO lost its body on an empty key or a negative index.
---
 inter_add.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 8dd4fef..b3ca0aa 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -232,7 +232,7 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 // Type of new value must be a string.
 func AddKeyValueString(json []byte, key, value string, path ...string) ([]byte, error) {
 	if len(key) == 0 {
-		return nil, errNullKey()
+		return json, errNullKey()
 	}
 	return AddKeyValue(json, key, []byte(formatType(value)), path...)
 }
@@ -373,7 +373,7 @@ func AddBool(json []byte, value bool, path ...string) ([]byte, error) {
 // Type of new value must be an string.
 func InsertString(json []byte, index int, value string, path ...string) ([]byte, error) {
 	if index < 0 {
-		return nil, errIndexOutOfRange()
+		return json, errIndexOutOfRange()
 	}
 	return Insert(json, index, []byte(formatType(value)), path...)
 }
-- 
2.43.0


From 74fe4be3de67049a8c05c693df5a9f632103e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 05/29] fix: format sized integers in base ten

The bit size was passed as base: the 64 bit variants panicked, the 32
bit ones wrote base 32 digits.
---
 inter_add.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index b3ca0aa..4c8649b 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -252,7 +252,7 @@ func AddKeyValueUint(json []byte, key string, value uint, path ...string) ([]byt
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueInt32 is a variation of AddKeyValue() func.
@@ -261,7 +261,7 @@ func AddKeyValueInt32(json []byte, key string, value int32, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddKeyValueInt64 is a variation of AddKeyValue() func.
@@ -270,7 +270,7 @@ func AddKeyValueInt64(json []byte, key string, value int64, path ...string) ([]b
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddKeyValueUint32 is a variation of AddKeyValue() func.
@@ -279,7 +279,7 @@ func AddKeyValueUint32(json []byte, key string, value uint32, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddKeyValueUint64 is a variation of AddKeyValue() func.
@@ -288,7 +288,7 @@ func AddKeyValueUint64(json []byte, key string, value uint64, path ...string) ([
 	if len(key) == 0 {
 		return json, errNullKey()
 	}
-	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 64)), path...)
+	return AddKeyValue(json, key, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddKeyValueFloat is a variation of AddKeyValue() func.
@@ -327,31 +327,31 @@ func AddInt(json []byte, value int, path ...string) ([]byte, error) {
 // AddInt32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt32(json []byte, value int32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // AddInt64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddInt64(json []byte, value int64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatInt(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // AddUint is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint(json []byte, value uint, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint32 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint32(json []byte, value uint32, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Add(json, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // AddUint64 is a variation of Add() func.
 // Type of new value must be an integer.
 func AddUint64(json []byte, value uint64, path ...string) ([]byte, error) {
-	return Add(json, []byte(strconv.FormatUint(value, 64)), path...)
+	return Add(json, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // AddFloat is a variation of Add() func.
@@ -393,7 +393,7 @@ func InsertInt32(json []byte, index int, value int32, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(int64(value), 10)), path...)
 }
 
 // InsertInt64 is a variation of Insert() func.
@@ -402,7 +402,7 @@ func InsertInt64(json []byte, index int, value int64, path ...string) ([]byte, e
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatInt(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatInt(value, 10)), path...)
 }
 
 // InsertUint is a variation of Insert() func.
@@ -411,7 +411,7 @@ func InsertUint(json []byte, index int, value uint, path ...string) ([]byte, err
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint32 is a variation of Insert() func.
@@ -420,7 +420,7 @@ func InsertUint32(json []byte, index int, value uint32, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 32)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(uint64(value), 10)), path...)
 }
 
 // InsertUint64 is a variation of Insert() func.
@@ -429,7 +429,7 @@ func InsertUint64(json []byte, index int, value uint64, path ...string) ([]byte,
 	if index < 0 {
 		return json, errIndexOutOfRange()
 	}
-	return Insert(json, index, []byte(strconv.FormatUint(value, 64)), path...)
+	return Insert(json, index, []byte(strconv.FormatUint(value, 10)), path...)
 }
 
 // InsertFloat is a variation of Insert() func.
-- 
2.43.0


From 5984e5b88b688c530f8655debf20aad7c11c6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 06/29] fix: JO.StoreString formats its value like StoreString

It stored the text without quotation marks, which made the document
invalid JSON.
---
 jin_object_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jin_object_add.go b/jin_object_add.go
index a435800..cf6a342 100644
--- a/jin_object_add.go
+++ b/jin_object_add.go
@@ -127,7 +127,7 @@ func (j *JO) Store(key string, value []byte, path ...string) error {
 // StoreString jin_object method for same function name with interpreter
 func (j *JO) StoreString(key string, value string, path ...string) error {
 	var err error
-	j.body, err = Store(j.body, key, []byte(value), path...)
+	j.body, err = StoreString(j.body, key, value, path...)
 	return err
 }
 
-- 
2.43.0


From 2cd7808b25d5eafb570feb47aaeb7840f339b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:35 +0000
Subject: [PATCH 07/29] fix: leave only JSON numbers unquoted when formatting
 values

Strings like "+5", "-07", ".5", "NaN" or "Infinity" were written bare
and made the document invalid JSON.
---
 utils.go | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/utils.go b/utils.go
index c763d28..004cee1 100755
--- a/utils.go
+++ b/utils.go
@@ -67,13 +67,7 @@ func formatType(val string) string {
 	if isBool(val) {
 		return val
 	}
-	if isInt(val) {
-		if val[0] == 48 && len(val) > 1 {
-			return `"` + val + `"`
-		}
-		return val
-	}
-	if isFloat(val) {
+	if isJSONNumber(val) && (isInt(val) || isFloat(val)) {
 		return val
 	}
 	if val == "null" {
@@ -96,6 +90,43 @@ func formatType(val string) string {
 	return `"` + val + `"`
 }
 
+// isJSONNumber tells whether val is a number as JSON spells it.
+// the parsers of strconv also take "+5", "007", ".5", "0x1p4" or "NaN".
+func isJSONNumber(val string) bool {
+	i := 0
+	digits := func() bool {
+		start := i
+		for i < len(val) && val[i] >= '0' && val[i] <= '9' {
+			i++
+		}
+		return i > start
+	}
+	if i < len(val) && val[i] == '-' {
+		i++
+	}
+	if i < len(val) && val[i] == '0' {
+		i++
+	} else if !digits() {
+		return false
+	}
+	if i < len(val) && val[i] == '.' {
+		i++
+		if !digits() {
+			return false
+		}
+	}
+	if i < len(val) && (val[i] == 'e' || val[i] == 'E') {
+		i++
+		if i < len(val) && (val[i] == '+' || val[i] == '-') {
+			i++
+		}
+		if !digits() {
+			return false
+		}
+	}
+	return i == len(val)
+}
+
 func isBool(val string) bool {
 	return val == "true" || val == "false"
 }
-- 
2.43.0


From aec82405d8a2301235192333bb4e5b78effb2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 08/29] fix: core() stops at the end of the text and reads only
 members of the addressed value

---
 inter_core.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/inter_core.go b/inter_core.go
index 1ef3958..5c1d09f 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -31,14 +31,14 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		isJSONChar[v] = true
 	}
 	// trim spaces of start
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
 		continue
 	}
+	// json length overflow control
+	if offset > len(json)-1 {
+		return -1, -1, -1, errBadJSON(offset)
+	}
 	// braceType determine whether or not search will be a key search or index search
 	braceType := json[offset]
 	// if last path pointing at a key, that placeholder stores key start point.
@@ -191,8 +191,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 			found := false
 			// Key start index.
 			start := 0
-			// Key end index.
-			end := 0
+			// Key end index. no key yet
+			end := -1
 			// Current level.
 			level := k
 			// Not interested with comma in this search
@@ -265,6 +265,14 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										keyStart = start
 										break
 									} else {
+										// only a value that starts with an open brace
+										// can hold the rest of the path
+										for offset < len(json) && space(json[offset]) {
+											offset++
+										}
+										if offset == len(json) || (json[offset] != 91 && json[offset] != 123) {
+											return -1, -1, -1, errKeyNotFound(path[k+1])
+										}
 										continue
 									}
 								}
@@ -280,6 +288,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 							// for this purpose skipping values.
 							// Only need value if key is correct
 							innerLevel := level
+							jumped := false
 							for j := i; j < len(json); j++ {
 								// curr is current byte of reading.
 								curr := json[j]
@@ -314,7 +323,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										continue
 									}
 									if curr == 93 || curr == 125 {
-										if innerLevel < k+1 {
+										// the object is closed
+										if innerLevel <= k+1 {
 											return -1, -1, -1, errKeyNotFound(currentPath)
 										}
 										innerLevel--
@@ -326,6 +336,7 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 										if innerLevel == k+1 {
 											// jump i to j
 											i = j
+											jumped = true
 											break
 										} else {
 											continue
@@ -335,6 +346,10 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 								}
 
 							}
+							// the value has no end
+							if !jumped {
+								return -1, -1, -1, errKeyNotFound(currentPath)
+							}
 							// exclude comma character to json chars, jump func is ending.
 							isJSONChar[44] = false
 							// Include column character to json chars, jump func is ending.
@@ -374,7 +389,8 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 					}
 					// Close brace
 					if curr == 93 || curr == 125 {
-						if level < k+1 {
+						// the object is closed
+						if level <= k+1 {
 							return -1, -1, -1, errKeyNotFound(currentPath)
 						}
 						level--
@@ -397,14 +413,14 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 		return -1, -1, -1, errBadJSON(0)
 	}
 	// skip spaces from top.
-	for space(json[offset]) {
-		// json length overflow control
-		if offset > len(json)-1 {
-			return -1, -1, -1, errBadJSON(offset)
-		}
+	for offset < len(json) && space(json[offset]) {
 		offset++
 		continue
 	}
+	// json length overflow control
+	if offset > len(json)-1 {
+		return -1, -1, -1, errBadJSON(offset)
+	}
 	if justStart {
 		return keyStart, offset, 0, nil
 	}
-- 
2.43.0


From 79da78c2315f073e245f874ae7c337dd6f43c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 09/29] fix: do not edit strings that look like containers

---
 inter_add.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 4c8649b..8446111 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -48,7 +48,9 @@ func AddKeyValue(json []byte, key string, value []byte, path ...string) ([]byte,
 			return json, err
 		}
 	}
-	if json[start] == 123 && json[end-1] == 125 {
+	// a string can hold the text of an object
+	isString := len(path) != 0 && json[start-1] == 34
+	if json[start] == 123 && json[end-1] == 125 && !isString {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -117,7 +119,9 @@ func Add(json []byte, value []byte, path ...string) ([]byte, error) {
 			return json, err
 		}
 	}
-	if json[start] == 91 && json[end-1] == 93 {
+	// a string can hold the text of an array
+	isString := len(path) != 0 && json[start-1] == 34
+	if json[start] == 91 && json[end-1] == 93 && !isString {
 		empty := true
 		for i := start + 1; i < end-1; i++ {
 			if !space(json[i]) {
@@ -144,6 +148,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	var start int
 	var end int
 	var err error
+	if len(json) < 2 {
+		return json, errBadJSON(0)
+	}
 	if len(path) == 0 {
 		for i := 0; i < len(json); i++ {
 			if !space(json[i]) {
@@ -177,7 +184,9 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 			return json, err
 		}
 	}
-	if json[start] != 91 || json[end-1] != 93 {
+	// a string can hold the text of an array
+	isString := len(path) != 0 && json[start-1] == 34
+	if json[start] != 91 || json[end-1] != 93 || isString {
 		return json, errArrayExpected()
 	}
 	_, start, end, err = core(json, false, joinPath(path, strconv.Itoa(index))...)
-- 
2.43.0


From 7d4b3d1b694e04b2e123448930ff6a05d2f77e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 10/29] fix: Insert keeps the document valid when it has
 whitespace

---
 inter_add.go | 45 +++++----------------------------------------
 1 file changed, 5 insertions(+), 40 deletions(-)

diff --git a/inter_add.go b/inter_add.go
index 8446111..c894a90 100755
--- a/inter_add.go
+++ b/inter_add.go
@@ -189,52 +189,17 @@ func Insert(json []byte, index int, value []byte, path ...string) ([]byte, error
 	if json[start] != 91 || json[end-1] != 93 || isString {
 		return json, errArrayExpected()
 	}
-	_, start, end, err = core(json, false, joinPath(path, strconv.Itoa(index))...)
+	_, start, _, err = core(json, false, joinPath(path, strconv.Itoa(index))...)
 	if err != nil {
 		return json, err
 	}
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[end] == 34 {
-		end++
-	}
-	var startEdge int
-	var endEdge int
-	for i := start - 1; i > 0; i-- {
-		if !space(json[i]) {
-			startEdge = i
-			break
-		}
-	}
-	for i := end; i < len(json); i++ {
-		if !space(json[i]) {
-			endEdge = i
-			break
-		}
-	}
-	if (json[startEdge] == 91 || json[startEdge] == 123) && json[startEdge]+2 == json[endEdge] {
-		val := make([]byte, 0, len(value)+1)
-		val = append(val, value...)
-		val = append(val, 44)
-		json = replace(json, val, start, start)
-		return json, nil
-	}
-	if json[endEdge] == 44 {
-		val := make([]byte, 0, len(value)+1)
-		val = append(val, value...)
-		val = append(val, 44)
-		json = replace(json, val, start, start)
-		return json, nil
-	}
-	if json[startEdge] == 44 {
-		val := make([]byte, 0, len(value)+1)
-		val = append(val, 44)
-		val = append(val, value...)
-		json = replace(json, val, start-1, start-1)
-		return json, nil
-	}
-	return json, errBadJSON(start)
+	val := make([]byte, 0, len(value)+1)
+	val = append(val, value...)
+	val = append(val, 44)
+	return replace(json, val, start, start), nil
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
-- 
2.43.0


From b6ac78867594a38430510b2c3024f579eac36617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 11/29] fix: Delete does not read past the end of the document

---
 inter_delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_delete.go b/inter_delete.go
index c96ffd5..27a8e0d 100755
--- a/inter_delete.go
+++ b/inter_delete.go
@@ -21,7 +21,7 @@ func Delete(json []byte, path ...string) ([]byte, error) {
 	if json[start-1] == 34 {
 		start--
 	}
-	if json[e] == 34 {
+	if e < len(json) && json[e] == 34 {
 		e++
 	}
 	var startEdge int
-- 
2.43.0


From 7a7dd7c2537c5ed77284ed34e87219fb8c451918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 12/29] fix: Length, IsEmpty and GetMap use the exact extent of
 a container

---
 inter_type.go | 9 +++------
 others.go     | 6 +++++-
 utils.go      | 7 +++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/inter_type.go b/inter_type.go
index fd8015a..31570d6 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -93,16 +93,13 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start == len(json)-1 {
 				return false, errBadJSON(start)
 			}
 			start++
 			continue
 		}
 		for space(json[end]) {
-			if end < 1 {
-				return false, errBadJSON(end)
-			}
 			end--
 			continue
 		}
@@ -119,7 +116,7 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if braceStart+2 != braceEnd {
 			return false, errBadJSON(end)
 		}
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return false, nil
 			}
@@ -138,7 +135,7 @@ func typeControlCore(json []byte, control []byte, equal bool, path ...string) (b
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start == len(json)-1 {
 				return false, -1, errBadJSON(start)
 			}
 			start++
diff --git a/others.go b/others.go
index f35b3c2..c846c65 100755
--- a/others.go
+++ b/others.go
@@ -52,8 +52,12 @@ func Length(json []byte, path ...string) (int, error) {
 			length++
 		}
 	}
+	// the brace at the end must be the one that closes the first one
+	if level > 0 && (level != 1 || inQuote || json[end] != json[start]+2) {
+		return -1, errBadJSON(end)
+	}
 	if length == 0 {
-		for i := start + 1; i < end-1; i++ {
+		for i := start + 1; i < end; i++ {
 			if !space(json[i]) {
 				return 1, nil
 			}
diff --git a/utils.go b/utils.go
index 004cee1..2f6a7f4 100755
--- a/utils.go
+++ b/utils.go
@@ -202,9 +202,11 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		if err != nil {
 			return -1, -1, err
 		}
+		// core gives the index after the value
+		end--
 	} else {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start == lenj-1 {
 				return -1, -1, errBadJSON(start)
 			}
 			start++
@@ -212,9 +214,6 @@ func getStartEnd(json []byte, path ...string) (int, int, error) {
 		}
 		end = lenj - 1
 		for space(json[end]) {
-			if end < start {
-				return -1, -1, errBadJSON(start)
-			}
 			end--
 			continue
 		}
-- 
2.43.0


From f69ed56548885bedd605320edd01ccdd59fa81c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 13/29] fix: read empty arrays into empty slices

---
 inter_get.go | 12 ++++++++++++
 others.go    |  4 ++++
 parse_get.go | 12 ++++++++++++
 utils.go     | 19 ++++++++++++++++---
 4 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 6a6669e..cb48ef9 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -137,6 +137,10 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// an array without elements
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -203,6 +207,10 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// an array without elements
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -269,6 +277,10 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// an array without elements
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/others.go b/others.go
index c846c65..f2d7789 100755
--- a/others.go
+++ b/others.go
@@ -219,6 +219,10 @@ func ParseArray(arr string) []string {
 					if curr == 93 {
 						if level == 0 {
 							val := arr[start:i]
+							// an array without elements
+							if len(newArray) == 0 && blank(val) {
+								break
+							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
 							break
diff --git a/parse_get.go b/parse_get.go
index a0027a0..5546438 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -162,6 +162,10 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// an array without elements
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
@@ -228,6 +232,10 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// an array without elements
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
@@ -294,6 +302,10 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 					if curr == 93 {
 						if level == 0 {
 							element := val[start:i]
+							// an array without elements
+							if len(newArray) == 0 && blank(element) {
+								break
+							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
 								if element == "true" {
diff --git a/utils.go b/utils.go
index 2f6a7f4..7a777f7 100755
--- a/utils.go
+++ b/utils.go
@@ -141,17 +141,30 @@ func isInt(val string) bool {
 	return err == nil
 }
 
+// blank tells whether str holds nothing but space.
+func blank(str string) bool {
+	for i := 0; i < len(str); i++ {
+		if !space(str[i]) {
+			return false
+		}
+	}
+	return true
+}
+
 func cleanValueString(str string) string {
+	if blank(str) {
+		return ""
+	}
 	start := 0
 	lens := len(str)
 	for space(str[start]) && start < lens-1 {
 		start++
 	}
 	end := lens - 1
-	for space(str[end]) && end > 1 {
+	for space(str[end]) && end > start {
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
@@ -177,7 +190,7 @@ func cleanValue(str []byte) []byte {
 		}
 		end--
 	}
-	if str[start] == 34 && str[end] == 34 {
+	if start < end && str[start] == 34 && str[end] == 34 {
 		start++
 		end--
 	}
-- 
2.43.0


From 336dc089110d7db6a3a8ce776e48677ae605d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:47 +0000
Subject: [PATCH 14/29] fix: iterations report errors of the last call and
 broken containers, skip nothing and invent nothing

---
 inter_iter.go | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/inter_iter.go b/inter_iter.go
index 0b3138b..7d03e43 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -38,6 +38,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 		return errArrayExpected()
 	}
 	start++
+	first := start
 	inQuote := false
 	level := 0
 	for i := start; i < len(json); i++ {
@@ -77,6 +78,10 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 				}
 				if curr == 93 {
 					if level == 0 {
+						// an array without elements
+						if start == first && blank(string(json[start:i])) {
+							return nil
+						}
 						_, innerError := callback(cleanValue(json[start:i]))
 						return innerError
 					}
@@ -109,12 +114,15 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 	if string(json) == "{}" {
 		return errEmpty()
 	}
+	if len(json) == 0 {
+		return errBadJSON(0)
+	}
 	var start int
 	var err error
 	var end int
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start == len(json)-1 {
 				return errBadJSON(start)
 			}
 			start++
@@ -136,6 +144,9 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 		keyEnd := 0
 		inQuote := false
 		level := 0
+		// whether a colon came after the last comma
+		hasKey := false
+		count := 0
 		var key []byte
 		for i := start; i < len(json); i++ {
 			curr := json[i]
@@ -176,6 +187,14 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 				if curr == 93 || curr == 125 {
 					if curr == 125 {
 						if level == 1 {
+							if !hasKey {
+								// an object without members
+								if count == 0 && blank(string(json[start+1:i])) {
+									return nil
+								}
+								return errBadJSON(i)
+							}
+							end = i - 1
 							for j := start; j < i; j++ {
 								if !space(json[j]) {
 									start = j
@@ -188,22 +207,27 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 									break
 								}
 							}
-							if json[start] == 34 && json[end] == 34 {
-								callback(key, json[start+1:end])
-								return nil
+							if start < end && json[start] == 34 && json[end] == 34 {
+								_, innerError := callback(key, json[start+1:end])
+								return innerError
 							}
-							callback(key, json[start:end+1])
-							return nil
+							_, innerError := callback(key, json[start:end+1])
+							return innerError
 						}
 					}
 					if level == 1 {
-						return nil
+						return errBadJSON(i)
 					}
 					level--
 					continue
 				}
 				if level == 1 {
 					if curr == 44 {
+						if !hasKey {
+							return errBadJSON(i)
+						}
+						hasKey = false
+						count++
 						end = i - 1
 						for j := start; j < i; j++ {
 							if !space(json[j]) {
@@ -211,13 +235,13 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 								break
 							}
 						}
-						for j := i - 1; j > start; j-- {
+						for j := i - 1; j > start-1; j-- {
 							if !space(json[j]) {
 								end = j
 								break
 							}
 						}
-						if json[start] == 34 && json[end] == 34 {
+						if start < end && json[start] == 34 && json[end] == 34 {
 							keepGoing, innerError := callback(key, json[start+1:end])
 							if innerError != nil {
 								return innerError
@@ -237,14 +261,19 @@ func IterateKeyValue(json []byte, callback func([]byte, []byte) (bool, error), p
 						continue
 					}
 					if curr == 58 {
+						// the key must be between quotes
+						if keyEnd <= keyStart {
+							return errBadJSON(i)
+						}
 						key = json[keyStart+1 : keyEnd]
 						start = i + 1
+						hasKey = true
 						continue
 					}
 				}
 			}
 		}
-		return nil
+		return errBadJSON(start)
 	}
 	return errObjectExpected()
 }
-- 
2.43.0


From b8ca7fd1fdb0e0f3e6dc89e81708ec09902f5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:09 +0000
Subject: [PATCH 15/29] fix: listings of keys and values fail on broken objects
 and give nothing for empty ones

---
 inter_get.go | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index cb48ef9..b650627 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -326,11 +326,14 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start == len(json)-1 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -390,13 +393,17 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
-						break
+						return keys, nil
 					}
 					level--
 					continue
 				}
 				if curr == 58 {
 					if level == 1 {
+						// the key must be between quotes
+						if keyEnd <= keyStart {
+							return nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 					}
@@ -404,7 +411,7 @@ func GetKeys(json []byte, path ...string) ([]string, error) {
 				}
 			}
 		}
-		return keys, nil
+		return nil, errBadJSON(start)
 	}
 	return nil, errObjectExpected()
 }
@@ -416,11 +423,14 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 	if string(json) == "{}" {
 		return nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start == len(json)-1 {
 				return nil, errBadJSON(start)
 			}
 			start++
@@ -438,6 +448,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 		isJSONChar[v] = true
 	}
 	if json[start] == 123 {
+		first := start
 		inQuote := false
 		level := 0
 		for i := start; i < len(json); i++ {
@@ -473,9 +484,13 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// an object without members
+						if start == first && blank(string(json[start+1:i])) {
+							return values, nil
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
-						break
+						return values, nil
 					}
 					level--
 					continue
@@ -495,7 +510,7 @@ func GetValues(json []byte, path ...string) ([]string, error) {
 				}
 			}
 		}
-		return values, nil
+		return nil, errBadJSON(start)
 	}
 	return nil, errObjectExpected()
 }
@@ -508,11 +523,14 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	if string(json) == "{}" {
 		return nil, nil, errEmpty()
 	}
+	if len(json) == 0 {
+		return nil, nil, errBadJSON(0)
+	}
 	var start int
 	var err error
 	if len(path) == 0 {
 		for space(json[start]) {
-			if start > len(json)-1 {
+			if start == len(json)-1 {
 				return nil, nil, errBadJSON(start)
 			}
 			start++
@@ -532,6 +550,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 	if json[start] == 123 {
 		keyStart := 0
 		keyEnd := 0
+		first := start
 		inQuote := false
 		level := 0
 		for i := start; i < len(json); i++ {
@@ -572,15 +591,23 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 				if curr == 93 || curr == 125 {
 					if level == 1 {
+						// an object without members
+						if start == first && blank(string(json[start+1:i])) {
+							return keys, values, nil
+						}
 						value := cleanValueString(string(json[start:i]))
 						values = append(values, value)
-						break
+						return keys, values, nil
 					}
 					level--
 					continue
 				}
 				if curr == 58 {
 					if level == 1 {
+						// the key must be between quotes
+						if keyEnd <= keyStart {
+							return nil, nil, errBadJSON(i)
+						}
 						key := json[keyStart+1 : keyEnd]
 						keys = append(keys, string(key))
 						start = i + 1
@@ -596,7 +623,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 				}
 			}
 		}
-		return keys, values, nil
+		return nil, nil, errBadJSON(start)
 	}
 	return nil, nil, errObjectExpected()
 }
-- 
2.43.0


From 7c3d1cb30b136fe22a2c32f86284aeb6c2030c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 16/29] fix: Walk stops when told to and visits each value once

---
 walk.go | 77 +++++++++++++++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 38 deletions(-)

diff --git a/walk.go b/walk.go
index 6f475cf..4b2709e 100644
--- a/walk.go
+++ b/walk.go
@@ -4,60 +4,61 @@ import "strconv"
 
 func (j *JO) Walk(callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(j.body, path, callback)
+	_, err := walk(j.body, path, callback)
+	return err
 }
 
 func Walk(json []byte, callback func(k string, v []byte, p []string) (bool, error)) error {
 	path := []string{}
-	return walk(json, path, callback)
+	_, err := walk(json, path, callback)
+	return err
 }
 
-func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) error {
-	t, err := GetType(json, path...)
+// walk visits the value in json, path is the way from the root to it.
+// It returns false if callback wants to stop.
+func walk(json []byte, path []string, callback func(k string, v []byte, p []string) (bool, error)) (bool, error) {
+	t, err := GetType(json)
 	if err != nil {
-		return err
+		return false, err
 	}
-	switch t {
-	case TypeObject:
-		err := IterateKeyValue(json, func(keyBytes, _ []byte) (bool, error) {
-			err = walk(json, joinPath(path, string(keyBytes)), callback)
+	keepGoing := true
+	visit := func(key string, val []byte) (bool, error) {
+		childPath := joinPath(path, key)
+		childType := TypeString
+		// val has no quotes, a string can look like a container
+		if len(val) > 0 && (val[0] == 91 || val[0] == 123) {
+			childType, err = GetType(json, key)
 			if err != nil {
 				return false, err
 			}
+		}
+		if childType == TypeObject || childType == TypeArray {
+			keepGoing, err = walk(val, childPath, callback)
+		} else {
+			keepGoing, err = callback(key, val, childPath)
+		}
+		return keepGoing, err
+	}
+	switch t {
+	case TypeObject:
+		if string(json) == "{}" {
 			return true, nil
-		}, path...)
-		if err != nil {
-			return err
 		}
+		err = IterateKeyValue(json, func(keyBytes, val []byte) (bool, error) {
+			return visit(string(keyBytes), val)
+		})
 	case TypeArray:
 		i := 0
-		err := IterateArray(json, func(_ []byte) (bool, error) {
-			err = walk(json, joinPath(path, strconv.Itoa(i)), callback)
-			if err != nil {
-				return false, err
-			}
+		err = IterateArray(json, func(val []byte) (bool, error) {
+			key := strconv.Itoa(i)
 			i++
-			return true, nil
-		}, path...)
-		if err != nil {
-			return err
-		}
+			return visit(key, val)
+		})
 	default:
-		key := ""
-		if len(path) != 0 {
-			key = path[len(path)-1]
-		}
-		val, err := Get(json, path...)
-		if err != nil {
-			return err
-		}
-		keepGoing, err := callback(key, val, path)
-		if err != nil {
-			return err
-		}
-		if !keepGoing {
-			return nil
-		}
+		keepGoing, err = callback("", json, path)
+	}
+	if err != nil {
+		return false, err
 	}
-	return nil
+	return keepGoing, nil
 }
-- 
2.43.0


From a5cd91ef1e74bce34f7f3dd2dbbff4efb5c91b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 17/29] fix: Indent understands escapes and stray braces

---
 others.go | 11 ++++++++---
 utils.go  |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/others.go b/others.go
index f2d7789..d7f7abf 100755
--- a/others.go
+++ b/others.go
@@ -110,11 +110,16 @@ func Indent(json []byte) []byte {
 	level := 0
 	for i := 0; i < len(json); i++ {
 		curr := json[i]
-		if curr == 34 {
+		if curr == 92 {
 			newJSON = append(newJSON, curr)
-			if json[i-1] == 92 {
-				continue
+			if i+1 < len(json) {
+				newJSON = append(newJSON, json[i+1])
 			}
+			i++
+			continue
+		}
+		if curr == 34 {
+			newJSON = append(newJSON, curr)
 			inQuote = !inQuote
 			continue
 		}
diff --git a/utils.go b/utils.go
index 7a777f7..3f392ba 100755
--- a/utils.go
+++ b/utils.go
@@ -43,6 +43,9 @@ func space(curr byte) bool {
 }
 
 func createTabs(n int) []byte {
+	if n < 0 {
+		return nil
+	}
 	res := make([]byte, n)
 	for i := range res {
 		res[i] = 9
-- 
2.43.0


From bdd2fb567d7e49470c432ddcb5f5b4e3c088313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 18/29] fix: Parse finds single values and refuses unfinished
 documents

---
 parse_core.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/parse_core.go b/parse_core.go
index 0dee1ff..20d243b 100755
--- a/parse_core.go
+++ b/parse_core.go
@@ -22,7 +22,7 @@ func pCore(json []byte, core *node) error {
 		isJSONChar[v] = true
 	}
 	for space(json[start]) {
-		if start > len(json)-1 {
+		if start == len(json)-1 {
 			return nil
 		}
 		start++
@@ -79,6 +79,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 93, 125:
+				// a brace that was never opened
+				if braceList.index == 0 {
+					return errBadJSON(i)
+				}
 				switch last {
 				case 58:
 					newNode := &node{up: core, label: byteArrayToString(key), value: json[valStart:i]}
@@ -87,6 +91,12 @@ func pCore(json []byte, core *node) error {
 					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
 					core.down = append(core.down, newNode)
 					valStart = i + 1
+				case 91:
+					// an array with a single value
+					if !blank(string(json[valStart:i])) {
+						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
+						core.down = append(core.down, newNode)
+					}
 				}
 				core.value = json[braceList.pop() : i+1]
 				indexList.pop()
@@ -94,6 +104,10 @@ func pCore(json []byte, core *node) error {
 				last = curr
 				continue
 			case 58:
+				// the key must be between quotes
+				if end < start {
+					return errBadJSON(i)
+				}
 				key = json[start:end]
 				valStart = i + 1
 				last = 58
@@ -114,5 +128,9 @@ func pCore(json []byte, core *node) error {
 			}
 		}
 	}
+	// a brace or a quote that was never closed
+	if inQuote || braceList.index != 0 {
+		return errBadJSON(lenj)
+	}
 	return nil
 }
-- 
2.43.0


From c242f5ce35e6d001a2cb6239d31f52d8218af942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 19/29] fix: Parser edits keep text and tree in step or change
 nothing

---
 parse_add.go    | 307 ++----------------------------------------------
 parse_delete.go |  21 +---
 parse_set.go    |  53 +--------
 parse_utils.go  |  48 ++------
 4 files changed, 30 insertions(+), 399 deletions(-)

diff --git a/parse_add.go b/parse_add.go
index 8361fd1..84dc830 100755
--- a/parse_add.go
+++ b/parse_add.go
@@ -8,334 +8,47 @@ import (
 // Path variable must point to an object,
 // otherwise it will provide an error message.
 func (p *Parser) AddKeyValue(key string, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(key)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(key) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
-	curr = p.core
-	if lenp == 0 {
-		for _, d := range curr.down {
-			if d.label == key {
-				return errKeyAlreadyExist(key)
-			}
-		}
-		if len(json) >= 2 {
-			if json[0] == 123 && json[len(json)-1] == 125 {
-				newKV := []byte(`,"` + key + `":` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						newNode.label = key
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newKV[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newKV, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				newNode.label = key
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errObjectExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	curr, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	for _, d := range curr.up.down {
+	for _, d := range curr.down {
 		if d.label == key {
 			return errKeyAlreadyExist(key)
 		}
 	}
-	if len(json) >= 2 {
-		if json[0] == 123 && json[len(json)-1] == 125 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					newNode.label = key
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = AddKeyValue(p.json, key, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			newNode.label = key
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = AddKeyValue(p.json, key, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errObjectExpected()
-	}
-	return errBadJSON(0)
+	return p.update(AddKeyValue(p.json, key, newVal, path...))
 }
 
 // Add adds a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Add(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
-	if err != nil {
-		return err
-	}
-	if err != nil {
-		return err
-	}
-	if lenp == 0 {
-		curr = p.core
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				newValue := []byte(`,` + string(newVal))
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						index := len(curr.down)
-						newNode.label = strconv.Itoa(index)
-						newNode.value = newVal
-						if len(p.json) == 2 {
-							p.json = replace(p.json, newValue[1:], len(p.json)-1, len(p.json)-1)
-						} else {
-							p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				p.json = replace(p.json, newValue, len(p.json)-1, len(p.json)-1)
-				newNode := createNode(nil)
-				index := len(curr.down)
-				newNode.label = strconv.Itoa(index)
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					index := len(curr.down)
-					newNode.label = strconv.Itoa(index)
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Add(p.json, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp-1; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			index := len(curr.down)
-			newNode.label = strconv.Itoa(index)
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Add(p.json, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(Add(p.json, newVal, path...))
 }
 
 // Insert inserts a value to an array.
 // Path variable must point to an array,
 // otherwise it will provide an error message.
 func (p *Parser) Insert(newIndex int, newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenv == 0 {
+	if len(newVal) == 0 {
 		return errNullKey()
 	}
-	json, err := p.Get(path...)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr = p.core
-	if lenp == 0 {
-		if len(json) >= 2 {
-			if json[0] == 91 && json[len(json)-1] == 93 {
-				if lenv >= 2 {
-					if newVal[0] == 91 || newVal[0] == 123 {
-						newNode := createNode(nil)
-						pCore(newVal, newNode)
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						p.json, err = Insert(p.json, newIndex, newVal, path...)
-						if err != nil {
-							return err
-						}
-						err = newNode.insert(curr, newIndex)
-						if err != nil {
-							return err
-						}
-						curr.down = append(curr.down, newNode)
-						newNode.up = curr
-						return nil
-					}
-				}
-				newNode := createNode(nil)
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.value = newVal
-				curr.down = append(curr.down, newNode)
-				p.json, err = Insert(p.json, newIndex, newVal, path...)
-				if err != nil {
-					return err
-				}
-				err = newNode.insert(curr, newIndex)
-				if err != nil {
-					return err
-				}
-				newNode.up = curr
-				return nil
-			}
-			return errArrayExpected()
-		}
-		return errBadJSON(0)
-	}
-	curr, err = p.core.walk(path)
-	if err != nil {
-		return err
-	}
-	if len(json) >= 2 {
-		if json[0] == 91 && json[len(json)-1] == 93 {
-			if lenv >= 2 {
-				if newVal[0] == 91 || newVal[0] == 123 {
-					newNode := createNode(nil)
-					pCore(newVal, newNode)
-					err = newNode.insert(curr, newIndex)
-					if err != nil {
-						return err
-					}
-					newNode.value = newVal
-					curr.down = append(curr.down, newNode)
-					newNode.up = curr
-					p.json, err = Insert(p.json, newIndex, newVal, path...)
-					if err != nil {
-						return err
-					}
-					for i := 0; i < lenp; i++ {
-						newNode = newNode.up
-						newNode.value, err = Get(p.json, path[:lenp-i]...)
-						if err != nil {
-							return err
-						}
-					}
-					return nil
-				}
-			}
-			newNode := createNode(nil)
-			err = newNode.insert(curr, newIndex)
-			if err != nil {
-				return err
-			}
-			newNode.value = newVal
-			curr.down = append(curr.down, newNode)
-			newNode.up = curr
-			p.json, err = Insert(p.json, newIndex, newVal, path...)
-			if err != nil {
-				return err
-			}
-			for i := 0; i < lenp; i++ {
-				newNode = newNode.up
-				newNode.value, err = Get(p.json, path[:lenp-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-		return errArrayExpected()
-	}
-	return errBadJSON(0)
+	return p.update(Insert(p.json, newIndex, newVal, path...))
 }
 
 // AddKeyValueString is a variation of AddKeyValue() func.
diff --git a/parse_delete.go b/parse_delete.go
index 726979c..000ed35 100755
--- a/parse_delete.go
+++ b/parse_delete.go
@@ -4,27 +4,12 @@ package jin
 // Path value must be provided,
 // otherwise it will provide an error message.
 func (p *Parser) Delete(path ...string) error {
-	var err error
-	var curr *node
-	lenp := len(path)
-	if lenp == 0 {
+	if len(path) == 0 {
 		return errNullPath()
 	}
-	curr, err = p.core.walk(path)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	curr.deAttach()
-	p.json, err = Delete(p.json, path...)
-	if err != nil {
-		return err
-	}
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-i-1]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(Delete(p.json, path...))
 }
diff --git a/parse_set.go b/parse_set.go
index d257432..d323634 100755
--- a/parse_set.go
+++ b/parse_set.go
@@ -7,53 +7,21 @@ import "strconv"
 // Path variable can not be null,
 // otherwise it will provide an error message.
 func (p *Parser) Set(newVal []byte, path ...string) error {
-	lenp := len(path)
-	lenv := len(newVal)
-	var curr *node
-	var err error
-	if lenp == 0 {
+	if len(path) == 0 {
 		return errNullPath()
 	}
-	curr, err = p.core.walk(path)
+	_, err := p.core.walk(path)
 	if err != nil {
 		return err
 	}
-	if lenv >= 2 {
-		if newVal[0] == 91 || newVal[0] == 123 {
-			newCore := createNode(nil)
-			pCore(newVal, newCore)
-			newCore.label = curr.label
-			newCore.up = curr.up
-			index := curr.getIndex()
-			curr.up.down[index] = newCore
-			newCore.value = newVal
-			p.json, _ = Set(p.json, newVal, path...)
-			for i := 0; i < lenp-1; i++ {
-				newCore = newCore.up
-				newCore.value, err = Get(p.json, path[:lenp-1-i]...)
-				if err != nil {
-					return err
-				}
-			}
-			return nil
-		}
-	}
-	curr.value = newVal
-	p.json, _ = Set(p.json, newVal, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, err = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(Set(p.json, newVal, path...))
 }
 
 // SetString is a variation of Set() func.
 // SetString takes the set value as string.
 func (p *Parser) SetString(newValue string, path ...string) error {
-	if newValue[0] != 34 && newValue[len(newValue)-1] != 34 {
+	lenv := len(newValue)
+	if lenv < 2 || newValue[0] != 34 || newValue[lenv-1] != 34 {
 		return p.Set([]byte(`"`+newValue+`"`), path...)
 	}
 	return p.Set([]byte(newValue), path...)
@@ -104,14 +72,5 @@ func (p *Parser) SetKey(newKey string, path ...string) error {
 			return errKeyAlreadyExist(newKey)
 		}
 	}
-	curr.label = newKey
-	p.json, _ = SetKey(p.json, newKey, path...)
-	for i := 0; i < lenp-1; i++ {
-		curr = curr.up
-		curr.value, _ = Get(p.json, path[:lenp-1-i]...)
-		if err != nil {
-			return err
-		}
-	}
-	return nil
+	return p.update(SetKey(p.json, newKey, path...))
 }
diff --git a/parse_utils.go b/parse_utils.go
index 0bdd206..1a1c6d5 100755
--- a/parse_utils.go
+++ b/parse_utils.go
@@ -2,7 +2,6 @@ package jin
 
 import (
 	"fmt"
-	"strconv"
 )
 
 type node struct {
@@ -20,11 +19,6 @@ type Parser struct {
 	json []byte
 }
 
-func createNode(up *node) *node {
-	Node := node{up: up}
-	return &Node
-}
-
 func packKeyValue(label string, value []byte) []byte {
 	byteOutput := make([]byte, 0, 16)
 	byteOutput = append(byteOutput, 34)
@@ -81,30 +75,19 @@ func Parse(json []byte) (*Parser, error) {
 	return &pars, nil
 }
 
-func (n *node) insert(up *node, index int) error {
-	lend := len(up.down)
-	if lend != 0 {
-		if lend-1 < index {
-			return errIndexOutOfRange()
-		}
-		for i := index; i < lend; i++ {
-			up.down[i].label = strconv.Itoa(i + 1)
-		}
-		n.label = strconv.Itoa(index)
-		n.up = up
-		return nil
+// update replaces the text and the tree with the result of an edit.
+// If the edit failed or its result can not be parsed nothing changes.
+func (p *Parser) update(json []byte, err error) error {
+	if err != nil {
+		return err
 	}
-	return errIndexOutOfRange()
-}
-
-func (n *node) deAttach() {
-	newDown := make([]*node, 0, len(n.up.down)-1)
-	for _, d := range n.up.down {
-		if d.label != n.label {
-			newDown = append(newDown, d)
-		}
+	edited, err := Parse(json)
+	if err != nil {
+		return err
 	}
-	n.up.down = newDown
+	p.core = edited.core
+	p.json = edited.json
+	return nil
 }
 
 func (n *node) walk(path []string) (*node, error) {
@@ -122,15 +105,6 @@ func (n *node) walk(path []string) (*node, error) {
 	return n, nil
 }
 
-func (n *node) getIndex() int {
-	for i, v := range n.up.down {
-		if v.label == n.label {
-			return i
-		}
-	}
-	return -1
-}
-
 // Tree is a simple tool for visualizing JSONs as semi-tree formation.
 // This function returns that form as string.
 func (p *Parser) Tree() string {
-- 
2.43.0


From eb47050818ab355123eea5cdd107fabadf4a2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 20/29] fix: MutateJson reports its own errors

---
 make.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/make.go b/make.go
index 022c970..35316b2 100755
--- a/make.go
+++ b/make.go
@@ -43,16 +43,15 @@ func (s *Scheme) MakeJsonString(values ...string) []byte {
 // MutateJson use for mutating a json to another json with a scheme.
 func (s *Scheme) MutateJson(json []byte) ([]byte, error) {
 	newJson := []byte(`{}`)
-	var err, err2 error
+	var err error
 	var val string
 	for _, k := range s.keys {
-		val, err = GetString(json, k)
+		// a missing key gets an empty string
+		val, _ = GetString(json, k)
 		val = formatType(val)
-		newJson, err2 = AddKeyValueString(newJson, k, val)
-		if err == nil {
-			if err2 != nil {
-				return nil, err
-			}
+		newJson, err = AddKeyValueString(newJson, k, val)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return newJson, nil
-- 
2.43.0


From 0a5f41d3e61015c2354b779c99c0732b368a86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 21/29] fix: IsObject is false for arrays

---
 inter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inter_type.go b/inter_type.go
index 31570d6..38f9365 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -15,7 +15,7 @@ const (
 // If path points to an object it will return true, otherwise it will return false.
 // In this instance 'object' means everything that has starts and ends with curly brace.
 func IsObject(json []byte, path ...string) (bool, error) {
-	state, _, err := typeControlCore(json, []byte{91, 123}, true, path...)
+	state, _, err := typeControlCore(json, []byte{123}, true, path...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 7e1739334088cda4a64798911133b0aaab1ef652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 22/29] fix: Length and GetMap of an empty document look at the
 path

---
 inter_get.go | 2 +-
 others.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index b650627..2f5d667 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -630,7 +630,7 @@ func GetKeysValues(json []byte, path ...string) ([]string, []string, error) {
 
 // GetMap Gets all keys and values pair with string to string map.
 func GetMap(json []byte, path ...string) (map[string]string, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return nil, nil
 	}
 	start, end, err := getStartEnd(json, path...)
diff --git a/others.go b/others.go
index d7f7abf..687100d 100755
--- a/others.go
+++ b/others.go
@@ -3,7 +3,7 @@ package jin
 // Length function gives the length of any array or object
 // that path has pointed.
 func Length(json []byte, path ...string) (int, error) {
-	if string(json) == "[]" || string(json) == "{}" {
+	if len(path) == 0 && (string(json) == "[]" || string(json) == "{}") {
 		return 0, nil
 	}
 	start, end, err := getStartEnd(json, path...)
-- 
2.43.0


From 8cbf31d3181620442607948dfc7e6425372129b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:02 +0000
Subject: [PATCH 23/29] fix: type checks and iterations find no value in an
 empty array

---
 inter_core.go | 4 ++++
 inter_iter.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/inter_core.go b/inter_core.go
index 5c1d09f..5621b8c 100755
--- a/inter_core.go
+++ b/inter_core.go
@@ -421,6 +421,10 @@ func core(json []byte, justStart bool, path ...string) (int, int, int, error) {
 	if offset > len(json)-1 {
 		return -1, -1, -1, errBadJSON(offset)
 	}
+	// there is no value, an empty array has no zeroth index
+	if json[offset] == 44 || json[offset] == 93 || json[offset] == 125 {
+		return -1, -1, -1, errEmptyArray()
+	}
 	if justStart {
 		return keyStart, offset, 0, nil
 	}
diff --git a/inter_iter.go b/inter_iter.go
index 7d03e43..a65b79f 100755
--- a/inter_iter.go
+++ b/inter_iter.go
@@ -8,7 +8,7 @@ func IterateArray(json []byte, callback func([]byte) (bool, error), path ...stri
 	case 0, 1:
 		return errBadJSON(0)
 	case 2:
-		if string(json) == "[]" {
+		if len(path) == 0 && string(json) == "[]" {
 			return nil
 		}
 		return errBadJSON(0)
-- 
2.43.0


From 3861fcb1275e24070053b7a885e815d9d2ef6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 24/29] fix: Length of an array that is only opened is an error

---
 others.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/others.go b/others.go
index 687100d..6c3a698 100755
--- a/others.go
+++ b/others.go
@@ -53,6 +53,9 @@ func Length(json []byte, path ...string) (int, error) {
 		}
 	}
 	// the brace at the end must be the one that closes the first one
+	if start == end && (json[start] == 123 || json[start] == 91) {
+		return -1, errBadJSON(end)
+	}
 	if level > 0 && (level != 1 || inQuote || json[end] != json[start]+2) {
 		return -1, errBadJSON(end)
 	}
-- 
2.43.0


From 07258103a91c08c4fa426255a1c13a0ba6d180c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:50 +0000
Subject: [PATCH 25/29] fix: arrays that are not closed are not read into
 slices

---
 inter_get.go | 15 ++++++---------
 others.go    |  7 ++++---
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/inter_get.go b/inter_get.go
index 2f5d667..42d8ba2 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -139,14 +139,14 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 							element := val[start:i]
 							// an array without elements
 							if len(newArray) == 0 && blank(element) {
-								break
+								return newArray, nil
 							}
 							num, err := strconv.Atoi(cleanValueString(element))
 							if err != nil {
 								return nil, errIntegerParse(cleanValueString(element))
 							}
 							newArray = append(newArray, num)
-							break
+							return newArray, nil
 						}
 					}
 				}
@@ -164,7 +164,6 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 				}
 			}
 		}
-		return newArray, nil
 	}
 	return nil, errIntegerArrayParse(val)
 }
@@ -209,14 +208,14 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 							element := val[start:i]
 							// an array without elements
 							if len(newArray) == 0 && blank(element) {
-								break
+								return newArray, nil
 							}
 							num, err := strconv.ParseFloat(cleanValueString(element), 64)
 							if err != nil {
 								return nil, errFloatParse(cleanValueString(element))
 							}
 							newArray = append(newArray, num)
-							break
+							return newArray, nil
 						}
 					}
 				}
@@ -234,7 +233,6 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 				}
 			}
 		}
-		return newArray, nil
 	}
 	return nil, errFloatArrayParse(val)
 }
@@ -279,7 +277,7 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 							element := val[start:i]
 							// an array without elements
 							if len(newArray) == 0 && blank(element) {
-								break
+								return newArray, nil
 							}
 							element = cleanValueString(element)
 							if element == "true" || element == "false" {
@@ -291,7 +289,7 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 							} else {
 								return nil, errBoolParse(cleanValueString(element))
 							}
-							break
+							return newArray, nil
 						}
 					}
 				}
@@ -314,7 +312,6 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 				}
 			}
 		}
-		return newArray, nil
 	}
 	return nil, errBoolArrayParse(val)
 }
diff --git a/others.go b/others.go
index 6c3a698..f10df31 100755
--- a/others.go
+++ b/others.go
@@ -229,11 +229,11 @@ func ParseArray(arr string) []string {
 							val := arr[start:i]
 							// an array without elements
 							if len(newArray) == 0 && blank(val) {
-								break
+								return newArray
 							}
 							val = cleanValueString(val)
 							newArray = append(newArray, val)
-							break
+							return newArray
 						}
 					}
 				}
@@ -248,7 +248,8 @@ func ParseArray(arr string) []string {
 				}
 			}
 		}
-		return newArray
+		// the array is not closed
+		return nil
 	}
 	return nil
 }
-- 
2.43.0


From 570f222b2af0db2b6e7f2f9df9fd912cf7f9130b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 26/29] fix: space around a root array does not keep it from
 being read into slices

---
 inter_get.go |  4 ++++
 parse_get.go |  4 ++++
 utils.go     | 11 +++++++++++
 3 files changed, 19 insertions(+)

diff --git a/inter_get.go b/inter_get.go
index 42d8ba2..d0fbb54 100755
--- a/inter_get.go
+++ b/inter_get.go
@@ -85,6 +85,7 @@ func GetStringArray(json []byte, path ...string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errStringArrayParse(val)
@@ -107,6 +108,7 @@ func GetIntArray(json []byte, path ...string) ([]int, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errIntegerArrayParse(val)
@@ -176,6 +178,7 @@ func GetFloatArray(json []byte, path ...string) ([]float64, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errFloatArrayParse(val)
@@ -245,6 +248,7 @@ func GetBoolArray(json []byte, path ...string) ([]bool, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errBoolArrayParse(val)
diff --git a/parse_get.go b/parse_get.go
index 5546438..e519680 100755
--- a/parse_get.go
+++ b/parse_get.go
@@ -110,6 +110,7 @@ func (p *Parser) GetStringArray(path ...string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errStringArrayParse(val)
@@ -132,6 +133,7 @@ func (p *Parser) GetIntArray(path ...string) ([]int, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errIntegerArrayParse(val)
@@ -202,6 +204,7 @@ func (p *Parser) GetFloatArray(path ...string) ([]float64, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errFloatArrayParse(val)
@@ -272,6 +275,7 @@ func (p *Parser) GetBoolArray(path ...string) ([]bool, error) {
 	if err != nil {
 		return nil, err
 	}
+	val = trimSpace(val)
 	lena := len(val)
 	if lena < 2 {
 		return nil, errBoolArrayParse(val)
diff --git a/utils.go b/utils.go
index 3f392ba..71ec591 100755
--- a/utils.go
+++ b/utils.go
@@ -154,6 +154,17 @@ func blank(str string) bool {
 	return true
 }
 
+// trimSpace cuts the space around str.
+func trimSpace(str string) string {
+	for len(str) > 0 && space(str[0]) {
+		str = str[1:]
+	}
+	for len(str) > 0 && space(str[len(str)-1]) {
+		str = str[:len(str)-1]
+	}
+	return str
+}
+
 func cleanValueString(str string) string {
 	if blank(str) {
 		return ""
-- 
2.43.0


From b25828d274941af5f453a00491bcbae55868b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:34 +0000
Subject: [PATCH 27/29] fix: IsEmpty of a string is an error

---
 inter_type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inter_type.go b/inter_type.go
index 38f9365..787fbe2 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -108,6 +108,10 @@ func IsEmpty(json []byte, path ...string) (bool, error) {
 		if err != nil {
 			return false, err
 		}
+		// a string can hold the text of a container
+		if json[start-1] == 34 {
+			return false, errObjectExpected()
+		}
 		end--
 	}
 	braceStart := json[start]
-- 
2.43.0


From ac1acbc4e17970483299c03b13a829d8b7225319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 28/29] fix: numbers beyond the range of float64 are not made
 strings

---
 utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 71ec591..556221d 100755
--- a/utils.go
+++ b/utils.go
@@ -1,6 +1,7 @@
 package jin
 
 import (
+	"errors"
 	"strconv"
 	"unsafe"
 )
@@ -136,7 +137,8 @@ func isBool(val string) bool {
 
 func isFloat(val string) bool {
 	_, err := strconv.ParseFloat(val, 64)
-	return err == nil
+	// numbers beyond the range of float64 are numbers too
+	return err == nil || errors.Is(err, strconv.ErrRange)
 }
 
 func isInt(val string) bool {
-- 
2.43.0


From 3ef637ab7367ed1fbd9d6fb48c71fe71d40ca80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 29/29] fix: GetType of a number beyond the range of float64 is
 number

---
 inter_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inter_type.go b/inter_type.go
index 787fbe2..66a87b5 100755
--- a/inter_type.go
+++ b/inter_type.go
@@ -73,8 +73,8 @@ func GetType(json []byte, path ...string) (string, error) {
 	if err == nil {
 		return TypeNumber, nil
 	}
-	_, err = strconv.ParseFloat(val, 64)
-	if err == nil {
+	// numbers beyond the range of float64 are numbers too
+	if isFloat(val) {
 		return TypeNumber, nil
 	}
 	return TypeString, nil
-- 
2.43.0

