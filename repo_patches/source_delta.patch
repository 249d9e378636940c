From 3d75e5e724268d201d2510b6b21b63e30a10db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 01/62] fix: lindex reads the list named by its first argument

---
 redis/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/list.go b/redis/list.go
index 84d3326..5a6d262 100644
--- a/redis/list.go
+++ b/redis/list.go
@@ -166,7 +166,7 @@ func lIndex(c *Command) (*protocol.Response, error) {
 		return nil, ErrValueOutOfRange
 	}
 
-	val, err := datastruct.LIndex(c.Values[1], index)
+	val, err := datastruct.LIndex(c.Values[0], index)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From 0b4dbde912507b0a1ae18eba12552692222f59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 02/62] fix: a list emptied by lrem keeps no link to the
 removed nodes

---
 datastruct/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 054d941..64f9f5f 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -222,6 +222,9 @@ func (l *List) LRemCountFromHead(value string, n int) (cnt int) {
 		// if remove first element from, dumbHead.next.prev will be point to dumbHead
 		// // In other words, l.head.tail will be not nil
 		l.head.prev = nil
+	} else {
+		// removed every element, tail must not keep pointing to dumbHead
+		l.tail = nil
 	}
 	l.length -= cnt
 	return
@@ -274,6 +277,9 @@ func (l *List) LRemCountFromTail(value string, n int) (cnt int) {
 		// if remove first element from tail, dumbTail.prev.next will be point to dumbTail
 		// In other words, l.tail.next will be not nil
 		l.tail.next = nil
+	} else {
+		// removed every element, head must not keep pointing to dumbTail
+		l.head = nil
 	}
 
 	l.length -= cnt
-- 
2.43.0


From 32debee49a51f31e30920c8f0c1ce4f6167d74f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 03/62] fix: lrem with the smallest integer as count removes
 from the tail

---
 datastruct/list.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datastruct/list.go b/datastruct/list.go
index 64f9f5f..47706b3 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -555,6 +555,11 @@ func LRem(key string, count int, value string) (n int, err error) {
 		return list.LRemCountFromHead(value, count), nil
 	}
 
+	if count < -list.length {
+		// also keeps -count from overflowing
+		count = -list.length
+	}
+
 	if count < 0 {
 		return list.LRemCountFromTail(value, -count), nil
 	}
-- 
2.43.0


From d3e6b4af3538c41d712cb8459eb11427239831c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 04/62] fix: spop keeps the set cardinality in step

---
 datastruct/set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datastruct/set.go b/datastruct/set.go
index fd71b59..5969041 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -46,6 +46,7 @@ func (s *set) sPop(cnt int) []string {
 
 		result = append(result, key)
 		cnt--
+		s.length--
 		return true, true
 	})
 
-- 
2.43.0


From 5f4225178db0ae9d6c4dd75fa82fb63695d71471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/62] fix: spop without a count removes one member

---
 redis/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index c30ea54..a8dddce 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -228,7 +228,7 @@ func SPop(c *Command) (*protocol.Response, error) {
 
 	var (
 		key = c.Values[0]
-		cnt int
+		cnt = 1
 		err error
 	)
 
-- 
2.43.0


From 6fea0c7c4b8dadc611bded2ebc149f7164d1ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 06/62] fix: smove checks the target first, keeps the
 cardinality and replies 1

---
 datastruct/set.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 5969041..c6ea540 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -186,13 +186,21 @@ func SMove(source, target, value string) (int, error) {
 		return 0, err
 	}
 
-	exists := sset.m.DeleteIfExists(value)
-	if !exists {
+	// refuse a wrong target before anything is moved
+	if _, err = loadAndCheckSet(target, false); err != nil && err != ErrNil {
+		return 0, err
+	}
+
+	if sset.sRem(value) == 0 {
 		// not exist
 		return 0, ErrNil
 	}
 
-	return SAdd(target, value)
+	if _, err = SAdd(target, value); err != nil {
+		return 0, err
+	}
+
+	return 1, nil
 }
 
 func SDiff(keys ...string) ([]string, error) {
-- 
2.43.0


From 32484776ab960af402d9fae36f131a8e9865e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 07/62] fix: smembers and smove answer a missing key like an
 empty set

---
 redis/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/redis/set.go b/redis/set.go
index a8dddce..c805e2c 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -179,6 +179,10 @@ func sMembers(c *Command) (*protocol.Response, error) {
 	}
 
 	vals, err := datastruct.SMembers(c.Values[0])
+	if err == datastruct.ErrNil {
+		return protocol.NewResponseWithEmptyArray(), nil
+	}
+
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +203,7 @@ func sMove(c *Command) (*protocol.Response, error) {
 	)
 
 	res, err := datastruct.SMove(source, target, value)
-	if err != nil {
+	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
 
-- 
2.43.0


From 75725800610888394ba00f995a9a7967e1fe0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 08/62] fix: set algebra counts a missing key as the empty set

---
 datastruct/set.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index c6ea540..11c2421 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -110,6 +110,16 @@ func loadAndCheckSet(key string, check bool) (*set, error) {
 	return s, nil
 }
 
+// loadSetOrEmpty treats a key which not exists as an empty set
+func loadSetOrEmpty(key string) (*set, error) {
+	s, err := loadAndCheckSet(key, false)
+	if err == ErrNil {
+		return newSet(), nil
+	}
+
+	return s, err
+}
+
 func SAdd(key string, values ...string) (int, error) {
 	s, err := loadAndCheckSet(key, false)
 	if err == ErrNil {
@@ -207,7 +217,7 @@ func SDiff(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -231,7 +241,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -261,7 +271,7 @@ func SInter(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -285,7 +295,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
@@ -315,7 +325,7 @@ func SUnion(keys ...string) ([]string, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return nil, err
 		}
@@ -339,7 +349,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 	var result *set
 
 	for i, key := range keys {
-		s, err := loadAndCheckSet(key, true)
+		s, err := loadSetOrEmpty(key)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 3de852edcea7d41db17708e7a44362d756d4166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 09/62] fix: a stored set algebra result does not share its
 members with a source

---
 datastruct/set.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 11c2421..0c45405 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -247,7 +247,8 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// copy, the stored set must not share with its source
+			result = sUnion(s)
 			continue
 		}
 
@@ -301,7 +302,8 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// copy, the stored set must not share with its source
+			result = sUnion(s)
 			continue
 		}
 
@@ -355,7 +357,8 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		}
 
 		if i == 0 {
-			result = s
+			// copy, the stored set must not share with its source
+			result = sUnion(s)
 			continue
 		}
 
-- 
2.43.0


From 7654298f83e84980191a825f3809ae3a0a09b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 10/62] fix: sdiff, sinter and sunion of one key return its
 members

---
 redis/set.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/redis/set.go b/redis/set.go
index c805e2c..270bb3e 100644
--- a/redis/set.go
+++ b/redis/set.go
@@ -44,10 +44,6 @@ func sDiff(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	diffs, err := datastruct.SDiff(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -84,10 +80,6 @@ func sInter(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	inter, err := datastruct.SInter(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
@@ -124,10 +116,6 @@ func sUnion(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	if len(c.Values) == 1 {
-		return protocol.NewResponseWithEmptyArray(), nil
-	}
-
 	unions, err := datastruct.SUnion(c.Values...)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithEmptyArray(), nil
-- 
2.43.0


From ee6d6c271951268113b2ce6405a4122786ec9987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 11/62] fix: hdel removes and counts the field when it exists

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 8194fe8..aa04cb8 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -24,7 +24,7 @@ func newHashTable() *hashTable {
 }
 
 func (h *hashTable) del(field string) int {
-	remove := !h.table.DeleteIfExists(field)
+	remove := h.table.DeleteIfExists(field)
 	if remove {
 		h.length--
 		return 1
-- 
2.43.0


From 1c035744d59a44c860cf0284bde1b51a2db0764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 12/62] fix: hexists replies 0 for an absent field

---
 datastruct/hash_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index aa04cb8..4ae489b 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -197,7 +197,7 @@ func HExists(key, field string) (int, error) {
 		return 1, nil
 	}
 
-	return 1, nil
+	return 0, nil
 }
 
 func HGet(key, field string) (interface{}, error) {
-- 
2.43.0


From a3ec488509ed21cbb0cbcae119ee2a8d94131800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 13/62] fix: a hash created by hset, hincrby or hincrbyfloat is
 stored under its key

---
 datastruct/hash_table.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 4ae489b..be2586f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -227,6 +227,10 @@ func HIncrBy(key, field string, i64 int64) (int64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -241,6 +245,10 @@ func HIncrByFloat(key, field string, f64 float64) (float64, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
@@ -284,6 +292,10 @@ func HSet(key string, flag int, kvs ...*KV) (int, error) {
 	h, err := loadAndCheckHashTable(key, false)
 	if err == ErrNil {
 		h = newHashTable()
+		defaultCache.keys.Set(key, &KeyInfo{
+			Type:  KeyTypeHashTable,
+			Value: h,
+		})
 		err = nil
 	}
 
-- 
2.43.0


From 3fe2721150ab9dd61aead99b9d63ed758d95400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 14/62] fix: a field created by an increment counts in the hash
 length

---
 datastruct/hash_table.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index be2586f..e054d39 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -67,6 +67,7 @@ func (h *hashTable) getAll() map[string]interface{} {
 func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
@@ -89,6 +90,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 	res, abort := h.table.Upsert(field, i, func(exist bool, valueInMap interface{}, newValue interface{}) (interface{}, bool) {
 		if !exist {
+			h.length++
 			return i, false
 		}
 
-- 
2.43.0


From 16850c3a689aabf20373f3bebb4f0356f36ff635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 15/62] fix: a hash field reads back as the text it was written
 with

---
 datastruct/hash_table.go | 27 +++++------------------
 redis/hash_table.go      | 11 +---------
 util/strconv.go          | 47 +++++++++++++++++++++++++++++++++++++---
 3 files changed, 50 insertions(+), 35 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index e054d39..945cbd6 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,9 +1,8 @@
 package datastruct
 
 import (
-	"strconv"
-
 	smap "github.com/yusank/godis/lib/shard_map"
+	"github.com/yusank/godis/util"
 )
 
 type hashTable struct {
@@ -71,7 +70,7 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return i, false
 		}
 
-		i64, ok := valueInMap.(int64)
+		i64, ok := util.NumericValue(valueInMap).(int64)
 		if !ok {
 			return ErrNotInteger, true
 		}
@@ -94,7 +93,7 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 			return i, false
 		}
 
-		i64, ok := valueInMap.(float64)
+		i64, ok := util.NumericValue(valueInMap).(float64)
 		if !ok {
 			return ErrNotFloat, true
 		}
@@ -123,14 +122,7 @@ func (h *hashTable) mGet(fields ...string) []interface{} {
 			result[i] = value
 			continue
 		}
-		switch v := value.(type) {
-		case string:
-			result[i] = v
-		case int64:
-			result[i] = strconv.FormatInt(v, 10)
-		case float64:
-			result[i] = strconv.FormatFloat(v, 'g', -1, 64)
-		}
+		result[i] = util.FormatValue(value)
 	}
 
 	return result
@@ -145,16 +137,7 @@ func (h *hashTable) mSet(kvs []*KV) {
 func (h *hashTable) values() []string {
 	var result []string
 	h.table.Range(func(_ string, value interface{}) bool {
-		var vStr string
-		switch v := value.(type) {
-		case string:
-			vStr = v
-		case int64:
-			vStr = strconv.FormatInt(v, 10)
-		case float64:
-			vStr = strconv.FormatFloat(v, 'g', -1, 64)
-		}
-		result = append(result, vStr)
+		result = append(result, util.FormatValue(value))
 
 		return true
 	})
diff --git a/redis/hash_table.go b/redis/hash_table.go
index bca2821..a37196b 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -53,17 +53,8 @@ func hGet(c *Command) (*protocol.Response, error) {
 	if err != nil {
 		return nil, err
 	}
-	var res string
-	switch vv := v.(type) {
-	case string:
-		res = vv
-	case int64:
-		res = strconv.FormatInt(vv, 10)
-	case float64:
-		res = strconv.FormatFloat(vv, 'g', -1, 64)
-	}
 
-	return protocol.NewResponseWithBulkString(res), nil
+	return protocol.NewResponseWithBulkString(util.FormatValue(v)), nil
 }
 
 // hGetAll .
diff --git a/util/strconv.go b/util/strconv.go
index 4f079e7..c1e99f3 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -1,21 +1,62 @@
 package util
 
 import (
+	"math"
 	"strconv"
 )
 
+// Number is a number written in another form than the one FormatValue gives, like 007 or 1.50
+type Number struct {
+	Text  string
+	Value interface{}
+}
+
 // ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
+// the result always formats back to s.
 func ConvertToValidValue(s string) interface{} {
 	// try int64
 	i64, err := strconv.ParseInt(s, 10, 64)
 	if err == nil {
-		return i64
+		return keepText(s, i64)
 	}
 
 	f64, err := strconv.ParseFloat(s, 64)
-	if err == nil {
-		return f64
+	if err == nil && !math.IsNaN(f64) && !math.IsInf(f64, 0) {
+		return keepText(s, f64)
 	}
 
 	return s
 }
+
+func keepText(s string, v interface{}) interface{} {
+	if FormatValue(v) != s {
+		return Number{Text: s, Value: v}
+	}
+
+	return v
+}
+
+// FormatValue is the inverse of ConvertToValidValue.
+func FormatValue(v interface{}) string {
+	switch vv := v.(type) {
+	case string:
+		return vv
+	case int64:
+		return strconv.FormatInt(vv, 10)
+	case float64:
+		return strconv.FormatFloat(vv, 'g', -1, 64)
+	case Number:
+		return vv.Text
+	}
+
+	return ""
+}
+
+// NumericValue drops the text of a Number.
+func NumericValue(v interface{}) interface{} {
+	if n, ok := v.(Number); ok {
+		return n.Value
+	}
+
+	return v
+}
-- 
2.43.0


From f1248803282276b09c105c19cde247dd6af55205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 16/62] fix: hgetall encodes numeric values and reports a wrong
 key type

---
 redis/hash_table.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index a37196b..569cfe4 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -64,12 +64,12 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 	}
 
 	m, err := datastruct.HGetAll(c.Values[0])
-	if err == datastruct.ErrNil || len(m) == 0 {
-		return protocol.NewResponseWithNilBulk(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(m) == 0 {
+		return protocol.NewResponseWithNilBulk(), nil
 	}
 
 	var (
@@ -79,7 +79,7 @@ func hGetAll(c *Command) (*protocol.Response, error) {
 
 	for k, v := range m {
 		values[i] = k
-		values[i+1] = v
+		values[i+1] = util.FormatValue(v)
 		i += 2
 	}
 
-- 
2.43.0


From eb9b583f32d51404f242b18888c1010deb285da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 17/62] fix: mset, hset and hmset refuse a key or field without
 a value

---
 redis/hash_table.go | 4 ++--
 redis/string.go     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/hash_table.go b/redis/hash_table.go
index 569cfe4..ec67a1a 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -193,7 +193,7 @@ func hMGet(c *Command) (*protocol.Response, error) {
 
 // hMSet .
 func hMSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
@@ -219,7 +219,7 @@ func hMSet(c *Command) (*protocol.Response, error) {
 
 // hSet .
 func hSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 3 {
+	if len(c.Values) < 3 || len(c.Values)%2 == 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
diff --git a/redis/string.go b/redis/string.go
index 150b931..e171016 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -20,7 +20,7 @@ func set(c *Command) (*protocol.Response, error) {
 
 // mSet .
 func mSet(c *Command) (*protocol.Response, error) {
-	if len(c.Values) < 2 && len(c.Values)%2 != 0 {
+	if len(c.Values) < 2 || len(c.Values)%2 != 0 {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-- 
2.43.0


From bd0a5cc91e7441a074dd1c2d36baeb4161ce3dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 18/62] fix: del, exists and hdel handle every key or field
 they are given

---
 datastruct/hash_table.go |  9 +++++++--
 redis/hash_table.go      |  2 +-
 redis/keys.go            | 17 +++++++++++------
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 945cbd6..01d582a 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -163,13 +163,18 @@ func loadAndCheckHashTable(key string, checkLen bool) (*hashTable, error) {
 	return h, nil
 }
 
-func HDel(key, field string) (int, error) {
+func HDel(key string, fields ...string) (int, error) {
 	h, err := loadAndCheckHashTable(key, true)
 	if err != nil {
 		return 0, err
 	}
 
-	return h.del(field), nil
+	var cnt int
+	for _, field := range fields {
+		cnt += h.del(field)
+	}
+
+	return cnt, nil
 }
 
 func HExists(key, field string) (int, error) {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index ec67a1a..d1767fd 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -16,7 +16,7 @@ func hDel(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt, err := datastruct.HDel(c.Values[0], c.Values[1])
+	cnt, err := datastruct.HDel(c.Values[0], c.Values[1:]...)
 	if err != nil && err != datastruct.ErrNil {
 		return nil, err
 	}
diff --git a/redis/keys.go b/redis/keys.go
index b8f4b0f..2cb49b7 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -23,13 +23,14 @@ func exists(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	found := datastruct.Exists(c.Values[0])
-	rsp := protocol.NewResponseWithInteger(0)
-	if found {
-		rsp = protocol.NewResponseWithInteger(1)
+	var cnt int64
+	for _, key := range c.Values {
+		if datastruct.Exists(key) {
+			cnt++
+		}
 	}
 
-	return rsp, nil
+	return protocol.NewResponseWithInteger(cnt), nil
 }
 
 // del .
@@ -38,7 +39,11 @@ func del(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	cnt := datastruct.Del(c.Values[0])
+	var cnt int
+	for _, key := range c.Values {
+		cnt += datastruct.Del(key)
+	}
+
 	return protocol.NewResponseWithInteger(int64(cnt)), nil
 }
 
-- 
2.43.0


From 6b29c777c2d62ed7bb9683c3ab8cabdf23f96b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 19/62] fix: integer counters refuse results that do not fit in
 64 bits

---
 datastruct/hash_table.go | 7 ++++++-
 datastruct/string.go     | 7 ++++++-
 redis/string.go          | 3 ++-
 util/strconv.go          | 6 ++++++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 01d582a..08bda8f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -75,7 +75,12 @@ func (h *hashTable) incrBy(field string, i int64) (int64, error) {
 			return ErrNotInteger, true
 		}
 
-		return i64 + newValue.(int64), false
+		sum, ok := util.AddInt64(i64, newValue.(int64))
+		if !ok {
+			return ErrNotInteger, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
diff --git a/datastruct/string.go b/datastruct/string.go
index b2bc8e7..442c419 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -2,6 +2,8 @@ package datastruct
 
 import (
 	"strconv"
+
+	"github.com/yusank/godis/util"
 )
 
 /*
@@ -53,7 +55,10 @@ func IncrBy(key string, incrBy int64) (value int64, err error) {
 	if err1 != nil {
 		return 0, ErrNotInteger
 	}
-	value = i64 + incrBy
+	value, ok = util.AddInt64(i64, incrBy)
+	if !ok {
+		return 0, ErrNotInteger
+	}
 	info.Value = strconv.FormatInt(value, 10)
 
 	return
diff --git a/redis/string.go b/redis/string.go
index e171016..4467fc3 100644
--- a/redis/string.go
+++ b/redis/string.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -105,7 +106,7 @@ func decrBy(c *Command) (*protocol.Response, error) {
 	}
 
 	decrement, err := strconv.ParseInt(c.Values[1], 10, 64)
-	if err != nil {
+	if err != nil || decrement == math.MinInt64 {
 		return nil, datastruct.ErrNotInteger
 	}
 
diff --git a/util/strconv.go b/util/strconv.go
index c1e99f3..5ed1b72 100644
--- a/util/strconv.go
+++ b/util/strconv.go
@@ -11,6 +11,12 @@ type Number struct {
 	Value interface{}
 }
 
+// AddInt64 returns a+b, ok is false if the sum does not fit in an int64.
+func AddInt64(a, b int64) (sum int64, ok bool) {
+	sum = a + b
+	return sum, (sum > a) == (b > 0)
+}
+
 // ConvertToValidValue convert s either int64 or float64 otherwise return s itself.
 // the result always formats back to s.
 func ConvertToValidValue(s string) interface{} {
-- 
2.43.0


From 7c20680ad2c1ef214e46a70f6fc9ce116bf93a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 20/62] fix: hincrbyfloat refuses infinities and not-a-number

---
 datastruct/hash_table.go | 9 ++++++++-
 redis/hash_table.go      | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 08bda8f..47eb916 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -1,6 +1,8 @@
 package datastruct
 
 import (
+	"math"
+
 	smap "github.com/yusank/godis/lib/shard_map"
 	"github.com/yusank/godis/util"
 )
@@ -103,7 +105,12 @@ func (h *hashTable) incrByFloat(field string, i float64) (float64, error) {
 			return ErrNotFloat, true
 		}
 
-		return i64 + newValue.(float64), false
+		sum := i64 + newValue.(float64)
+		if math.IsNaN(sum) || math.IsInf(sum, 0) {
+			return ErrNotFloat, true
+		}
+
+		return sum, false
 	})
 
 	if abort {
diff --git a/redis/hash_table.go b/redis/hash_table.go
index d1767fd..f1cf259 100644
--- a/redis/hash_table.go
+++ b/redis/hash_table.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 
 	"github.com/yusank/godis/datastruct"
@@ -124,8 +125,8 @@ func hIncrByFloat(c *Command) (*protocol.Response, error) {
 	)
 
 	f64, err := strconv.ParseFloat(incrStr, 64)
-	if err != nil {
-		return nil, datastruct.ErrNotInteger
+	if err != nil || math.IsNaN(f64) || math.IsInf(f64, 0) {
+		return nil, datastruct.ErrNotFloat
 	}
 
 	res, err := datastruct.HIncrByFloat(key, field, f64)
-- 
2.43.0


From 6c08a985e78dc25825127630de11178275c30efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 21/62] fix: mget answers nil for a key of another type instead
 of crashing

---
 datastruct/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/string.go b/datastruct/string.go
index 442c419..c5f3869 100644
--- a/datastruct/string.go
+++ b/datastruct/string.go
@@ -90,7 +90,8 @@ func MGet(keys ...string) []interface{} {
 		}
 
 		if err != nil {
-			result = append(result, err)
+			// a key of another type reads as nil
+			result = append(result, nil)
 			continue
 		}
 
-- 
2.43.0


From 8aac2592257dbdf3114d4e0fc87cfa50ea7d0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 22/62] fix: a malformed keys pattern is refused instead of
 ending the server

---
 datastruct/keys.go | 8 ++++++--
 redis/consts.go    | 1 +
 redis/keys.go      | 6 +++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 5985a41..4a6a367 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -59,8 +59,12 @@ func Type(key string) (kt KeyType, found bool) {
 	return v.(*KeyInfo).Type, true
 }
 
-func Keys(pattern string) (keys []string) {
-	g := glob.MustCompile(pattern)
+func Keys(pattern string) (keys []string, err error) {
+	g, err := glob.Compile(pattern)
+	if err != nil {
+		return nil, err
+	}
+
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
 		if g.Match(key) {
 			keys = append(keys, key)
diff --git a/redis/consts.go b/redis/consts.go
index eb487e8..d825909 100644
--- a/redis/consts.go
+++ b/redis/consts.go
@@ -5,6 +5,7 @@ import "errors"
 var (
 	ErrUnknownCommand       = errors.New("unknown command key")
 	ErrCommandArgsNotEnough = errors.New("command args not enough")
+	ErrInvalidPattern       = errors.New("ERR invalid pattern")
 	ErrValueOutOfRange      = errors.New(" ERR value is out of range, must be positive")
 )
 
diff --git a/redis/keys.go b/redis/keys.go
index 2cb49b7..afbc904 100644
--- a/redis/keys.go
+++ b/redis/keys.go
@@ -14,7 +14,11 @@ func keys(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values := datastruct.Keys(c.Values[0])
+	values, err := datastruct.Keys(c.Values[0])
+	if err != nil {
+		return nil, ErrInvalidPattern
+	}
+
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
 }
 
-- 
2.43.0


From 0aee3ab5f22fed26cf87587cccae002e42bc716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 23/62] fix: zrem finds the member it removes in the skip list

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7edcaef..1b929c4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -261,7 +261,7 @@ func (zsl *zSkipList) delete(score float64, value string, node **zSkipListNode)
 	x := zsl.head
 
 	for i := zsl.level - 1; i >= 0; i-- {
-		if x.levels[i].forward != nil &&
+		for x.levels[i].forward != nil &&
 			(x.levels[i].forward.score < score ||
 				(x.levels[i].forward.score == score &&
 					x.levels[i].forward.value < value)) {
-- 
2.43.0


From c942b752781a156d431f348af664b4b852395bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 24/62] fix: zpopmin and zpopmax forget the score of a popped
 member

---
 datastruct/sorted_set.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1b929c4..0ab630d 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -789,6 +789,7 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 			return result, nil
 		}
 
+		zs.m.Delete(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
@@ -811,6 +812,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 			return result, nil
 		}
 
+		zs.m.Delete(node.value)
 		zs.zsl.delete(node.score, node.value, nil)
 		result = append(result,
 			node.value,
-- 
2.43.0


From 3fab8ab4d9969155945cd7297071f938b5b9db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 25/62] fix: zpopmax stops when the sorted set is empty

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 0ab630d..f5fc8f4 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -806,7 +806,7 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 	}
 
 	var result []string
-	for i := 0; i < cnt; i++ {
+	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
 		if node == nil {
 			return result, nil
-- 
2.43.0


From ee31ab17fac26e23896f22314279bd80af1597dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 26/62] fix: zrank counts from zero

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index f5fc8f4..1da3ef8 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -643,7 +643,8 @@ func ZRank(key, value string) (uint, error) {
 	}
 
 	score := *(de.value.(*float64))
-	return zs.zsl.rank(score, value), nil
+	// the skip list counts from one
+	return zs.zsl.rank(score, value) - 1, nil
 }
 
 func ZRem(key string, values ...string) (int, error) {
-- 
2.43.0


From 95934e0b077affd845ad4b462fa79eff0782231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 27/62] fix: zrevrange counts positions from the highest score

---
 datastruct/sorted_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 1da3ef8..7ddedb2 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -455,7 +455,8 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 		stop = zsl.length - 1
 	}
 
-	node := zsl.findElementByRank(uint(stop) + 1)
+	// start and stop count from the highest element
+	node := zsl.findElementByRank(uint(zsl.length - start))
 	var (
 		rangeLen = stop - start + 1
 		result   []string
-- 
2.43.0


From c350e053fd6048d3a63f3e2f5a4317769175e177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 28/62] fix: score intervals select exactly the members inside
 them

---
 datastruct/sorted_set.go | 78 ++++++----------------------------------
 1 file changed, 11 insertions(+), 67 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7ddedb2..af18c76 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -308,90 +308,45 @@ LevelLoop:
 
 // minOpen == true => (min,  for example (1,true,2,false) => zscore xxx (1 2
 func (zsl *zSkipList) count(min float64, minOpen bool, max float64, maxOpen bool) int {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.length
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-
-	// -inf:max
-	if minRank <= 0 {
-		return maxRank
-	}
-
-	if maxRank < 0 {
-		return zsl.length - minRank + 1
+	if maxRank < minRank {
+		return 0
 	}
 
 	return maxRank - minRank + 1
 }
 
-// return -1 if score is inf
+// return the rank of the first element inside an interval that starts at score
 func (zsl *zSkipList) minScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
-		cur  = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
-			cur = x
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				// score not exit in the list, it just between two elements
-				if cur.score < score && x.score > score {
-					rank += 1
-				}
-
-				if x.score == score && openInterval {
-					rank += 1
-				}
-
-				break loop
-			}
 		}
 	}
 
-	return int(rank)
+	return int(rank) + 1
 }
 
-// return -1 if score is inf
+// return the rank of the last element inside an interval that ends at score
 func (zsl *zSkipList) maxScoreRank(score float64, openInterval bool) int {
-	if math.IsInf(score, 0) {
-		return -1
-	}
-
 	var (
 		rank uint
 		x    = zsl.head
 	)
-loop:
 	for i := zsl.level - 1; i >= 0; i-- {
 		for x.levels[i].forward != nil &&
-			(x.levels[i].forward.score <= score) {
+			(x.levels[i].forward.score < score ||
+				(!openInterval && x.levels[i].forward.score == score)) {
 			rank += x.levels[i].span
 			x = x.levels[i].forward
-
-			// got the position
-			if x.score > score || (openInterval && x.score == score) {
-				if x.score == score && openInterval {
-					rank -= 1
-				}
-
-				break loop
-			}
 		}
 	}
 
@@ -475,21 +430,10 @@ func (zsl *zSkipList) zRevRange(start, stop int, withScores bool) []string {
 }
 
 func (zsl *zSkipList) zRangeByScore(min float64, minOpen bool, max float64, maxOpen bool, withScores bool) []string {
-	// -inf +inf
-	if math.IsInf(min, -1) && math.IsInf(max, 1) {
-		return zsl.zRange(0, zsl.length, withScores)
-	}
-
 	minRank := zsl.minScoreRank(min, minOpen)
 	maxRank := zsl.maxScoreRank(max, maxOpen)
-	fmt.Println(minRank, maxRank)
-	// -inf:max
-	if minRank <= 0 {
-		return zsl.zRange(0, maxRank-1, withScores)
-	}
-
-	if maxRank < 0 {
-		return zsl.zRange(minRank-1, zsl.length, withScores)
+	if maxRank < minRank {
+		return nil
 	}
 
 	return zsl.zRange(minRank-1, maxRank-1, withScores)
-- 
2.43.0


From 326d60f67e8c2adcccfcc6c3d6886649d7730e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 29/62] fix: a score interval bound has to be a number

---
 datastruct/sorted_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index af18c76..e3e740b 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -785,7 +785,7 @@ func handleFloatScoreStr(str string) (float64, bool, error) {
 		}
 
 		f, err := strconv.ParseFloat(tmp, 64)
-		if err != nil {
+		if err != nil || math.IsNaN(f) {
 			return 0, false, ErrNotFloat
 		}
 
-- 
2.43.0


From 87caa4800acb841b7c24f3b4a8095734fe6a41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 30/62] fix: a score is never not-a-number

---
 datastruct/sorted_set.go | 34 ++++++++++++++++++++++++++++++++++
 redis/sorted_set.go      |  5 +++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index e3e740b..53cf945 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -497,6 +497,31 @@ func (zs *zSet) zAdd(score float64, value string, flag int) *zSkipListNode {
 	return nil
 }
 
+// incrMakesNaN tells whether adding the scores one by one leaves a score that is not a number,
+// which happens when opposite infinities meet
+func (zs *zSet) incrMakesNaN(members []*ZSetMember, flag int) bool {
+	scores := make(map[string]float64, len(members))
+	for _, m := range members {
+		cur, ok := scores[m.Value]
+		if !ok {
+			if de := zs.loadDictEntry(m.Value); de != nil {
+				cur, ok = *(de.getValue().(*float64)), true
+			}
+		}
+
+		if (ok && flag&ZAddInNx != 0) || (!ok && flag&ZAddInXx != 0) {
+			continue
+		}
+
+		scores[m.Value] = cur + m.Score
+		if math.IsNaN(scores[m.Value]) {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (zs *zSet) loadDictEntry(key string) *dictEntry {
 	v, ok := zs.m.Get(key)
 	if !ok {
@@ -552,6 +577,11 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		})
 	}
 
+	// refuse before anything changes
+	if flag&ZAddInIncr != 0 && zs.incrMakesNaN(members, flag) {
+		return 0, ErrNotFloat
+	}
+
 	var cnt int
 	for _, m := range members {
 		if node := zs.zAdd(m.Score, m.Value, flag); node != nil {
@@ -655,6 +685,10 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		})
 	}
 
+	if zs.incrMakesNaN([]*ZSetMember{{Score: score, Value: value}}, ZAddInIncr) {
+		return 0, ErrNotFloat
+	}
+
 	node := zs.zAdd(score, value, ZAddInIncr)
 	if node == nil {
 		return 0, ErrNil
diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 46ca1d5..1ef05d5 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -1,6 +1,7 @@
 package redis
 
 import (
+	"math"
 	"strconv"
 	"strings"
 
@@ -36,7 +37,7 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		// add more
 		default:
 			score, err := strconv.ParseFloat(c.Values[i], 64)
-			if err != nil {
+			if err != nil || math.IsNaN(score) {
 				return nil, ErrValueOutOfRange
 			}
 
@@ -156,7 +157,7 @@ func zIncr(c *Command) (*protocol.Response, error) {
 	}
 
 	score, err := strconv.ParseFloat(c.Values[1], 64)
-	if err != nil {
+	if err != nil || math.IsNaN(score) {
 		return nil, ErrValueOutOfRange
 	}
 
-- 
2.43.0


From d37371df9b4863ed68c30cad997d7fda7e25ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 31/62] fix: zincr replies the score also when it did not
 change

---
 datastruct/sorted_set.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 53cf945..7ad5f17 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -689,12 +689,10 @@ func ZIncr(key string, score float64, value string) (float64, error) {
 		return 0, ErrNotFloat
 	}
 
-	node := zs.zAdd(score, value, ZAddInIncr)
-	if node == nil {
-		return 0, ErrNil
-	}
+	// no node is returned when the score stays as it was
+	zs.zAdd(score, value, ZAddInIncr)
 
-	return node.score, nil
+	return *(zs.loadDictEntry(value).getValue().(*float64)), nil
 }
 
 // ZRange not support limit for now
-- 
2.43.0


From 67fde1e3311cebac21d1f8564dafa185a0bcc5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 32/62] fix: zadd refuses a score without a member

---
 redis/sorted_set.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 1ef05d5..7fc3ecb 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -23,7 +23,8 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		flag    int
 	)
 
-	for i := 1; i < len(c.Values)-1; {
+	var i = 1
+	for i < len(c.Values)-1 {
 		switch strings.ToLower(c.Values[i]) {
 		case "xx":
 			flag |= datastruct.ZAddInXx
@@ -49,6 +50,11 @@ func zAdd(c *Command) (*protocol.Response, error) {
 		}
 	}
 
+	if i < len(c.Values) {
+		// a score or a flag without what has to follow it
+		return nil, ErrCommandArgsNotEnough
+	}
+
 	cnt, err := datastruct.ZAdd(key, members, flag)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9d75d35ca621e7755641e24b90828563c77fb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 33/62] fix: zrangebyscore honours withscores

---
 redis/sorted_set.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index 7fc3ecb..a5c425b 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -218,7 +218,14 @@ func zRangeByScore(c *Command) (*protocol.Response, error) {
 		return nil, ErrCommandArgsNotEnough
 	}
 
-	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], datastruct.ZRangeInByScore)
+	var flag = datastruct.ZRangeInByScore
+	for _, s := range c.Values[3:] {
+		if strings.ToLower(s) == "withscores" {
+			flag |= datastruct.ZRangeInWithScores
+		}
+	}
+
+	values, err := datastruct.ZRange(c.Values[0], c.Values[1], c.Values[2], flag)
 	if err == datastruct.ErrNil {
 		return protocol.NewResponseWithNilBulk(), nil
 	}
-- 
2.43.0


From 333d627a8e314598a96b145f90ebaa1deb390af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 34/62] fix: a list that lost its last element no longer exists

---
 datastruct/keys.go | 7 +++++++
 datastruct/list.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index 4a6a367..ed4eef9 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -42,6 +42,13 @@ func loadKeyInfo(key string, tp KeyType) (info *KeyInfo, err error) {
 	return info, nil
 }
 
+// dropIfEmpty removes a container which lost its last element, a key never holds an empty one
+func dropIfEmpty(key string, length int) {
+	if length == 0 {
+		defaultCache.keys.Delete(key)
+	}
+}
+
 /*
  * Common Command
  */
diff --git a/datastruct/list.go b/datastruct/list.go
index 47706b3..ceea564 100644
--- a/datastruct/list.go
+++ b/datastruct/list.go
@@ -479,6 +479,7 @@ func LPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	dropIfEmpty(key, list.length)
 	return
 }
 
@@ -521,6 +522,7 @@ func RPop(key string, count int) (values []string, err error) {
 		count--
 	}
 
+	dropIfEmpty(key, list.length)
 	return
 }
 
@@ -551,6 +553,8 @@ func LRem(key string, count int, value string) (n int, err error) {
 		return 0, err
 	}
 
+	defer func() { dropIfEmpty(key, list.length) }()
+
 	if count > 0 {
 		return list.LRemCountFromHead(value, count), nil
 	}
-- 
2.43.0


From d8de9c0dec9ba57f64ed25fffe5085fa85d83c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 35/62] fix: a set that lost its last member no longer exists

---
 datastruct/set.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datastruct/set.go b/datastruct/set.go
index 0c45405..3bab97e 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -163,6 +163,7 @@ func SRem(key string, values ...string) (int, error) {
 		cnt += s.sRem(value)
 	}
 
+	dropIfEmpty(key, s.length)
 	return cnt, nil
 }
 
@@ -206,6 +207,7 @@ func SMove(source, target, value string) (int, error) {
 		return 0, ErrNil
 	}
 
+	dropIfEmpty(source, sset.length)
 	if _, err = SAdd(target, value); err != nil {
 		return 0, err
 	}
@@ -383,7 +385,10 @@ func SPop(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
-	return s.sPop(cnt), nil
+	result := s.sPop(cnt)
+	dropIfEmpty(key, s.length)
+
+	return result, nil
 }
 
 /*
-- 
2.43.0


From bd877d2a5b3c41642ce4b0a5b1325ab758788077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 36/62] fix: storing an empty set algebra result deletes the
 destination

---
 datastruct/set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datastruct/set.go b/datastruct/set.go
index 3bab97e..61be43b 100644
--- a/datastruct/set.go
+++ b/datastruct/set.go
@@ -265,6 +265,7 @@ func SDiffStore(storeKey string, keys ...string) (int, error) {
 		Type:  KeyTypeSet,
 		Value: result,
 	})
+	dropIfEmpty(storeKey, result.length)
 
 	return result.length, nil
 }
@@ -320,6 +321,7 @@ func SInterStore(storeKey string, keys ...string) (int, error) {
 		Type:  KeyTypeSet,
 		Value: result,
 	})
+	dropIfEmpty(storeKey, result.length)
 
 	return result.length, nil
 }
@@ -375,6 +377,7 @@ func SUnionStore(storeKey string, keys ...string) (int, error) {
 		Type:  KeyTypeSet,
 		Value: result,
 	})
+	dropIfEmpty(storeKey, result.length)
 
 	return result.length, nil
 }
-- 
2.43.0


From f04dde3a9a209cf53fcc3cfbe413532e4ef35399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 37/62] fix: a hash that lost its last field no longer exists

---
 datastruct/hash_table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datastruct/hash_table.go b/datastruct/hash_table.go
index 47eb916..d94c13f 100644
--- a/datastruct/hash_table.go
+++ b/datastruct/hash_table.go
@@ -186,6 +186,7 @@ func HDel(key string, fields ...string) (int, error) {
 		cnt += h.del(field)
 	}
 
+	dropIfEmpty(key, h.length)
 	return cnt, nil
 }
 
-- 
2.43.0


From 6990f4c4897ea9708decd47b19152392c092fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 38/62] fix: a sorted set without members does not exist

---
 datastruct/sorted_set.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7ad5f17..7cbd1c6 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -589,6 +589,7 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 		}
 	}
 
+	dropIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -640,6 +641,7 @@ func ZRem(key string, values ...string) (int, error) {
 		cnt++
 	}
 
+	dropIfEmpty(key, zs.zsl.length)
 	return cnt, nil
 }
 
@@ -760,6 +762,8 @@ func ZPopMin(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer func() { dropIfEmpty(key, zs.zsl.length) }()
+
 	var result []string
 	for i := 0; i < cnt; i++ {
 		node := zs.zsl.findElementByRank(1)
@@ -783,6 +787,8 @@ func ZPopMax(key string, cnt int) ([]string, error) {
 		return nil, err
 	}
 
+	defer func() { dropIfEmpty(key, zs.zsl.length) }()
+
 	var result []string
 	for i := 0; i < cnt && zs.zsl.length > 0; i++ {
 		node := zs.zsl.findElementByRank(uint(zs.zsl.length))
-- 
2.43.0


From e60db9c8e6fc676d1fa9a2279f68f96ed3f8c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 39/62] fix: a malformed length or line is refused instead of
 crashing

---
 protocol/decode.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 20cfcf0..d5b191e 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"strconv"
 	"strings"
 )
 
@@ -119,7 +120,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 }
 
 func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err error) {
-	if len(line) < 3 {
+	if len(line) < 3 || !strings.HasSuffix(string(line), CRLF) {
 		return 0, 0, fmt.Errorf("unsupported protocol")
 	}
 
@@ -129,7 +130,7 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	switch desc {
 	// bulk string
 	case DescriptionBulkStrings, descriptionArrays:
-		length = readBulkOrArrayLength(line)
+		length, err = readBulkOrArrayLength(line)
 	case DescriptionSimpleStrings, DescriptionErrors, DescriptionIntegers:
 		r.append(string(line[1:len(line)-CRLFLen]), "")
 		//str = string(line[1 : len(line)-CRLFLen])
@@ -144,19 +145,19 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 	return
 }
 
-func readBulkOrArrayLength(line []byte) int {
-	if line[0] == '-' {
-		return -1
+// readBulkOrArrayLength only knows decimal digits and -1
+func readBulkOrArrayLength(line []byte) (int, error) {
+	digits := string(line[1 : len(line)-CRLFLen])
+	if digits == "-1" {
+		return -1, nil
 	}
 
-	var (
-		ln int
-	)
-	for i := 1; line[i] != '\r'; i++ {
-		ln = (ln * 10) + int(line[i]-'0')
+	ln, err := strconv.ParseUint(digits, 10, 31)
+	if err != nil {
+		return 0, fmt.Errorf("invalid length: %q", digits)
 	}
 
-	return ln
+	return int(ln), nil
 }
 
 func (r *Receive) readBulkStrings(rr Reader, ln int) error {
@@ -183,8 +184,13 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 			return err
 		}
 
-		if line[0] == descriptionArrays {
-			subErr := r.readArray(rr, readBulkOrArrayLength(line))
+		if line[0] == descriptionArrays && len(line) >= 3 {
+			subLen, subErr := readBulkOrArrayLength(line)
+			if subErr != nil {
+				return subErr
+			}
+
+			subErr = r.readArray(rr, subLen)
 			if subErr != nil {
 				return subErr
 			}
-- 
2.43.0


From 96da0445b2029ab81e587e88e4b3843577e1ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 40/62] fix: nested arrays keep their recorded text in order
 and need no recursion

---
 protocol/decode.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index d5b191e..60130ff 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -184,18 +184,6 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 			return err
 		}
 
-		if line[0] == descriptionArrays && len(line) >= 3 {
-			subLen, subErr := readBulkOrArrayLength(line)
-			if subErr != nil {
-				return subErr
-			}
-
-			subErr = r.readArray(rr, subLen)
-			if subErr != nil {
-				return subErr
-			}
-		}
-
 		length, desc, err := r.decodeSingleLine(line)
 		if err != nil {
 			return err
@@ -208,6 +196,11 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 				return err
 			}
 		}
+
+		// elements of a nested array follow right away
+		if desc == descriptionArrays && length > 0 {
+			ln += length
+		}
 	}
 
 	return nil
-- 
2.43.0


From 671e4ade690d39b121c1be2f91bb76ab1bfc6c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 41/62] fix: the recorded text of an inline PING is what was
 received

---
 protocol/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 60130ff..7d32915 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -136,7 +136,7 @@ func (r *Receive) decodeSingleLine(line []byte) (length int, desc byte, err erro
 		//str = string(line[1 : len(line)-CRLFLen])
 	default:
 		if string(line) == "PING\r\n" {
-			r.append("PING", "PING\r\n")
+			r.append("PING", "")
 			return 0, DescriptionSimpleStrings, nil
 		}
 		return 0, 0, fmt.Errorf("unsupport protocol: %s", string(line))
-- 
2.43.0


From b1efa5405831a8e37146ba17087d47d00abc250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 42/62] fix: a bulk string is read completely and ends with
 CRLF

---
 protocol/decode.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 7d32915..fd43818 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -165,14 +165,21 @@ func (r *Receive) readBulkStrings(rr Reader, ln int) error {
 		return fmt.Errorf("invalid length")
 	}
 
-	val := make([]byte, ln+2)
-	_, err := rr.Read(val)
+	// a single read may return less than the whole value,
+	// and memory is only taken for what really arrives
+	buf := new(strings.Builder)
+	_, err := io.CopyN(buf, rr, int64(ln+CRLFLen))
 	if err != nil {
 		return err
 	}
 
+	val := buf.String()
+	if !strings.HasSuffix(val, CRLF) {
+		return fmt.Errorf("bulk string is longer than its length")
+	}
+
 	// trim last \r\n
-	r.append(string(val[:ln]), string(val))
+	r.append(val[:ln], val)
 
 	return nil
 }
-- 
2.43.0


From d65396acadfdd6f7e1c20d93e19732ee42c27201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 43/62] fix: a request that is cut off is told from a malformed
 one

---
 protocol/decode.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index fd43818..2784a9e 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -85,11 +85,23 @@ func ReceiveDataAsync(r Reader) *AsyncReceive {
 	return ar
 }
 
+// incomplete tells a request that is cut off from a stream that ended between two requests
+func incomplete(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+
+	return err
+}
+
 func DecodeFromReader(r Reader) (rec *Receive, err error) {
 	rec = new(Receive)
 	b, err := r.ReadBytes('\n')
 	if err != nil {
 		//log.Println("readBytes err:", err)
+		if len(b) > 0 {
+			err = incomplete(err)
+		}
 		return nil, err
 	}
 
@@ -102,8 +114,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 	if desc == DescriptionBulkStrings {
 		err1 := rec.readBulkStrings(r, length)
 		if err1 != nil {
-			log.Println("read bulk str err:", err1)
-			return nil, err1
+			return nil, incomplete(err1)
 		}
 	}
 
@@ -111,8 +122,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 		// won't sava array element
 		err1 := rec.readArray(r, length)
 		if err1 != nil {
-			log.Println("read bulk str err:", err1)
-			return nil, err1
+			return nil, incomplete(err1)
 		}
 	}
 
@@ -199,7 +209,6 @@ func (r *Receive) readArray(rr Reader, ln int) error {
 		if desc == DescriptionBulkStrings {
 			err = r.readBulkStrings(rr, length)
 			if err != nil {
-				log.Println("read bulk str err:", err)
 				return err
 			}
 		}
-- 
2.43.0


From 633c544da93cfc8fdfb32189f9bb8007a020c42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 44/62] fix: recording a request with many arguments takes
 linear time

---
 protocol/decode.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protocol/decode.go b/protocol/decode.go
index 2784a9e..b2d14e7 100644
--- a/protocol/decode.go
+++ b/protocol/decode.go
@@ -20,6 +20,8 @@ import (
 type Receive struct {
 	Elements []string
 	OrgStr   string
+
+	org []byte // collects OrgStr while decoding
 }
 
 func (r Receive) String() string {
@@ -43,11 +45,11 @@ func (r *Receive) append(ele, org string) {
 	}
 
 	r.Elements = append(r.Elements, ele)
-	r.OrgStr += org
+	r.addOrg(org)
 }
 
 func (r *Receive) addOrg(s string) {
-	r.OrgStr += s
+	r.org = append(r.org, s...)
 }
 
 type AsyncReceive struct {
@@ -126,6 +128,7 @@ func DecodeFromReader(r Reader) (rec *Receive, err error) {
 		}
 	}
 
+	rec.OrgStr, rec.org = string(rec.org), nil
 	return
 }
 
-- 
2.43.0


From e618e9e58d24229d15ffbae8ebaa906a7eb6cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 45/62] fix: stopping executes every queued event and refuses
 later ones

---
 event/event_pool.go | 31 +++++++++++++++++++++++++------
 event/handler.go    |  4 +++-
 event/worker.go     | 28 +++++++---------------------
 3 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/event/event_pool.go b/event/event_pool.go
index 489aab0..2abd5fb 100644
--- a/event/event_pool.go
+++ b/event/event_pool.go
@@ -1,13 +1,20 @@
 package event
 
 import (
+	"errors"
 	"sync"
 )
 
+// ErrStopped is returned for an event that comes after Stop
+var ErrStopped = errors.New("ERR server is shutting down")
+
 type EventPool struct {
 	eventChan chan *Event
 	workers   []*worker
 	wg        *sync.WaitGroup
+
+	mu      sync.RWMutex // held for reading while an event is being added
+	stopped bool
 }
 
 func NewEventPool() *EventPool {
@@ -20,15 +27,27 @@ func NewEventPool() *EventPool {
 	return ep
 }
 
-func (ep *EventPool) AddEvent(e *Event) {
+// AddEvent queues an event, an error means it won't be executed
+func (ep *EventPool) AddEvent(e *Event) error {
+	ep.mu.RLock()
+	defer ep.mu.RUnlock()
+
+	if ep.stopped {
+		return ErrStopped
+	}
+
 	ep.eventChan <- e
+	return nil
 }
 
+// Stop refuses new events and returns after every event added before is executed
 func (ep *EventPool) Stop() {
-	close(ep.eventChan)
-	for _, w := range ep.workers {
-		w.stop()
+	ep.mu.Lock()
+	if !ep.stopped {
+		ep.stopped = true
+		close(ep.eventChan)
 	}
+	ep.mu.Unlock()
 
 	ep.wg.Wait()
 }
@@ -56,8 +75,8 @@ func SetGlobalEventPool(ep *EventPool) {
 	globalEventPool = ep
 }
 
-func AddEvent(e *Event) {
-	globalEventPool.AddEvent(e)
+func AddEvent(e *Event) error {
+	return globalEventPool.AddEvent(e)
 }
 
 func Stop() {
diff --git a/event/handler.go b/event/handler.go
index 0ae9d66..44793b4 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -33,7 +33,9 @@ func HandleRequest(rec *protocol.Receive) []byte {
 
 	// event handler handle event one by one
 	e := NewEvent(cmd)
-	AddEvent(e)
+	if err := AddEvent(e); err != nil {
+		return protocol.NewResponseWithError(err).Encode()
+	}
 
 	// wait for result or context timeout
 	var rsp *protocol.Response
diff --git a/event/worker.go b/event/worker.go
index 6e3bf51..4b2cc00 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -6,37 +6,23 @@ import (
 )
 
 type worker struct {
-	ep   *EventPool
-	done chan bool
+	ep *EventPool
 }
 
 func newWorker(ep *EventPool) *worker {
 	return &worker{
-		ep:   ep,
-		done: make(chan bool, 1),
+		ep: ep,
 	}
 }
 
 func (w *worker) run(wg *sync.WaitGroup) {
 	defer wg.Done()
 
-	for {
-		select {
-		case <-w.done:
-			log.Println("worker done")
-			return
-		case e := <-w.ep.eventChan:
-			if e == nil {
-				return
-			}
-
-			e.Rsp = <-e.Cmd.ExecuteAsync()
-			close(e.done)
-		}
+	// ends when the channel is closed and empty
+	for e := range w.ep.eventChan {
+		e.Rsp = <-e.Cmd.ExecuteAsync()
+		close(e.done)
 	}
-}
 
-func (w *worker) stop() {
-	w.done <- true
-	close(w.done)
+	log.Println("worker done")
 }
-- 
2.43.0


From 64becc3f7e73f1c1c819f19fd35fb14367b6af21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 46/62] fix: a request answered with a timeout is not executed
 afterwards

---
 event/event.go   | 10 ++++++++++
 event/handler.go |  9 ++++++++-
 event/worker.go  |  4 ++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/event/event.go b/event/event.go
index a204100..a1b2890 100644
--- a/event/event.go
+++ b/event/event.go
@@ -1,6 +1,8 @@
 package event
 
 import (
+	"sync/atomic"
+
 	"github.com/yusank/godis/protocol"
 	"github.com/yusank/godis/redis"
 )
@@ -9,6 +11,8 @@ type Event struct {
 	Cmd  *redis.Command
 	Rsp  *protocol.Response
 	done chan struct{}
+
+	taken int32 // set by the one who decides whether the event is executed
 }
 
 func NewEvent(cmd *redis.Command) *Event {
@@ -18,6 +22,12 @@ func NewEvent(cmd *redis.Command) *Event {
 	}
 }
 
+// take returns true for the first caller only,
+// the worker to execute the event or the submitter to withdraw it
+func (e *Event) take() bool {
+	return atomic.CompareAndSwapInt32(&e.taken, 0, 1)
+}
+
 func (e *Event) Done() <-chan struct{} {
 	return e.done
 }
diff --git a/event/handler.go b/event/handler.go
index 44793b4..ce16fad 100644
--- a/event/handler.go
+++ b/event/handler.go
@@ -41,7 +41,14 @@ func HandleRequest(rec *protocol.Receive) []byte {
 	var rsp *protocol.Response
 	select {
 	case <-ctx.Done():
-		rsp = protocol.NewResponseWithError(ctx.Err())
+		if e.take() {
+			// not started yet and never will
+			rsp = protocol.NewResponseWithError(ctx.Err())
+			break
+		}
+
+		<-e.Done()
+		rsp = e.Rsp
 	case <-e.Done():
 		rsp = e.Rsp
 	}
diff --git a/event/worker.go b/event/worker.go
index 4b2cc00..36f956f 100644
--- a/event/worker.go
+++ b/event/worker.go
@@ -20,6 +20,10 @@ func (w *worker) run(wg *sync.WaitGroup) {
 
 	// ends when the channel is closed and empty
 	for e := range w.ep.eventChan {
+		if !e.take() {
+			continue
+		}
+
 		e.Rsp = <-e.Cmd.ExecuteAsync()
 		close(e.done)
 	}
-- 
2.43.0


From 431f6bb7a7b1772d7547507b437b6971f153754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 47/62] fix: requests are recognised whatever the segmentation
 and answered in order

---
 server/v2/server.go  |  43 ++++++++++-------
 server/v2/session.go | 109 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 134 insertions(+), 18 deletions(-)
 create mode 100644 server/v2/session.go

diff --git a/server/v2/server.go b/server/v2/server.go
index 69b9fec..473ff99 100644
--- a/server/v2/server.go
+++ b/server/v2/server.go
@@ -1,7 +1,6 @@
 package v2
 
 import (
-	"bytes"
 	"context"
 	"log"
 	"time"
@@ -10,7 +9,6 @@ import (
 	"github.com/panjf2000/gnet/pkg/pool/goroutine"
 
 	"github.com/yusank/godis/event"
-	"github.com/yusank/godis/protocol"
 )
 
 type Server struct {
@@ -41,29 +39,38 @@ func (s *Server) Stop() {
 	}
 }
 
-func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
-	var data = make([]byte, len(frame))
-	copy(data, frame)
+// OnOpened starts a session for the connection
+func (s *Server) OnOpened(c gnet.Conn) (out []byte, action gnet.Action) {
+	ses := newSession()
+	c.SetContext(ses)
 
-	_ = s.pool.Submit(func() {
-		buf := bytes.NewBuffer(data)
-		rec, err := protocol.DecodeFromReader(buf)
-		if err != nil {
-			log.Println(err)
-			return
-		}
+	if err := s.pool.Submit(ses.serve); err != nil {
+		log.Println(err)
+		return nil, gnet.Close
+	}
 
-		reply := event.HandleRequest(rec)
-		if len(reply) == 0 {
-			return
-		}
+	return
+}
 
-		_ = c.AsyncWrite(reply)
-	})
+// OnClosed ends the session of the connection
+func (s *Server) OnClosed(c gnet.Conn, err error) (action gnet.Action) {
+	if ses, ok := c.Context().(*session); ok {
+		ses.close()
+	}
 
 	return
 }
 
+// React replies to every request which is complete with this frame, a frame may hold many requests or a part of one
+func (s *Server) React(frame []byte, c gnet.Conn) (out []byte, action gnet.Action) {
+	out, ok := c.Context().(*session).feed(frame)
+	if !ok {
+		return out, gnet.Close
+	}
+
+	return out, gnet.None
+}
+
 func (s *Server) OnShutdown(srv gnet.Server) {
 	event.Stop()
 }
diff --git a/server/v2/session.go b/server/v2/session.go
new file mode 100644
index 0000000..540c007
--- /dev/null
+++ b/server/v2/session.go
@@ -0,0 +1,109 @@
+package v2
+
+import (
+	"bufio"
+	"bytes"
+	"errors"
+	"io"
+	"log"
+	"sync"
+
+	"github.com/yusank/godis/event"
+	"github.com/yusank/godis/protocol"
+)
+
+var errProtocol = errors.New("ERR Protocol error")
+
+// session decodes and executes the requests of one connection one after another
+type session struct {
+	mu   sync.Mutex
+	cond *sync.Cond
+
+	in      bytes.Buffer // received and not read yet
+	out     []byte       // replies not taken yet
+	waiting bool         // everything received is read, and more is needed to go on
+	closed  bool         // nothing more will be received
+	ended   bool         // serve returned
+}
+
+func newSession() *session {
+	s := new(session)
+	s.cond = sync.NewCond(&s.mu)
+
+	return s
+}
+
+// serve runs until the connection is closed or sends something which is not a request
+func (s *session) serve() {
+	defer s.end()
+
+	r := bufio.NewReader(s)
+	for {
+		rec, err := protocol.DecodeFromReader(r)
+		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+			return
+		}
+
+		if err != nil {
+			log.Println(err)
+			s.reply(protocol.NewResponseWithError(errProtocol).Encode())
+			return
+		}
+
+		s.reply(event.HandleRequest(rec))
+	}
+}
+
+// feed hands over received data, it returns the replies to all the requests which are complete by now.
+// ok is false if the connection can't be served any more
+func (s *session) feed(data []byte) (out []byte, ok bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.in.Write(data)
+	s.waiting = false
+	s.cond.Broadcast()
+	for !s.waiting && !s.ended {
+		s.cond.Wait()
+	}
+
+	out, s.out = s.out, nil
+	return out, !s.ended
+}
+
+// Read blocks until something is received
+func (s *session) Read(p []byte) (int, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	for s.in.Len() == 0 && !s.closed {
+		s.waiting = true
+		s.cond.Broadcast()
+		s.cond.Wait()
+	}
+
+	return s.in.Read(p)
+}
+
+func (s *session) reply(b []byte) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.out = append(s.out, b...)
+}
+
+func (s *session) close() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.closed = true
+	s.cond.Broadcast()
+}
+
+func (s *session) end() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	s.ended = true
+	s.cond.Broadcast()
+}
-- 
2.43.0


From 91d5ffa2a558fa6490b3d4929c1ed98051c0ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 48/62] fix: prepared data is executed one command after
 another

---
 cmd/server/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/server/main.go b/cmd/server/main.go
index 218e606..d539a03 100644
--- a/cmd/server/main.go
+++ b/cmd/server/main.go
@@ -110,7 +110,7 @@ func insertPreData() {
 			Values:  datum[1:],
 		}
 
-		c.ExecuteAsync()
+		<-c.ExecuteAsync()
 	}
 
 	log.Println("data prepared")
-- 
2.43.0


From f157af689f4ea071afb8ebe63d7efed9cea6d48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 49/62] verif: trace points, off without the verif build tag

---
 debug/trace.go             |  7 +++++++
 debug/trace_verif.go       | 10 ++++++++++
 lib/shard_map/shard_map.go |  3 +++
 redis/command.go           |  4 ++++
 4 files changed, 24 insertions(+)
 create mode 100644 debug/trace.go
 create mode 100644 debug/trace_verif.go

diff --git a/debug/trace.go b/debug/trace.go
new file mode 100644
index 0000000..4458379
--- /dev/null
+++ b/debug/trace.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package debug
+
+// Trace marks a point of interest, it does nothing without the verif tag
+func Trace(point string, v interface{}) {}
diff --git a/debug/trace_verif.go b/debug/trace_verif.go
new file mode 100644
index 0000000..6fcce40
--- /dev/null
+++ b/debug/trace_verif.go
@@ -0,0 +1,10 @@
+//go:build verif
+// +build verif
+
+package debug
+
+// Tracer receives every point of interest passed while running
+var Tracer = func(point string, v interface{}) {}
+
+// Trace marks a point of interest
+func Trace(point string, v interface{}) { Tracer(point, v) }
diff --git a/lib/shard_map/shard_map.go b/lib/shard_map/shard_map.go
index 5b488a6..4eb0224 100644
--- a/lib/shard_map/shard_map.go
+++ b/lib/shard_map/shard_map.go
@@ -2,6 +2,8 @@
 
 package smap
 
+import "github.com/yusank/godis/debug"
+
 const shardCount = 32
 
 // Map uses for non-lock single thread situation.
@@ -148,6 +150,7 @@ func (m Map) Items() map[string]interface{} {
 
 // GetShard returns shard under given key
 func (m Map) GetShard(key string) *Shard {
+	debug.Trace("shard", nil)
 	return m[uint(fnv32(key))%uint(shardCount)]
 }
 
diff --git a/redis/command.go b/redis/command.go
index b2fe090..6c40abc 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"strings"
 
+	"github.com/yusank/godis/debug"
 	"github.com/yusank/godis/protocol"
 )
 
@@ -50,13 +51,16 @@ func (c *Command) ExecuteAsync() chan *protocol.Response {
 		//		log.Println(c.Command, c.Values)
 		//	}
 		//}()
+		debug.Trace("begin", c)
 		f, ok := implementedCommands[c.Command]
 		if !ok {
+			debug.Trace("end", c)
 			c.setRsp(nil, ErrUnknownCommand, rspChan)
 			return
 		}
 
 		result, err := f(c)
+		debug.Trace("end", c)
 		c.setRsp(result, err, rspChan)
 	}()
 
-- 
2.43.0


From acb7ff21635f9cfed5be58febd8164088f06b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 50/62] fix: the generator writes nothing for a file which is
 not a source

---
 cmd/gen_redis_cmd/main.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 9251e3b..8b3d9a1 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -16,6 +16,11 @@ func main() {
 	}
 	fPath = os.Args[1]
 
+	if !isSource(fPath) {
+		log.Println("not a source file: ", fPath)
+		return
+	}
+
 	log.Println("start generating file: ", fPath)
 	kvs, err := readAndParseFile(fPath)
 	if err != nil {
@@ -36,13 +41,13 @@ const (
 	generatedFileSuffix = ".cmd.go"
 )
 
+func isSource(fp string) bool {
+	return strings.HasSuffix(fp, ".go") && !strings.HasSuffix(fp, generatedFileSuffix)
+}
+
 func readAndParseFile(fp string) ([]KV, error) {
 	var kvs = make([]KV, 0)
-	if !strings.HasSuffix(fp, ".go") {
-		return nil, nil
-	}
-
-	if strings.HasSuffix(fp, generatedFileSuffix) {
+	if !isSource(fp) {
 		return nil, nil
 	}
 
@@ -88,7 +93,7 @@ func readAndParseFile(fp string) ([]KV, error) {
 }
 
 func writeFile(name string, kvs []KV) error {
-	name = strings.Replace(name, ".go", generatedFileSuffix, 1)
+	name = strings.TrimSuffix(name, ".go") + generatedFileSuffix
 	f, err := os.Create(name)
 	if err != nil {
 		return err
-- 
2.43.0


From 9ab2ca0f80aa5ec4e58c409538bc8357a12bad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 51/62] fix: the generator takes a command name from a comment
 line only

---
 cmd/gen_redis_cmd/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 8b3d9a1..cbde3a5 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -70,14 +70,17 @@ func readAndParseFile(fp string) ([]KV, error) {
 				FuncName: fName,
 			}
 
-			if lastLine != "" {
-				kv.CmdName = strings.ToLower(
+			if strings.HasPrefix(lastLine, "//") {
+				name := strings.ToLower(
 					strings.TrimSpace(
 						strings.TrimPrefix(
 							strings.TrimSuffix(lastLine, "."),
 							"//"),
 					),
 				)
+				if name != "" {
+					kv.CmdName = name
+				}
 			}
 
 			kvs = append(kvs, kv)
-- 
2.43.0


From 110aa7983a42a06ad3fe6b179e30897d0be431ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 52/62] fix: the generator finds handlers with digits in their
 name and no commented ones

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index cbde3a5..c263bca 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -132,7 +132,7 @@ func init() {
 var fNameRegex *regexp.Regexp
 
 func init() {
-	r, err := regexp.Compile(`func\s+([A-Za-z]+)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
+	r, err := regexp.Compile(`^func\s+([A-Za-z]\w*)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 178ced008debb453ff0b46a3ac055d701b437aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 53/62] fix: the generator reads lines of any length

---
 cmd/gen_redis_cmd/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index c263bca..f8d53a5 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bufio"
 	"log"
+	"math"
 	"os"
 	"regexp"
 	"strings"
@@ -62,6 +63,8 @@ func readAndParseFile(fp string) ([]KV, error) {
 		lastLine string // for read func comment
 	)
 
+	// a line has no maximum length
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		fName := regexCmdFuncStr(scanner.Text())
 		if fName != "" {
@@ -86,10 +89,10 @@ func readAndParseFile(fp string) ([]KV, error) {
 			kvs = append(kvs, kv)
 		}
 		lastLine = strings.TrimSpace(scanner.Text())
+	}
 
-		if err != nil {
-			return nil, err
-		}
+	if err = scanner.Err(); err != nil {
+		return nil, err
 	}
 
 	return kvs, nil
-- 
2.43.0


From 8aa6f1e002ec0fa58655acef0e055f0f132f6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 54/62] fix: the parts of a keys pattern never overlap and ?
 needs a character

---
 datastruct/keys.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/datastruct/keys.go b/datastruct/keys.go
index ed4eef9..f504b3e 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -72,8 +72,9 @@ func Keys(pattern string) (keys []string, err error) {
 		return nil, err
 	}
 
+	minLen := minMatchLen(pattern)
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
-		if g.Match(key) {
+		if len(key) >= minLen && g.Match(key) {
 			keys = append(keys, key)
 		}
 		return true
@@ -82,6 +83,29 @@ func Keys(pattern string) (keys []string, err error) {
 	return
 }
 
+// minMatchLen returns a length which every match of a valid pattern has at least.
+// glob lets the parts around a * overlap (a*a matches a), and lets ? or a class match nothing
+func minMatchLen(pattern string) (n int) {
+	for i := 0; i < len(pattern); i++ {
+		switch pattern[i] {
+		case '*':
+			continue
+		case '{':
+			// what follows may be one of some alternatives
+			return n
+		case '\\':
+			i++
+		case '[':
+			for i < len(pattern) && pattern[i] != ']' {
+				i++
+			}
+		}
+		n++
+	}
+
+	return n
+}
+
 func Del(key string) int {
 	remove := defaultCache.keys.DeleteIfExists(key)
 
-- 
2.43.0


From e038d743a8ee81f4ad8c4dbd3f1f8faab7171684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 55/62] fix: zpopmin and zpopmax refuse a key of another type

---
 redis/sorted_set.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/redis/sorted_set.go b/redis/sorted_set.go
index a5c425b..210584a 100644
--- a/redis/sorted_set.go
+++ b/redis/sorted_set.go
@@ -287,12 +287,12 @@ func zPopMin(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMin(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
@@ -318,12 +318,12 @@ func zPopMix(c *Command) (*protocol.Response, error) {
 	}
 
 	values, err := datastruct.ZPopMax(key, cnt)
-	if err == datastruct.ErrNil || len(values) == 0 {
-		return protocol.NewResponseWithEmptyArray(), nil
+	if err != nil && err != datastruct.ErrNil {
+		return nil, err
 	}
 
-	if err != nil {
-		return nil, err
+	if len(values) == 0 {
+		return protocol.NewResponseWithEmptyArray(), nil
 	}
 
 	return protocol.NewResponse(true).AppendBulkStrings(values...), nil
-- 
2.43.0


From 998ea6226a0931e60d858a8eefbb3d64f1f6bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 56/62] fix: a refused zadd incr leaves no empty sorted set
 behind

---
 datastruct/sorted_set.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datastruct/sorted_set.go b/datastruct/sorted_set.go
index 7cbd1c6..cd30707 100644
--- a/datastruct/sorted_set.go
+++ b/datastruct/sorted_set.go
@@ -579,6 +579,7 @@ func ZAdd(key string, members []*ZSetMember, flag int) (int, error) {
 
 	// refuse before anything changes
 	if flag&ZAddInIncr != 0 && zs.incrMakesNaN(members, flag) {
+		dropIfEmpty(key, zs.zsl.length)
 		return 0, ErrNotFloat
 	}
 
-- 
2.43.0


From 6cede79c98e14f6171c17c81f59938966a09776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 57/62] fix: a command which outlives its deadline while
 executing gets its reply

---
 redis/command.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/redis/command.go b/redis/command.go
index 6c40abc..378f3a0 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -68,11 +68,6 @@ func (c *Command) ExecuteAsync() chan *protocol.Response {
 }
 
 func (c *Command) setRsp(result *protocol.Response, err error, ch chan *protocol.Response) {
-	// if ctx has error won't put
-	if c.Ctx != nil && c.Ctx.Err() != nil {
-		return
-	}
-
 	if err != nil {
 		ch <- protocol.NewResponseWithError(err)
 		return
-- 
2.43.0


From b555a52d22cfe8da7e0454a2f18a8d8214dbb903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 58/62] fix: the generator finds no handlers within comments
 and strings

---
 cmd/gen_redis_cmd/main.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index f8d53a5..77d2d09 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -2,6 +2,9 @@ package main
 
 import (
 	"bufio"
+	"bytes"
+	"go/scanner"
+	"go/token"
 	"log"
 	"math"
 	"os"
@@ -52,22 +55,24 @@ func readAndParseFile(fp string) ([]KV, error) {
 		return nil, nil
 	}
 
-	f, err := os.Open(fp)
+	src, err := os.ReadFile(fp)
 	if err != nil {
 		return nil, err
 	}
-	defer noOp(f.Close)
 
 	var (
-		scanner  = bufio.NewScanner(f)
-		lastLine string // for read func comment
+		scanner   = bufio.NewScanner(bytes.NewReader(src))
+		funcLines = findFuncLines(src)
+		line      int
+		lastLine  string // for read func comment
 	)
 
 	// a line has no maximum length
 	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
+		line++
 		fName := regexCmdFuncStr(scanner.Text())
-		if fName != "" {
+		if fName != "" && funcLines[line] {
 			kv := KV{
 				CmdName:  strings.ToLower(fName),
 				FuncName: fName,
@@ -98,6 +103,27 @@ func readAndParseFile(fp string) ([]KV, error) {
 	return kvs, nil
 }
 
+// findFuncLines returns the lines where a function is declared, which is not so within a comment or a string
+func findFuncLines(src []byte) map[int]bool {
+	var (
+		s     scanner.Scanner
+		file  = token.NewFileSet().AddFile("", -1, len(src))
+		lines = make(map[int]bool)
+	)
+
+	s.Init(file, src, func(token.Position, string) {}, 0)
+	for {
+		pos, tok, _ := s.Scan()
+		if tok == token.EOF {
+			return lines
+		}
+
+		if p := file.PositionFor(pos, false); tok == token.FUNC && p.Column == 1 {
+			lines[p.Line] = true
+		}
+	}
+}
+
 func writeFile(name string, kvs []KV) error {
 	name = strings.TrimSuffix(name, ".go") + generatedFileSuffix
 	f, err := os.Create(name)
-- 
2.43.0


From 1dcc38d44645c71bcf40f3651e3b856e8b07a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 59/62] fix: the generator quotes command names

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 77d2d09..2b5fea9 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -151,7 +151,7 @@ package redis
 
 func init() {
 {{- range . }}
-	implementedCommands["{{ .CmdName }}"] = {{ .FuncName }}
+	implementedCommands[{{ printf "%q" .CmdName }}] = {{ .FuncName }}
 {{- end }}
 }
 `
-- 
2.43.0


From 71321a2cd85dafbdd2be02c48c845eff76894fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 60/62] fix: the generator takes no other result type for the
 one of a handler

---
 cmd/gen_redis_cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 2b5fea9..688e1ca 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -161,7 +161,7 @@ func init() {
 var fNameRegex *regexp.Regexp
 
 func init() {
-	r, err := regexp.Compile(`^func\s+([A-Za-z]\w*)\(c \*Command\)\s+\(\*protocol.Response,\s+error\)`)
+	r, err := regexp.Compile(`^func\s+([A-Za-z]\w*)\(c \*Command\)\s+\(\*protocol\.Response,\s+error\)`)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From bba31882f5d76c42238ab74a20d1c874fde932cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 61/62] fix: the generator takes names from comments only

---
 cmd/gen_redis_cmd/main.go | 41 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/cmd/gen_redis_cmd/main.go b/cmd/gen_redis_cmd/main.go
index 688e1ca..dae29be 100644
--- a/cmd/gen_redis_cmd/main.go
+++ b/cmd/gen_redis_cmd/main.go
@@ -61,10 +61,10 @@ func readAndParseFile(fp string) ([]KV, error) {
 	}
 
 	var (
-		scanner   = bufio.NewScanner(bytes.NewReader(src))
-		funcLines = findFuncLines(src)
-		line      int
-		lastLine  string // for read func comment
+		scanner         = bufio.NewScanner(bytes.NewReader(src))
+		funcs, comments = findLines(src)
+		line            int
+		lastLine        string // for read func comment
 	)
 
 	// a line has no maximum length
@@ -72,13 +72,13 @@ func readAndParseFile(fp string) ([]KV, error) {
 	for scanner.Scan() {
 		line++
 		fName := regexCmdFuncStr(scanner.Text())
-		if fName != "" && funcLines[line] {
+		if fName != "" && funcs[line] {
 			kv := KV{
 				CmdName:  strings.ToLower(fName),
 				FuncName: fName,
 			}
 
-			if strings.HasPrefix(lastLine, "//") {
+			if strings.HasPrefix(lastLine, "//") && comments[line-1] == lastLine {
 				name := strings.ToLower(
 					strings.TrimSpace(
 						strings.TrimPrefix(
@@ -103,23 +103,26 @@ func readAndParseFile(fp string) ([]KV, error) {
 	return kvs, nil
 }
 
-// findFuncLines returns the lines where a function is declared, which is not so within a comment or a string
-func findFuncLines(src []byte) map[int]bool {
+// findLines returns the lines where a function is declared and the comments which end a line, as what looks like
+// either may be within a comment or a string
+func findLines(src []byte) (funcs map[int]bool, comments map[int]string) {
 	var (
-		s     scanner.Scanner
-		file  = token.NewFileSet().AddFile("", -1, len(src))
-		lines = make(map[int]bool)
+		s    scanner.Scanner
+		file = token.NewFileSet().AddFile("", -1, len(src))
 	)
 
-	s.Init(file, src, func(token.Position, string) {}, 0)
+	funcs, comments = make(map[int]bool), make(map[int]string)
+	s.Init(file, src, func(token.Position, string) {}, scanner.ScanComments)
 	for {
-		pos, tok, _ := s.Scan()
-		if tok == token.EOF {
-			return lines
-		}
-
-		if p := file.PositionFor(pos, false); tok == token.FUNC && p.Column == 1 {
-			lines[p.Line] = true
+		pos, tok, lit := s.Scan()
+		p := file.PositionFor(pos, false)
+		switch {
+		case tok == token.EOF:
+			return funcs, comments
+		case tok == token.FUNC && p.Column == 1:
+			funcs[p.Line] = true
+		case tok == token.COMMENT:
+			comments[p.Line] = strings.TrimSpace(lit)
 		}
 	}
 }
-- 
2.43.0


From 059a8457e6bac6fbf58fdb89fd4a1aba169676d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 62/62] fix: a keys pattern is matched exactly and never ends
 the server

---
 datastruct/keys.go    |  30 +----------
 datastruct/pattern.go | 113 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 115 insertions(+), 28 deletions(-)
 create mode 100644 datastruct/pattern.go

diff --git a/datastruct/keys.go b/datastruct/keys.go
index f504b3e..aed4455 100644
--- a/datastruct/keys.go
+++ b/datastruct/keys.go
@@ -3,8 +3,6 @@ package datastruct
 // keys file put functions for key operation
 
 import (
-	"github.com/yusank/glob"
-
 	smap "github.com/yusank/godis/lib/shard_map"
 )
 
@@ -67,14 +65,13 @@ func Type(key string) (kt KeyType, found bool) {
 }
 
 func Keys(pattern string) (keys []string, err error) {
-	g, err := glob.Compile(pattern)
+	re, err := compilePattern(pattern)
 	if err != nil {
 		return nil, err
 	}
 
-	minLen := minMatchLen(pattern)
 	defaultCache.keys.Range(func(key string, _ interface{}) bool {
-		if len(key) >= minLen && g.Match(key) {
+		if re.MatchString(readable(key)) {
 			keys = append(keys, key)
 		}
 		return true
@@ -83,29 +80,6 @@ func Keys(pattern string) (keys []string, err error) {
 	return
 }
 
-// minMatchLen returns a length which every match of a valid pattern has at least.
-// glob lets the parts around a * overlap (a*a matches a), and lets ? or a class match nothing
-func minMatchLen(pattern string) (n int) {
-	for i := 0; i < len(pattern); i++ {
-		switch pattern[i] {
-		case '*':
-			continue
-		case '{':
-			// what follows may be one of some alternatives
-			return n
-		case '\\':
-			i++
-		case '[':
-			for i < len(pattern) && pattern[i] != ']' {
-				i++
-			}
-		}
-		n++
-	}
-
-	return n
-}
-
 func Del(key string) int {
 	remove := defaultCache.keys.DeleteIfExists(key)
 
diff --git a/datastruct/pattern.go b/datastruct/pattern.go
new file mode 100644
index 0000000..924deb3
--- /dev/null
+++ b/datastruct/pattern.go
@@ -0,0 +1,113 @@
+package datastruct
+
+import (
+	"fmt"
+	"regexp"
+	"strings"
+	"unicode/utf8"
+
+	"github.com/yusank/glob/syntax"
+	"github.com/yusank/glob/syntax/ast"
+)
+
+// compilePattern returns a regular expression for the readable keys which match a glob pattern as a whole.
+// The parser of glob is fine. Its matchers let the parts around a * overlap (a*a matches a), let ? match nothing,
+// take neighbouring lists for one, and split characters of several bytes.
+func compilePattern(pattern string) (*regexp.Regexp, error) {
+	tree, err := syntax.Parse(readable(pattern))
+	if err != nil {
+		return nil, err
+	}
+
+	var b strings.Builder
+	b.WriteString(`(?s)\A`)
+	writePattern(&b, tree)
+	b.WriteString(`\z`)
+
+	return regexp.Compile(b.String())
+}
+
+func writePattern(b *strings.Builder, n *ast.Node) {
+	switch n.Kind {
+	case ast.KindPattern:
+		for i, c := range n.Children {
+			if i > 0 && isAny(c) && isAny(n.Children[i-1]) {
+				continue
+			}
+
+			writePattern(b, c)
+		}
+
+	case ast.KindAnyOf:
+		b.WriteString("(?:")
+		for i, c := range n.Children {
+			if i > 0 {
+				b.WriteByte('|')
+			}
+
+			writePattern(b, c)
+		}
+		b.WriteByte(')')
+
+	case ast.KindAny, ast.KindSuper:
+		b.WriteString(".*")
+
+	case ast.KindSingle:
+		b.WriteByte('.')
+
+	case ast.KindText:
+		b.WriteString(regexp.QuoteMeta(n.Value.(ast.Text).Text))
+
+	case ast.KindList:
+		l := n.Value.(ast.List)
+		writeClass(b, l.Not, func() {
+			for _, r := range l.Chars {
+				fmt.Fprintf(b, `\x{%x}`, r)
+			}
+		})
+
+	case ast.KindRange:
+		r := n.Value.(ast.Range)
+		writeClass(b, r.Not, func() {
+			fmt.Fprintf(b, `\x{%x}-\x{%x}`, r.Lo, r.Hi)
+		})
+	}
+}
+
+func writeClass(b *strings.Builder, not bool, chars func()) {
+	b.WriteByte('[')
+	if not {
+		b.WriteByte('^')
+	}
+
+	chars()
+	b.WriteByte(']')
+}
+
+func isAny(n *ast.Node) bool {
+	return n.Kind == ast.KindAny || n.Kind == ast.KindSuper
+}
+
+// readable returns s with a character of its own for each one that the lexer of glob can not read:
+// a NUL, a byte which is not part of a character, and the replacement character.
+func readable(s string) string {
+	if utf8.ValidString(s) && !strings.ContainsAny(s, "\x00\uFFFD") {
+		return s
+	}
+
+	var b strings.Builder
+	for len(s) > 0 {
+		r, w := utf8.DecodeRuneInString(s)
+		switch {
+		case r == utf8.RuneError && w > 1:
+			r = 0x10ff00
+		case r == utf8.RuneError || r == 0:
+			r = 0x10fe00 + rune(s[0])
+		}
+
+		b.WriteRune(r)
+		s = s[w:]
+	}
+
+	return b.String()
+}
-- 
2.43.0

