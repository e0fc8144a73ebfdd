From a0bdbee58191fcf1c152fa928868d1bbd77ea7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 01/23] fix: memory provider leaves an empty index entry when
 the cleaner removes the last session of an id

---
 provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider.go b/provider.go
index 3c04702..2f1eb3f 100644
--- a/provider.go
+++ b/provider.go
@@ -191,7 +191,7 @@ func (p *MemoryProvider) unsafeClear() {
 				if str != t.access {
 					continue
 				}
-				if len(strs) == 0 {
+				if len(strs) == 1 {
 					delete(p.ids, t.id)
 				} else {
 					copy(strs[i:], strs[i+1:])
-- 
2.43.0


From 19bf6e04af17d240268643cb38c19f8d293cf33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 02/23] fix: memory provider corrupts its index when a refresh
 reuses the access token of another session

---
 provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider.go b/provider.go
index 2f1eb3f..336c3f8 100644
--- a/provider.go
+++ b/provider.go
@@ -619,6 +619,7 @@ func (p *MemoryProvider) Refresh(ctx context.Context, access, refresh, newAccess
 	// remove old
 	p.unsafePop(ele)
 	delete(p.tokens, access)
+	p.unsafeDestroyByToken(newAccess)
 	// push new
 	t.Refresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 	p.tokens[newAccess] = p.lru.PushBack(t)
-- 
2.43.0


From f4fdf964f04d44a0f73ca207458b3c59f77a7c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 03/23] fix: memory and bolt Create accept a refresh token of
 another id

---
 provider.go               | 2 +-
 provider/bolt/provider.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/provider.go b/provider.go
index 336c3f8..b137e18 100644
--- a/provider.go
+++ b/provider.go
@@ -298,7 +298,7 @@ func (p *MemoryProvider) Create(ctx context.Context,
 	if e != nil {
 		return
 	}
-	_, _, _, e = Split(refresh)
+	e = p.checkID(id, refresh)
 	if e != nil {
 		return
 	}
diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f6dee5d..67b2a52 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -283,7 +283,7 @@ func (p *Provider) Create(ctx context.Context,
 	if e != nil {
 		return
 	}
-	_, _, _, e = sessionid.Split(refresh)
+	e = p.checkID(id, refresh)
 	if e != nil {
 		return
 	}
-- 
2.43.0


From bb6b732ccd5a1cfddfc75a66f5d5fa098e3e3bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 04/23] fix: bolt background check never removes anything

---
 provider/bolt/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 67b2a52..2a27316 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -240,7 +240,7 @@ func (p *Provider) doCheck(m map[string]bool) (closed bool) {
 		)
 		for token := range m {
 			md, e = p.getMetadata(bMD, []byte(token))
-			if e == nil {
+			if e != nil {
 				return
 			} else if md == nil {
 				continue
-- 
2.43.0


From e9a974961d75fed645fe479bb225d64ef2005637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 05/23] fix: bolt Clear after Close keeps the lock

---
 provider/bolt/provider.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 2a27316..b17a507 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -881,7 +881,6 @@ func (p *Provider) Clear() (e error) {
 
 	} else {
 		e = sessionid.ErrProviderClosed
-		return
 	}
 	p.m.Unlock()
 	return
-- 
2.43.0


From ac6a6fe5dc30b355f60013ce2183dddf4783203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 06/23] fix: bolt Clear fails on a database that never held a
 session

---
 provider/bolt/provider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index b17a507..621d274 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -856,9 +856,11 @@ func (p *Provider) Clear() (e error) {
 				store                  = p.store(t)
 				bMD, bData, bIDS, bLRU = p.buckets(store)
 			)
-			e = store.Delete(keyCount)
-			if e != nil {
-				return
+			if store.Get(keyCount) != nil {
+				e = store.Delete(keyCount)
+				if e != nil {
+					return
+				}
 			}
 			e = p.deleteBucket(bMD)
 			if e != nil {
-- 
2.43.0


From 3cd19ca14a8e0172ad7673e0d1dcb8b995c9ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 07/23] fix: bolt Get returns memory that is only valid inside
 its transaction

---
 provider/bolt/metadata.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/metadata.go b/provider/bolt/metadata.go
index a2b5fff..4a6c196 100644
--- a/provider/bolt/metadata.go
+++ b/provider/bolt/metadata.go
@@ -169,8 +169,10 @@ func (p *Provider) getData(bucket *bolt.Bucket, token string, key []string) (pai
 	for i, k := range key {
 		b := bucket.Get([]byte(k))
 		if b != nil {
+			val := make([]byte, len(b))
+			copy(val, b)
 			pairs[i] = sessionid.Value{
-				Bytes:  b,
+				Bytes:  val,
 				Exists: true,
 			}
 		}
-- 
2.43.0


From 6a81e24b93c30adc1bca3ba1d2f0f260b05020b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 08/23] fix: bolt cleaner may use the database after Close

---
 provider/bolt/provider.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 621d274..9c0c645 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -99,7 +99,9 @@ func (p *Provider) clear(ch <-chan time.Time) {
 			return
 		case <-ch:
 			p.m.Lock()
-			p.doClear()
+			if p.done == 0 {
+				p.doClear()
+			}
 			p.m.Unlock()
 		}
 	}
-- 
2.43.0


From 44f516473f43d575b3ccc1e3c55858a01e366f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 09/23] fix: bolt provider reopened with a smaller maximum size
 stays over it

---
 provider/bolt/provider.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 9c0c645..eac7bfd 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -309,11 +309,14 @@ func (p *Provider) Create(ctx context.Context,
 		if e != nil {
 			return
 		}
-		if p.opts.maxSize > 0 &&
+		for p.opts.maxSize > 0 &&
 			p.count(store) >= uint64(p.opts.maxSize) {
+			count := p.count(store)
 			e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
 			if e != nil {
 				return
+			} else if p.count(store) == count {
+				break
 			}
 		}
 
-- 
2.43.0


From 0b5b2cd09806bc90e3120f90f7c1c7e9fcc9890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 10/23] fix: bolt provider corrupts its index when a refresh
 reuses the access token of another session

---
 provider/bolt/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index eac7bfd..f8a8ac9 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -777,6 +777,10 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			if e != nil {
 				return
 			}
+			e = p.destoryToken(store, bMD, bData, bIDS, bLRU, newAccess)
+			if e != nil {
+				return
+			}
 			// new
 			md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 			key = []byte(newAccess)
-- 
2.43.0


From 7be353be04a2b348f98dfa69d96a25f9d5990c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 11/23] fix: Verify accepts other spellings of a signature

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index a0faaba..1183b25 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -71,6 +71,10 @@ func (m *SigningMethodHMAC) Verify(signingString, signature string, key interfac
 	if err != nil {
 		return err
 	}
+	// A signature has one valid spelling, the one Sign produces.
+	if EncodeSegment(sig) != signature {
+		return ErrSignatureInvalid
+	}
 
 	// Can we use the specified hashing method?
 	if !m.Hash.Available() {
-- 
2.43.0


From 81e395ff02c070b3f098ae85fb4ebe433666e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 12/23] fix: a Session still returns cached values of keys it
 deleted

---
 session.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 2ab136d..9f7161c 100644
--- a/session.go
+++ b/session.go
@@ -214,5 +214,15 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
-	return s.provider.Delete(ctx, token, key)
+	e = s.provider.Delete(ctx, token, key)
+	if e != nil || token != s.token || len(key) == 0 {
+		return
+	}
+	if s.keys == nil {
+		s.keys = make(map[string]value)
+	}
+	for _, k := range key {
+		s.keys[k] = value{}
+	}
+	return
 }
-- 
2.43.0


From f3af883f649716c295b50ea2876b39894b4fbc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 13/23] fix: Session.Get panics on or shares a cached decoded
 value

---
 session.go | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/session.go b/session.go
index 9f7161c..b78f068 100644
--- a/session.go
+++ b/session.go
@@ -12,8 +12,6 @@ type Value struct {
 }
 type value struct {
 	Value
-	Elem  reflect.Value
-	Ready bool
 }
 
 type Session struct {
@@ -162,20 +160,7 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	}
 	if v, ok := s.getKey(key); ok {
 		if v.Exists {
-			if v.Ready && vo.Elem().Kind() == v.Elem.Elem().Kind() {
-				vo.Elem().Set(v.Elem.Elem())
-			} else {
-				e = s.coder.Decode(v.Bytes, pointer)
-				if e != nil {
-					return
-				}
-				v.Ready = true
-				p := reflect.New(vo.Elem().Type())
-				p.Elem().Set(vo.Elem())
-				v.Elem = p
-				s.keys[key] = v
-			}
-			return
+			return s.coder.Decode(v.Bytes, pointer)
 		}
 		e = ErrKeyNotExists
 		return
@@ -200,15 +185,9 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 	if e != nil {
 		return
 	}
-	p := reflect.New(vo.Elem().Type())
-	p.Elem().Set(vo.Elem())
-
-	var v value
-	v.Exists = true
-	v.Bytes = vals[0].Bytes
-	v.Ready = true
-	v.Elem = p
-	s.keys[key] = v
+	s.keys[key] = value{
+		Value: vals[0],
+	}
 	return
 }
 
-- 
2.43.0


From a121947addd5281840f2cbf2d0221619b283a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 14/23] fix: redis Refresh reports success for a session past
 its refresh deadline

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 9c67bb9..c6820d1 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -409,6 +409,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
 		p.pushDelete(key)
 		return
 	} else if md.Refresh != refresh {
-- 
2.43.0


From fce340dc46a3dadfabc15baec65f0eeaea1408d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 15/23] fix: redis keys expire up to a second before, or by
 another clock than, their session

---
 provider/redis/metadata.go | 10 ++++++++++
 provider/redis/provider.go |  7 +++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/provider/redis/metadata.go b/provider/redis/metadata.go
index 2f0d8fa..6dc42e5 100644
--- a/provider/redis/metadata.go
+++ b/provider/redis/metadata.go
@@ -33,3 +33,13 @@ func (md *_Metadata) DoRefresh(access, refresh string, accessDuration, refreshDu
 	md.AccessDeadline = at.Add(accessDuration)
 	md.RefreshDeadline = at.Add(refreshDuration)
 }
+
+// timeToLive returns how long a key has to be kept, rounded up to what redis can express.
+// It does not depend on the clock of the redis server.
+func timeToLive(md *_Metadata) time.Duration {
+	d := time.Until(md.RefreshDeadline)
+	if d <= 0 {
+		return 0
+	}
+	return (d + time.Millisecond - 1).Truncate(time.Millisecond)
+}
diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c6820d1..72ee14f 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -152,8 +152,7 @@ func (p *Provider) Create(ctx context.Context,
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields...)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Expire(ctx, key, p.opts.refresh)
+	tx.PExpire(ctx, key, timeToLive(md))
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -286,7 +285,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpire(ctx, key, timeToLive(&md))
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -426,7 +425,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpire(ctx, key, timeToLive(&md))
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
 	if e != nil {
-- 
2.43.0


From 2765ce9a124dcb45168a1fd8f9b65bc1e780378c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 16/23] fix: redis Create keeps data of a previous session with
 the same token

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 72ee14f..3e766b0 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -151,6 +151,7 @@ func (p *Provider) Create(ctx context.Context,
 	key := p.keyName(access)
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
+	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
 	tx.PExpire(ctx, key, timeToLive(md))
 	_, e = tx.Exec(ctx)
-- 
2.43.0


From 073d5a0b5633c3f1fbb100bb76f769540ff6cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 17/23] fix: redis operations interrupted by Close report an
 internal error

---
 provider/redis/provider.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 3e766b0..2418351 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -113,7 +113,10 @@ func (p *Provider) read() (token string, closed bool) {
 	return
 }
 func (p *Provider) toError(e error) error {
-	if errors.Is(e, redis.ErrClosed) {
+	if e == nil {
+		return nil
+	}
+	if errors.Is(e, redis.ErrClosed) || p.ctx.Err() != nil {
 		return sessionid.ErrProviderClosed
 	}
 	return e
-- 
2.43.0


From 5320e85e03e4f9f0422ce01e78907eacfede5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 18/23] fix: redis Destroy misses sessions under refresh and
 matches ids as patterns

---
 provider/redis/provider.go | 43 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 2418351..a3ce49c 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -11,6 +12,9 @@ import (
 	"github.com/powerpuffpenguin/sessionid"
 )
 
+// globEscaper quotes the characters which are special in a redis pattern
+var globEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 // Provider a provider store data on local bolt database
 type Provider struct {
 	opts options
@@ -177,22 +181,31 @@ func (p *Provider) keyName(key string) string {
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	result := p.opts.client.Keys(ctx, p.keyName(id+`.*`))
-	e = result.Err()
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
-	keys := result.Val()
-	if len(keys) == 0 {
-		return
-	}
-	e = p.opts.client.Del(ctx, keys...).Err()
-	if e != nil {
-		e = p.toError(e)
-		return
+	pattern := globEscaper.Replace(p.keyName(id+`.`)) + `*`
+	// a concurrent refresh may rename a key that was found, until none is left
+	for {
+		var found []string
+		found, e = p.opts.client.Keys(ctx, pattern).Result()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
+		keys := make([]string, 0, len(found))
+		for _, key := range found {
+			s, _, _, err := sessionid.Split(strings.TrimPrefix(key, p.opts.keyPrefix))
+			if err == nil && s == id {
+				keys = append(keys, key)
+			}
+		}
+		if len(keys) == 0 {
+			return
+		}
+		e = p.opts.client.Del(ctx, keys...).Err()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
 	}
-	return
 }
 
 // Destroy a session by token
-- 
2.43.0


From 0161fbca0657036f28a6b0119e2ea790a1a71287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 19/23] fix: redis Keys ignores the state of the session, and
 Keys and Get reveal the metadata field

---
 provider/redis/provider.go | 41 ++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index a3ce49c..8ceedd8 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -222,8 +222,11 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	}
 	return
 }
-func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	val, e = p.opts.client.HGet(ctx, key, p.opts.metadataKey).Result()
+func (p *Provider) getMetadata(ctx context.Context, c redis.Cmdable, key string, md *_Metadata) (val string, e error) {
+	return p.decodeMetadata(c.HGet(ctx, key, p.opts.metadataKey), md)
+}
+func (p *Provider) decodeMetadata(cmd *redis.StringCmd, md *_Metadata) (val string, e error) {
+	val, e = cmd.Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
 			e = sessionid.ErrTokenNotExists
@@ -248,7 +251,7 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 
 	var md _Metadata
 	key := p.keyName(token)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -286,7 +289,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 
 	var md _Metadata
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, key, &md)
+	mdStr, e := p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
@@ -354,7 +357,7 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				break
 			}
 		} else {
-			if str, ok := v.(string); ok {
+			if str, ok := v.(string); ok && fields[i] != p.opts.metadataKey {
 				vals[i-1] = sessionid.Value{
 					Exists: true,
 					Bytes:  []byte(str),
@@ -372,11 +375,33 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 
-	keys, e = p.opts.client.HKeys(ctx, p.keyName(token)).Result()
-	if e != nil {
+	key := p.keyName(token)
+	tx := p.opts.client.TxPipeline()
+	defer tx.Close()
+	tx.HGet(ctx, key, p.opts.metadataKey)
+	fields := tx.HKeys(ctx, key)
+	cmds, e := tx.Exec(ctx)
+	if e != nil && e != redis.Nil {
 		e = p.toError(e)
 		return
 	}
+	var md _Metadata
+	_, e = p.decodeMetadata(cmds[0].(*redis.StringCmd), &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+		return
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+		return
+	}
+	for _, field := range fields.Val() {
+		if field != p.opts.metadataKey {
+			keys = append(keys, field)
+		}
+	}
 	return
 }
 
@@ -421,7 +446,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	}
 	var md _Metadata
 	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, key, &md)
+	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
-- 
2.43.0


From 16f09df835beb93d6897b7d011622e99c8fc46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 20/23] fix: redis background delete removes sessions created
 after they were found missing or dead

---
 provider/redis/provider.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 8ceedd8..07a3399 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -87,17 +87,34 @@ func (p *Provider) delete(batch int) {
 			}
 		}
 		// do delete
-		keys := make([]string, 0, len(m))
 		for key := range m {
-			keys = append(keys, key)
+			p.deleteDead(key)
 		}
-		p.opts.client.Del(p.ctx, keys...)
 		// clear task
 		for token = range m {
 			delete(m, token)
 		}
 	}
 }
+
+// deleteDead removes the session of key unless it has been created anew
+func (p *Provider) deleteDead(key string) {
+	p.opts.client.Watch(p.ctx, func(tx *redis.Tx) error {
+		val, e := tx.HGet(p.ctx, key, p.opts.metadataKey).Result()
+		if e != nil {
+			return e
+		}
+		var md _Metadata
+		if p.opts.coder.Decode([]byte(val), &md) == nil && !md.IsDeleted() {
+			return nil
+		}
+		_, e = tx.TxPipelined(p.ctx, func(pipe redis.Pipeliner) error {
+			pipe.Del(p.ctx, key)
+			return nil
+		})
+		return e
+	}, key)
+}
 func (p *Provider) tryRead() (token string, yes, closed bool) {
 	select {
 	case <-p.ctx.Done():
@@ -353,7 +370,6 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				}
 			} else {
 				e = sessionid.ErrTokenNotExists
-				p.pushDelete(key)
 				break
 			}
 		} else {
-- 
2.43.0


From 9f729a03615f606c82ea8c81e667b0f68b4385fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 21/23] fix: redis Put, Delete and Refresh act on sessions that
 another client changed or removed meanwhile

---
 provider/redis/provider.go | 126 ++++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 58 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 07a3399..eccd081 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -281,6 +281,37 @@ func (p *Provider) Check(ctx context.Context, token string) (e error) {
 	}
 	return
 }
+
+// update changes the session of key in a transaction, which is built again when
+// another client changed the session since it was read.
+func (p *Provider) update(ctx context.Context, key string,
+	fn func(md *_Metadata, mdStr string, tx redis.Pipeliner) error,
+) (e error) {
+	deleted := false
+	for {
+		e = p.opts.client.Watch(ctx, func(tx *redis.Tx) error {
+			var md _Metadata
+			mdStr, e := p.getMetadata(ctx, tx, key, &md)
+			if e != nil {
+				return e
+			} else if md.IsDeleted() {
+				deleted = true
+				return sessionid.ErrTokenNotExists
+			}
+			_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+				return fn(&md, mdStr, pipe)
+			})
+			return e
+		}, key)
+		if e != redis.TxFailedErr {
+			break
+		}
+	}
+	if deleted {
+		p.pushDelete(key)
+	}
+	return p.toError(e)
+}
 func (p *Provider) pushDelete(token string) {
 	select {
 	case <-p.ctx.Done():
@@ -304,30 +335,15 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		fields = append(fields, field.Key, string(field.Value))
 	}
 
-	var md _Metadata
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, p.opts.client, key, &md)
-	if e != nil {
-		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
-		return
-	} else if md.IsExpired() {
-		e = sessionid.ErrTokenExpired
-		return
-	}
-	fields = append(fields, p.opts.metadataKey, mdStr)
-
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, fields)
-	tx.PExpire(ctx, key, timeToLive(&md))
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
+	e = p.update(ctx, key, func(md *_Metadata, mdStr string, tx redis.Pipeliner) error {
+		if md.IsExpired() {
+			return sessionid.ErrTokenExpired
+		}
+		tx.HSet(ctx, key, append(fields, p.opts.metadataKey, mdStr))
+		tx.PExpire(ctx, key, timeToLive(md))
+		return nil
+	})
 	return
 }
 
@@ -427,14 +443,22 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 	if e != nil {
 		return
 	}
-	if len(keys) == 0 {
-		return
-	}
-	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
-	if e != nil {
-		e = p.toError(e)
-		return
+	for _, key := range keys {
+		e = p.checkKey(key)
+		if e != nil {
+			return
+		}
 	}
+	key := p.keyName(token)
+	e = p.update(ctx, key, func(md *_Metadata, mdStr string, tx redis.Pipeliner) error {
+		if md.IsExpired() {
+			return sessionid.ErrTokenExpired
+		}
+		if len(keys) != 0 {
+			tx.HDel(ctx, key, keys...)
+		}
+		return nil
+	})
 	return
 }
 func (p *Provider) checkID(token ...string) (e error) {
@@ -460,36 +484,22 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	}
-	var md _Metadata
 	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, p.opts.client, key, &md)
-	if e != nil {
-		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
-		return
-	} else if md.Refresh != refresh {
-		e = sessionid.ErrRefreshTokenNotMatched
-		return
-	}
-	md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
-	b, e := p.opts.coder.Encode(&md)
-	if e != nil {
-		return
-	}
-
 	newkey := p.keyName(newAccess)
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.PExpire(ctx, key, timeToLive(&md))
-	tx.Rename(ctx, key, newkey)
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
-		return
-	}
+	e = p.update(ctx, key, func(md *_Metadata, mdStr string, tx redis.Pipeliner) error {
+		if md.Refresh != refresh {
+			return sessionid.ErrRefreshTokenNotMatched
+		}
+		md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
+		b, e := p.opts.coder.Encode(md)
+		if e != nil {
+			return e
+		}
+		tx.HSet(ctx, key, p.opts.metadataKey, string(b))
+		tx.PExpire(ctx, key, timeToLive(md))
+		tx.Rename(ctx, key, newkey)
+		return nil
+	})
 	return
 }
 
-- 
2.43.0


From 14b50f65320e521af3424a06511bdc335903d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 22/23] fix: redis Refresh ends a session with an internal
 error when its client is held up for longer than its new lifetime

---
 provider/redis/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index eccd081..4042bd3 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -496,8 +496,8 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			return e
 		}
 		tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-		tx.PExpire(ctx, key, timeToLive(md))
 		tx.Rename(ctx, key, newkey)
+		tx.PExpire(ctx, newkey, timeToLive(md)) // last, it removes a key that has no time left
 		return nil
 	})
 	return
-- 
2.43.0


From 032e8e9a257d8df7819a705c4916470a9c6f25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:22 +0000
Subject: [PATCH 23/23] fix: redis provider loses sessions whose refresh
 lifetime is the longest duration

---
 provider/redis/metadata.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/provider/redis/metadata.go b/provider/redis/metadata.go
index 6dc42e5..319dd81 100644
--- a/provider/redis/metadata.go
+++ b/provider/redis/metadata.go
@@ -41,5 +41,8 @@ func timeToLive(md *_Metadata) time.Duration {
 	if d <= 0 {
 		return 0
 	}
-	return (d + time.Millisecond - 1).Truncate(time.Millisecond)
+	if up := d + time.Millisecond - 1; up > d { // not beyond the longest duration
+		d = up.Truncate(time.Millisecond)
+	}
+	return d
 }
-- 
2.43.0

