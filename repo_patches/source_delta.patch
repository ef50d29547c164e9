From a49a4a08e29a9b1b7e8c678a40e4e083ad601c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 01/41] fix: lst_truncate to a length above 1 ran off the end
 of the list

---
 maa/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/list.c b/maa/list.c
index e9d7c14..48cd7c6 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -290,7 +290,7 @@ void lst_truncate(lst_List list, unsigned int length)
 		l->head = l->tail = NULL;
 	} else {
 		/* Find new end of list */
-		for (i = 1, d = l->head; i < length && d; d = d->next);
+		for (i = 1, d = l->head; i < length && d; i++, d = d->next);
    
 		/* Remember start of remainder of list */   
 		next = d->next;		
-- 
2.43.0


From 5ebfeea13415321122bbff94e36bbf84aab4dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 02/41] fix: bit_tst returned 0 for set bits above bit 31

---
 maa/bit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/bit.c b/maa/bit.c
index 20dc204..d1b7299 100644
--- a/maa/bit.c
+++ b/maa/bit.c
@@ -50,7 +50,7 @@ void bit_clr(unsigned long *flags, int bit)
 
 int bit_tst(unsigned long *flags, int bit)
 {
-	return (*flags & (1UL << bit));
+	return (*flags & (1UL << bit)) != 0;
 }
 
 /* \doc Return a count of the number of bits set in |flags|. */
-- 
2.43.0


From c6003794cb6d31fd2a3b8817c9146cf794141943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 03/41] fix: base-64 decoding of values above 2^31
 sign-extended the top digit

---
 maa/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base64.c b/maa/base64.c
index b864949..2ab9007 100644
--- a/maa/base64.c
+++ b/maa/base64.c
@@ -109,7 +109,7 @@ unsigned long b64_decode_buf(const char *val, size_t len)
 			err_internal(__func__,
 						 "Illegal character in base64 value: `%c'", val[i]);
 
-		v |= tmp << offset;
+		v |= (unsigned long)tmp << offset;
 		offset += 6;
 	}
 
-- 
2.43.0


From c85553174dfedab04d67758ab307fe5788d834dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 04/41] fix: base-26 decoding overflowed for values above 2^31

---
 maa/base26.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/base26.c b/maa/base26.c
index 9e94027..4eb03b4 100644
--- a/maa/base26.c
+++ b/maa/base26.c
@@ -82,7 +82,7 @@ unsigned long b26_decode(const char *val)
 {
 	unsigned long v = 0;
 	int           i;
-	int           offset = 1;
+	unsigned long offset = 1;
 	int           len = strlen(val);
 
 	for (i = len - 1; i >= 0; i--) {
-- 
2.43.0


From 19eeebb044339f6f2f9271a79fc4221a88f67bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 05/41] fix: prm_is_prime overflowed for values above 65521^2

---
 maa/prime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/prime.c b/maa/prime.c
index abe82fa..a7138d6 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -43,7 +43,7 @@
 int prm_is_prime(unsigned int value)
 {
 	unsigned int divisor = 3;
-	unsigned int square  = divisor * divisor;
+	unsigned long long square = (unsigned long long)divisor * divisor;
 
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
@@ -51,7 +51,7 @@ int prm_is_prime(unsigned int value)
 
 	while (square < value && value % divisor) {
 		++divisor;
-		square += 4 * divisor;
+		square += 4ULL * divisor;
 		++divisor;
 	}
 
-- 
2.43.0


From 8601e44d2b3c9c50307a137fb3461ec9aa2c6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 06/41] fix: prm_is_prime and prm_next_prime took 1 for a prime

---
 maa/prime.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maa/prime.c b/maa/prime.c
index a7138d6..c579a5d 100644
--- a/maa/prime.c
+++ b/maa/prime.c
@@ -45,6 +45,7 @@ int prm_is_prime(unsigned int value)
 	unsigned int divisor = 3;
 	unsigned long long square = (unsigned long long)divisor * divisor;
 
+	if (value < 2)    return 0;
 	if (value == 2)   return 1;
 	if (value == 3)   return 1;
 	if (!(value & 1)) return 0;	/* even */
-- 
2.43.0


From 03814d580a42be73ef110da2c3421441b82576d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 07/41] fix: mem_strncpy read past the counted bytes and did
 not terminate the copy

---
 maa/memory.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maa/memory.c b/maa/memory.c
index de2e2da..b9289bc 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -151,7 +151,8 @@ const char *mem_strncpy(mem_String info,
 	i->growing_size = 0;
 
 	str = xmalloc(len + 1);
-	memcpy(str, string, len + 1);
+	memcpy(str, string, len);
+	str[len] = '\0';
 	stk_push(i->allocated, str);
 
 	return str;
-- 
2.43.0


From b37bb1f966a67505421dbdf567a7f502627948e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 08/41] fix: flags of the third group were looked up in the
 fourth group

---
 maa/debug.c | 4 ++--
 maa/flags.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index bff990b..bb06230 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -38,10 +38,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                         \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30)&1)                              \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : ((((flags)>>30)&1)                              \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
diff --git a/maa/flags.c b/maa/flags.c
index 3a4ab84..4669c89 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -37,10 +37,10 @@
 #include "maaP.h"
 
 #define TEST(flags,var) (((flags)>>31)                                     \
-			 ? (((flags)>>30)                                  \
+			 ? ((((flags)>>30)&1)                              \
 			    ? ((var[3] & (flags)) << 2)                    \
 			    : ((var[2] & (flags)) << 2))                   \
-			 : (((flags)>>30)                                  \
+			 : ((((flags)>>30)&1)                              \
 			    ? ((var[1] & (flags)) << 2)                    \
 			    : ((var[0] & (flags)) << 2)))
 
-- 
2.43.0


From b1f6fccba1a9abeb9dcab1da707753d2ab4d5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 09/41] fix: registering a flag twice was never detected

---
 maa/debug.c | 1 +
 maa/flags.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/debug.c b/maa/debug.c
index bb06230..01865c7 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -101,6 +101,7 @@ void _dbg_register(dbg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[flag >> 30] |= flag;
 }
 
 /* \doc |dbg_register| is used to set up an asociated between a |flag| and
diff --git a/maa/flags.c b/maa/flags.c
index 4669c89..dc0acea 100644
--- a/maa/flags.c
+++ b/maa/flags.c
@@ -101,6 +101,7 @@ void flg_register(flg_Type flag, const char *name)
 				  name);
 
 	hsh_insert(hash, name, (void *)flag);
+	usedFlags[flag >> 30] |= flag;
 }
 
 /* \doc |flg_set| sets the |name| flag.  If |name| is ``none,'' then all
-- 
2.43.0


From 5d3679f4c108d51c6dbf82139d86d210fa3cde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 10/41] fix: dbg_set accepted any prefix character and unknown
 names after + and -

---
 maa/debug.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/maa/debug.c b/maa/debug.c
index 01865c7..6883dcb 100644
--- a/maa/debug.c
+++ b/maa/debug.c
@@ -142,9 +142,8 @@ void dbg_set(const char *name)
 	}
    
 	if (!(flag = (dbg_Type)hsh_retrieve(hash, name))) {
-		if (!(flag = (dbg_Type)hsh_retrieve(hash, name+1))
-			&& *name != '-'
-			&& *name != '+') {
+		if ((*name != '-' && *name != '+')
+			|| !(flag = (dbg_Type)hsh_retrieve(hash, name+1))) {
 	 
 			fprintf(stderr, "Valid debugging flags are:\n");
 			dbg_list(stderr);
-- 
2.43.0


From 9bf9019db3c86fd464131379917914e2ffc44d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 11/41] fix: timers lost everything below a second

---
 maa/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/timer.c b/maa/timer.c
index 23ec520..3175154 100644
--- a/maa/timer.c
+++ b/maa/timer.c
@@ -82,7 +82,7 @@ void tim_stop(const char *name)
 
 #define DIFFTIME(now,then)							\
 	(((now).tv_sec - (then).tv_sec)					\
-	 + ((now).tv_usec - (then).tv_usec)/1000000)
+	 + ((now).tv_usec - (then).tv_usec)/1000000.0)
 
 	_tim_check();
 	gettimeofday(&real, NULL);
-- 
2.43.0


From b6c400eb68837bae25b701279a1e8f1ccd2515d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 12/41] fix: stk_push wrote through NULL when out of memory

---
 maa/stack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maa/stack.c b/maa/stack.c
index 14c03a3..8cfa79c 100644
--- a/maa/stack.c
+++ b/maa/stack.c
@@ -71,7 +71,7 @@ void stk_destroy(stk_Stack stack)
 void stk_push(stk_Stack stack, void *datum)
 {
 	stackType s = (stackType)stack;
-	dataType  d = (dataType)malloc(sizeof(struct data));
+	dataType  d = (dataType)xmalloc(sizeof(struct data));
 
 	d->datum = datum;
 	d->prev  = s->data;
@@ -92,7 +92,7 @@ void *stk_pop(stk_Stack stack)
 		datum = __UNCONST(old->datum); /* Discard const */
 		s->data = s->data->prev;
 
-		free(old);
+		xfree(old);
 	}
 
 	return datum;
-- 
2.43.0


From 0b254667e476ec64481f443fc6d9ee4c8a6c43b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 13/41] fix: stopping str_pool_iterate early left the pool
 readonly

---
 maa/string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maa/string.c b/maa/string.c
index 97cfe97..47a028d 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -120,8 +120,10 @@ int str_pool_iterate(
 	/*   printf ("inside str_pool_iterate\n"); */
 
 	HSH_ITERATE_KEYS (hash, hash_pos, key){
-		if ((*iterator) ((const char *) key))
+		if ((*iterator) ((const char *) key)){
+			HSH_ITERATE_END (hash);
 			return 1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From 30e0f81e52fb09a63024de14ed5c846f095069c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 14/41] fix: str_exists, str_copyn and str_unique crashed
 before the global pool existed

---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index 47a028d..f469dd7 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -289,6 +289,7 @@ static void _str_check_global( void )
 
 int str_exists( const char *s )
 {
+	_str_check_global();
 	return str_pool_exists( global, s );
 }
 
@@ -337,6 +338,7 @@ const char *str_copy( const char *s )
 
 const char *str_copyn( const char *s, int length )
 {
+	_str_check_global();
 	return str_pool_copyn( global, s, length );
 }
 
-- 
2.43.0


From 56faa284db3992862a2d37f8df47aee6bf2ffd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 15/41] fix: str_pool_finish returned a second copy of a string
 already in the pool

---
 maa/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/string.c b/maa/string.c
index f469dd7..c2607aa 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -223,9 +223,11 @@ const char *str_pool_finish( str_Pool pool )
 {
 	poolInfo   p      = (poolInfo)pool;
 	const char *datum;
+	const char *found;
 
 	mem_grow( p->string, "\0", 1 ); /* guarantee null termination */
 	datum = mem_finish( p->string );
+	if ((found = hsh_retrieve( p->hash, datum ))) return found;
 	hsh_insert( p->hash, datum, datum );
 
 	return datum;
-- 
2.43.0


From d8ef3b101d31328a2f86499be4a33901740225e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 16/41] fix: a stopped STR_ITERATE loop could not be ended
 (STR_ITERATE_END did not link, str_pool_readonly always aborted)

---
 maa/export.sym |  1 +
 maa/maa.h      |  4 ++--
 maa/string.c   | 10 ++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/maa/export.sym b/maa/export.sym
index 0bfbb45..9bcce3b 100644
--- a/maa/export.sym
+++ b/maa/export.sym
@@ -115,6 +115,7 @@ str_pool_grow
 str_pool_finish
 str_pool_get_stats
 str_pool_print_stats
+str_pool_readonly
 str_pool_init_position
 str_pool_next_position
 str_pool_get_position
diff --git a/maa/maa.h b/maa/maa.h
index c4c4154..d2fe728 100644
--- a/maa/maa.h
+++ b/maa/maa.h
@@ -389,7 +389,7 @@ extern str_Position  str_pool_next_position(
 extern void str_pool_get_position(
 	str_Position position,
 	char const *const *key);
-#define str_pool_readonly(pool, flag) hsh_readonly ((pool), (flag))
+extern int str_pool_readonly(str_Pool pool, int flag);
 
 extern int        str_pool_iterate(
 	str_Pool pool,
@@ -413,7 +413,7 @@ extern int        str_pool_iterate_arg(
 /* If the STR_ITERATE loop is exited before all elements in the table are
    seen, then STR_ITERATE_END should be called.  Calling this function
    after complete loops does no harm. */
-#define STR_ITERATE_END(T) str_readonly(T,0)
+#define STR_ITERATE_END(T) str_pool_readonly(T,0)
 
 extern int        str_exists(const char *s);
 extern const char *str_find(const char *s);
diff --git a/maa/string.c b/maa/string.c
index c2607aa..43a6ac9 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -176,6 +176,16 @@ void str_pool_get_position (str_Position position, char const * const*key)
 	hsh_get_position (position, (void **) __UNCONST(key));
 }
 
+/* \doc |str_pool_readonly| sets the readonly flag of the |pool| to |flag|,
+   and returns the value of the previous flag. */
+
+int str_pool_readonly (str_Pool pool, int flag)
+{
+	poolInfo p = (poolInfo) pool;
+
+	return hsh_readonly (p -> hash, flag);
+}
+
 /* \doc |str_pool_copy| returns a copy of the string, |s|, using memory
    from the string pool object, |pool|.  This can be used for data that is
    known to be unique.  No checks are made for uniqueness, however; and a
-- 
2.43.0


From dbf9dc1d3017b1b99dec64e4710353f66c121e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 17/41] fix: hash, set, list and object functions used a handle
 before checking it

---
 maa/hash.c   |  9 ++++++---
 maa/list.c   | 10 ++++++----
 maa/memory.c |  4 +++-
 maa/set.c    |  9 ++++++---
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/maa/hash.c b/maa/hash.c
index 72ff75f..5f6474e 100644
--- a/maa/hash.c
+++ b/maa/hash.c
@@ -219,10 +219,11 @@ int hsh_insert(
 	const void *datum)
 {
 	tableType     t         = (tableType)table;
-	unsigned long hashValue = t->hash(key);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_hsh_check(t, __func__);
+	hashValue = t->hash(key);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly table");
    
@@ -268,9 +269,10 @@ int hsh_insert(
 int hsh_delete(hsh_HashTable table, const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly table");
 
@@ -301,9 +303,10 @@ const void *hsh_retrieve(hsh_HashTable table,
 						 const void *key)
 {
 	tableType     t = (tableType)table;
-	unsigned long h = t->hash(key) % t->prime;
+	unsigned long h;
 
 	_hsh_check(t, __func__);
+	h = t->hash(key) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
diff --git a/maa/list.c b/maa/list.c
index 48cd7c6..0eab16c 100644
--- a/maa/list.c
+++ b/maa/list.c
@@ -128,10 +128,10 @@ void lst_append(lst_List list, const void *datum)
 		return;
 
 	l = (listType)list;
-	d = mem_get_object(mem);
+	_lst_check(l, __func__);
 
+	d = mem_get_object(mem);
 	_lst_allocated += sizeof(struct data);
-	_lst_check(l, __func__);
    
 	d->datum = datum;
 	d->next  = NULL;
@@ -149,10 +149,12 @@ void lst_append(lst_List list, const void *datum)
 void lst_push(lst_List list, const void *datum)
 {
 	listType l = (listType)list;
-	dataType d = mem_get_object(mem);
+	dataType d;
 
-	_lst_allocated += sizeof(struct data);
 	_lst_check(l, __func__);
+
+	d = mem_get_object(mem);
+	_lst_allocated += sizeof(struct data);
    
 	d->datum = datum;
 	d->next  = l->head;
diff --git a/maa/memory.c b/maa/memory.c
index b9289bc..5015922 100644
--- a/maa/memory.c
+++ b/maa/memory.c
@@ -304,10 +304,12 @@ void mem_destroy_objects(mem_Object info)
 void *mem_get_object(mem_Object info)
 {
 	objectInfo  i   = (objectInfo)info;
-	void       *obj = stk_pop(i->stack);
+	void       *obj;
 
 	_mem_magic_objects(i, __func__);
 
+	obj = stk_pop(i->stack);
+
 	if (!obj) {
 		obj = xmalloc(i->size);
 		stk_push(i->allocated, obj);
diff --git a/maa/set.c b/maa/set.c
index c338d15..0635439 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -226,10 +226,11 @@ static void _set_insert(set_Set set, unsigned long hash, const void *elem)
 int set_insert(set_Set set, const void *elem)
 {
 	setType       t         = (setType)set;
-	unsigned long hashValue = t->hash(elem);
+	unsigned long hashValue;
 	unsigned long h;
 
 	_set_check(t, __func__);
+	hashValue = t->hash(elem);
 	if (t->readonly)
 		err_internal(__func__, "Attempt to insert into readonly set");
    
@@ -274,9 +275,10 @@ int set_insert(set_Set set, const void *elem)
 int set_delete(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
 	if (t->readonly)
 		err_internal(__func__, "Attempt to delete from readonly set");
    
@@ -305,9 +307,10 @@ int set_delete(set_Set set, const void *elem)
 int set_member(set_Set set, const void *elem)
 {
 	setType       t = (setType)set;
-	unsigned long h = t->hash(elem) % t->prime;
+	unsigned long h;
 
 	_set_check(t, __func__);
+	h = t->hash(elem) % t->prime;
    
 	++t->retrievals;
 	if (t->buckets[h]) {
-- 
2.43.0


From 7426dc00ebb9b522a738609da280d8646cecf254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 18/41] fix: set_add and set_del of a set with itself used
 freed memory

---
 maa/set.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/maa/set.c b/maa/set.c
index 0635439..8b26364 100644
--- a/maa/set.c
+++ b/maa/set.c
@@ -502,6 +502,8 @@ set_Set set_add(set_Set set1, set_Set set2)
 		err_fatal(__func__,
 				  "Sets do not have identical comparison functions");
 
+	if (t1 == t2) return set1;	/* an insertion may replace t2->buckets */
+
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
@@ -540,9 +542,12 @@ set_Set set_del(set_Set set1, set_Set set2)
 	for (i = 0; i < t2->prime; i++) {
 		if (t2->buckets[i]) {
 			bucketType pt;
+			bucketType next;	/* Save, because set1 may be set2. */
 	 
-			for (pt = t2->buckets[i]; pt; pt = pt->next)
+			for (pt = t2->buckets[i]; pt; pt = next) {
+				next = pt->next;
 				set_delete(set1, pt->elem);
+			}
 		}
 	}
 
-- 
2.43.0


From 42cc22393c1a07868981fb2d2d90f027c9f01450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 19/41] fix: a short write to the log file lost the rest of the
 message

---
 maa/log.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 563d987..3ba79b5 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -335,8 +335,18 @@ static void _log_base_va(
 
 		/* writing */
 		if (logFd >= 0) {
+			const char *pt  = buf;
+			size_t     left = strlen (buf);
+			ssize_t    n;
+
 			_log_check_filename();
-			while (-1 == write (logFd, buf, strlen (buf)) && errno == EINTR);
+			while (left) {
+				n = write (logFd, pt, left);
+				if (n > 0) {
+					pt   += n;
+					left -= n;
+				} else if (!n || errno != EINTR) break;
+			}
 		}
 		if (logUserStream) {
 			fseek(logUserStream, 0L, SEEK_END); /* might help if luser didn't
-- 
2.43.0


From eece6e705a68edede62564a57e28262a5df0ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 20/41] fix: the source manager kept line and position counts
 after src_destroy

---
 maa/source.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/maa/source.c b/maa/source.c
index 8bf4015..639305d 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -79,6 +79,8 @@ void src_destroy(void)
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
+	Count = Used = 0;
+	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From c1fcaf701c839c19ccc1665043fcfde6dcb01af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 21/41] fix: long or unterminated symbols in a parser message
 overran the buffer or the message

---
 maa/source.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index 639305d..783bfc0 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -312,7 +312,7 @@ void src_print_stats(FILE *stream)
 static void _src_print_yyerror(FILE *str, const char *message)
 {
 	const char *pt;
-	char       buf[1024];
+	char       *buf;
 	char       *b;
 	const char *concrete;
 
@@ -323,6 +323,8 @@ static void _src_print_yyerror(FILE *str, const char *message)
 		return;
 	}
 
+	buf = alloca(strlen(message) + 1);
+
 	for (pt = message; *pt; pt++) {
 		if (*pt == '`') {		/* clean up character constants */
 			if (pt[1] == '`' && pt[2] && pt[3] == '\'' && pt[4] == '\'') {
@@ -335,6 +337,7 @@ static void _src_print_yyerror(FILE *str, const char *message)
 					fprintf(str, "`%s'", concrete);
 				else
 					fprintf(str, "`%s'", buf);
+				if (!*pt) break;	/* missing closing quote */
 			} else
 				putc(*pt, str);
 		} else
-- 
2.43.0


From 184de0afe57a73e717006229edd7e034082a2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 22/41] fix: src_print_error crashed on a NULL stream instead
 of using stdout

---
 maa/source.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 783bfc0..8f443e1 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -408,10 +408,11 @@ void src_parse_error(FILE *stream, src_Type source, const char *message)
    by the line of source code specified by |source|.  If |stream| is
    "NULL", then "stdout" will be used. */
 
-void src_print_error(FILE *str, src_Type source, const char *format, ...)
+void src_print_error(FILE *stream, src_Type source, const char *format, ...)
 {
 	va_list    ap;
-	sourceType *s = (sourceType *)source;
+	sourceType *s   = (sourceType *)source;
+	FILE       *str = stream ? stream : stdout;
 
 	fflush(str);
 	if (format) {
-- 
2.43.0


From 1cc989348c47e0dcb3ebe82181151204c522de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 23/41] fix: the concrete symbol table survived shutdown with
 dangling strings

---
 maa/maa.c            | 1 +
 maa/parse-concrete.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/maa/maa.c b/maa/maa.c
index 3206cd8..43d9df8 100644
--- a/maa/maa.c
+++ b/maa/maa.c
@@ -56,6 +56,7 @@ void maa_shutdown(void)
 	}
 
 	_pr_shutdown();
+	_prs_shutdown();
 	str_destroy();
 	_lst_shutdown();
 	_sl_shutdown();
diff --git a/maa/parse-concrete.c b/maa/parse-concrete.c
index f591732..5e21075 100644
--- a/maa/parse-concrete.c
+++ b/maa/parse-concrete.c
@@ -43,4 +43,5 @@ const char *prs_concrete(const char *symbol)
 void _prs_shutdown(void)
 {
 	if (_prs_hash) hsh_destroy(_prs_hash);
+	_prs_hash = NULL;
 }
-- 
2.43.0


From 4114a66bd178b41817b026f35b7641616b4afdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 24/41] fix: _pr_shutdown killed process ids it had already
 reaped

---
 maa/pr.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index e56e061..2403da0 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -98,8 +98,11 @@ void _pr_shutdown(void)
 		for (i = 0; i < max_fd(); i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
-				kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
-				pr_wait(_pr_objects[i].pid);
+				/* The child may have been reaped already. */
+				if (!waitpid(_pr_objects[i].pid, NULL, WNOHANG)) {
+					kill(_pr_objects[i].pid, SIGKILL); /* FIXME! be gentler. */
+					pr_wait(_pr_objects[i].pid);
+				}
 				_pr_objects[i].pid = 0;
 			}
 		}
-- 
2.43.0


From 96011896cd0b1c0a51662a3b4632927312fb1122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 25/41] fix: pr_readwrite never closed the input of the filter
 when it was empty

---
 maa/pr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/maa/pr.c b/maa/pr.c
index 2403da0..9df6847 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -319,6 +319,11 @@ int pr_readwrite(int in, int out,
 
 	n = max(in, out) + 1;
 
+	if (!inLen) {
+		pr_close_nowait(in);
+		n = out + 1;
+	}
+
 	for (;;) {
 		tv.tv_sec  = 5;
 		tv.tv_usec = 0;
-- 
2.43.0


From 324b00011cca84d90d1bcebc803ec6ce81a1f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 26/41] fix: pr_readwrite cut output larger than the buffer
 silently

---
 maa/pr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index 9df6847..02f3b27 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -291,6 +291,7 @@ int pr_readwrite(int in, int out,
 	long           flags;
 	const char     *inPt  = inBuffer;
 	char           *outPt = outBuffer;
+	char           extra;
 	int            outLen = 0;
 	fd_set         rfds, wfds, efds;
 	struct timeval tv;
@@ -367,7 +368,10 @@ int pr_readwrite(int in, int out,
 						}
 					}
 				}
-				if ((count = read(out, outPt, outMaxLen)) <= 0) {
+				/* With a full buffer, tell the end from an overflow. */
+				count = outMaxLen ? read(out, outPt, outMaxLen)
+					: read(out, &extra, 1);
+				if (count <= 0) {
 					if (!count) {
 						if (inLen)
 							err_fatal(__func__,
-- 
2.43.0


From aa27c52e8bc331cc611e7e0abdfb170c520fd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 27/41] fix: an interrupted system call made pr_readwrite fail

---
 maa/pr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index 02f3b27..b0276c8 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -340,7 +340,10 @@ int pr_readwrite(int in, int out,
    
 		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
 		{
-			case -1: err_fatal_errno(__func__, "Filter failed"); break;
+			case -1:
+				if (errno != EINTR)
+					err_fatal_errno(__func__, "Filter failed");
+				break;
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
@@ -356,7 +359,7 @@ int pr_readwrite(int in, int out,
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
-						if (errno != EAGAIN)
+						if (errno != EAGAIN && errno != EINTR)
 							err_fatal_errno(__func__, "Error writing to filter");
 					} else {
 						PRINTF(MAA_PR,("  wrote %d\n",count));
@@ -381,7 +384,7 @@ int pr_readwrite(int in, int out,
 										"Filter had non-zero exit status: 0x%x",
 										status);
 						return outLen;
-					} else if (errno != EAGAIN)
+					} else if (errno != EAGAIN && errno != EINTR)
 						err_fatal_errno(__func__, "Error reading from filter");
 				} else {
 					PRINTF(MAA_PR,("  read %d\n",count));
-- 
2.43.0


From 64499818fd57d5953812c0d00c987e162f360a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 28/41] fix: opening a log stream changed the ident of the open
 log file and vice versa

---
 maa/log.c | 64 +++++++++++++++++++++++++++++++++----------------------
 1 file changed, 38 insertions(+), 26 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index 3ba79b5..33049c6 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -46,6 +46,7 @@ static int        logOpen;
 static int        logFacility = LOG_USER;
 
 static const char *logIdent;
+static const char *logStreamIdent;
 static const char *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
@@ -263,8 +264,8 @@ void log_stream(const char *ident, FILE *stream)
 		if (logUserStream)
 			err_internal(__func__, "User stream already open");
 
-		logUserStream = stream;
-		logIdent      = str_find(ident);
+		logUserStream  = stream;
+		logStreamIdent = str_find(ident);
 
 		_log_set_hostname();
 		++logOpen;
@@ -291,6 +292,34 @@ void log_close(void)
 	log_syslog (NULL);
 }
 
+/* Compose the line with the |ident| of its destination. */
+static void _log_format(
+	char *buf, size_t size,
+	const char *ident, time_t t,
+	const char *routine, const char *message)
+{
+	static char   buf_preamble [256 + MAXHOSTNAMELEN] = "";
+
+	if (inhibitFull) {
+		buf_preamble [0] = 0;
+	} else {
+		snprintf (buf_preamble, sizeof (buf_preamble),
+				  "%24.24s %.64s %s[%ld]: ",
+				  ctime(&t),
+				  logHostname,
+				  ident,
+				  (long int) getpid());
+	}
+
+	if (routine){
+		snprintf (buf, size, "%s(%s) %s\n",
+				  buf_preamble, routine, message);
+	}else{
+		snprintf (buf, size, "%s%s\n",
+				  buf_preamble, message);
+	}
+}
+
 static void _log_base_va(
 	const char *routine,
 	int log_facility,
@@ -300,7 +329,6 @@ static void _log_base_va(
 	time_t t;
 	static char   buf [8192] = "";
 	static char   buf_main [4096] = "";
-	static char   buf_preamble [256 + MAXHOSTNAMELEN] = "";
 
 	va_copy (ap_copy, ap);
 
@@ -309,37 +337,18 @@ static void _log_base_va(
 	time(&t);
 
 	if (logFd >= 0 || logUserStream) {
-		/* preamble */
-		if (inhibitFull) {
-			buf_preamble [0] = 0;
-		} else {
-			snprintf (buf_preamble, sizeof (buf_preamble),
-					  "%24.24s %.64s %s[%ld]: ",
-					  ctime(&t),
-					  logHostname,
-					  logIdent,
-					  (long int) getpid());
-		}
-
 		/* main part of log message */
 		vsnprintf (buf_main, sizeof (buf_main), format, ap);
 
-		/* full log message */
-		if (routine){
-			snprintf (buf, sizeof (buf), "%s(%s) %s\n",
-					  buf_preamble, routine, buf_main);
-		}else{
-			snprintf (buf, sizeof (buf), "%s%s\n",
-					  buf_preamble, buf_main);
-		}
-
 		/* writing */
 		if (logFd >= 0) {
 			const char *pt  = buf;
-			size_t     left = strlen (buf);
+			size_t     left;
 			ssize_t    n;
 
 			_log_check_filename();
+			_log_format (buf, sizeof (buf), logIdent, t, routine, buf_main);
+			left = strlen (buf);
 			while (left) {
 				n = write (logFd, pt, left);
 				if (n > 0) {
@@ -353,8 +362,11 @@ static void _log_base_va(
 													 open stream with "a" */
 			if (logUserStream == stdout || logUserStream == stderr)
 				fprintf(logUserStream, "%s", buf_main);
-			else
+			else {
+				_log_format (buf, sizeof (buf), logStreamIdent, t,
+							 routine, buf_main);
 				fprintf(logUserStream, "%s", buf);
+			}
 
 			fflush(logUserStream);
 		}
-- 
2.43.0


From c168d6be083cc8b9eab35c4148b0560f0848f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 29/41] fix: err_fatal_errno printed a null routine as (null)

---
 maa/error.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/maa/error.c b/maa/error.c
index de30f4d..e5cb85d 100644
--- a/maa/error.c
+++ b/maa/error.c
@@ -126,8 +126,13 @@ void err_fatal_errno(const char *routine, const char *format, ...)
 
 	va_end(ap);
 
-	fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
-	log_error(routine, "%s: %s", routine, strerror(errorno));
+	if (routine) {
+		fprintf(stderr, " %s: %s\n", routine, strerror(errorno));
+		log_error(routine, "%s: %s", routine, strerror(errorno));
+	} else {
+		fprintf(stderr, " %s\n", strerror(errorno));
+		log_error(routine, "%s", strerror(errorno));
+	}
    
 	fflush(stderr);
 	fflush(stdout);
-- 
2.43.0


From 0dcf33873320e99ae234a9cf8aa6ac29212e8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 30/41] fix: src_destroy forgets the current file even before
 the first line

After src_new_file without any src_line, src_destroy kept the current
file, so that tokens taken later reported a stale (after maa_shutdown:
dangling) file name.
---
 maa/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/source.c b/maa/source.c
index 8f443e1..454de04 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -74,13 +74,13 @@ void src_create(void)
 
 void src_destroy(void)
 {
+	memset(&Info, 0, sizeof(Info));
 	if (!Lines) return;
 	mem_destroy_objects(InfoHeap);
 	mem_destroy_strings(StringHeap);
 	xfree(Lines);		/* terminal */
 	Lines = StringHeap = InfoHeap = NULL;
 	Count = Used = 0;
-	memset(&Info, 0, sizeof(Info));
 }
 
 /* \doc |src_line| stores a |line| of length |len|. */
-- 
2.43.0


From fd98873a4c8a9d083cbaf36a6783d2a1b92b330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 31/41] fix: pr_readwrite overran its descriptor sets for
 descriptors above FD_SETSIZE

---
 maa/pr.c | 48 +++++++++++++++++-------------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index b0276c8..5716c3d 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -35,6 +35,7 @@
 #include <errno.h>
 #include <signal.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/param.h>
 #include <sys/wait.h>
 
@@ -293,9 +294,7 @@ int pr_readwrite(int in, int out,
 	char           *outPt = outBuffer;
 	char           extra;
 	int            outLen = 0;
-	fd_set         rfds, wfds, efds;
-	struct timeval tv;
-	int            n;
+	struct pollfd  fds[2];
 	int            count;
 	int            retval;
 	int            status;
@@ -318,27 +317,19 @@ int pr_readwrite(int in, int out,
 #endif
 	fcntl(out, F_SETFL, flags);
 
-	n = max(in, out) + 1;
-
-	if (!inLen) {
+	if (!inLen)
 		pr_close_nowait(in);
-		n = out + 1;
-	}
 
 	for (;;) {
-		tv.tv_sec  = 5;
-		tv.tv_usec = 0;
-		FD_ZERO(&rfds);
-		FD_ZERO(&wfds);
-		FD_ZERO(&efds);
-		FD_SET(out, &rfds);
-		FD_SET(out, &efds);
-		if (inLen) {
-			FD_SET(in, &wfds);
-			FD_SET(in, &efds);
-		}
-   
-		switch ((retval = select(n, &rfds, &wfds, &efds, &tv)))
+		/* select(2) is limited to descriptors below FD_SETSIZE */
+		fds[0].fd      = out;
+		fds[0].events  = POLLIN;
+		fds[0].revents = 0;
+		fds[1].fd      = in;
+		fds[1].events  = POLLOUT;
+		fds[1].revents = 0;
+
+		switch ((retval = poll(fds, inLen ? 2 : 1, 5000)))
 		{
 			case -1:
 				if (errno != EINTR)
@@ -347,15 +338,12 @@ int pr_readwrite(int in, int out,
 				/*       case 0:  err_fatal(__func__, "Filter hung\n");         break; */
 			default:
 				if (dbg_test(MAA_PR)) {
-					printf("select(2) returns %d,"
+					printf("poll(2) returns %d,"
 						   " inLen = %d, outLen = %d, outMaxLen = %d\n",
 						   retval, inLen, outLen, outMaxLen);
-					if (FD_ISSET(in, &rfds))  printf("  in/read\n");
-					if (FD_ISSET(out, &rfds)) printf("  out/read\n");
-					if (FD_ISSET(in, &wfds))  printf("  in/write\n");
-					if (FD_ISSET(out, &wfds)) printf("  out/write\n");
-					if (FD_ISSET(in, &efds))  printf("  in/error\n");
-					if (FD_ISSET(out, &efds)) printf("  out/error\n");
+					printf("  out: 0x%x, in: 0x%x\n",
+						   (unsigned) fds[0].revents,
+						   (unsigned) fds[1].revents);
 				}
 				if (inLen) {
 					if ((count = write(in, inPt, inLen)) <= 0) {
@@ -365,10 +353,8 @@ int pr_readwrite(int in, int out,
 						PRINTF(MAA_PR,("  wrote %d\n",count));
 						inLen -= count;
 						inPt  += count;
-						if (!inLen) {
+						if (!inLen)
 							pr_close_nowait(in);
-							n = out + 1;
-						}
 					}
 				}
 				/* With a full buffer, tell the end from an overflow. */
-- 
2.43.0


From 6179fd50075e61ebdaff18d2e916741c49a3e2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 32/41] fix: iterating over a large skip list overran the stack

---
 maa/sl.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/maa/sl.c b/maa/sl.c
index fddfb56..3bb7650 100644
--- a/maa/sl.c
+++ b/maa/sl.c
@@ -399,13 +399,17 @@ int sl_iterate(sl_List list, sl_Iterator f)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *)); /* too large for the stack */
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i]))) return retcode;
+		if ((retcode = f(copy[i]))) {
+			xfree(copy);
+			return retcode;
+		}
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
@@ -436,14 +440,18 @@ int sl_iterate_arg(sl_List list, sl_IteratorArg f, void *arg)
 	   walk.  Only memory locations for data to
 	   the left of the point may change! */
 	count = l->count;
-	copy = alloca(count * sizeof(void *));
+	copy = xmalloc((count + 1) * sizeof(void *)); /* too large for the stack */
 	for (i = 0, pt = l->head->forward[0]; pt; i++, pt = pt->forward[0]) {
 		_sl_check_entry(pt, __func__);
 		copy[i] = pt->datum;
 	}
 	for (i = 0; i < count; i++) {
-		if ((retcode = f(copy[i], arg))) return retcode;
+		if ((retcode = f(copy[i], arg))) {
+			xfree(copy);
+			return retcode;
+		}
 	}
+	xfree(copy);
 
 	_sl_check(list);
    
-- 
2.43.0


From a551e998562fdedb800ede1c93acd32d5b053591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 33/41] fix: str_findn and str_unique of a long string overran
 the stack

---
 maa/string.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/maa/string.c b/maa/string.c
index 43a6ac9..841401b 100644
--- a/maa/string.c
+++ b/maa/string.c
@@ -323,13 +323,17 @@ const char *str_find( const char *s )
 
 const char *str_findn( const char *s, int length )
 {
-	char *tmp = alloca( sizeof( char ) * (length + 1) );
+	char       *tmp;
+	const char *retval;
 
 	_str_check_global();
+	tmp = xmalloc( length + 1 );	/* may be too large for the stack */
 	strncpy( tmp, s, length);
 	tmp [ length ] = 0;
 
-	return str_pool_find( global, tmp );
+	retval = str_pool_find( global, tmp );
+	xfree( tmp );
+	return retval;
 }
 
 /* \doc |str_copy| acts like |str_pool_copy|, except the global string pool
@@ -384,12 +388,15 @@ const char *str_finish( void )
 const char *str_unique( const char *prefix )
 {
 	static int i       = 1;
-	char       *buf    = alloca( strlen( prefix ) + 100 );
+	char       *buf    = xmalloc( strlen( prefix ) + 100 );
+	const char *retval;
 
 	do {
 		sprintf( buf, "%s%d", prefix, i++ );
 	} while (str_exists( buf ));
-	return str_find( buf );
+	retval = str_find( buf );
+	xfree( buf );
+	return retval;
 }
 
 /* \doc |str_destroy| frees all of the memory associated with the global
-- 
2.43.0


From 348daacd06e3148efe6940e5c7a7ea2c7cfad4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 34/41] fix: the facility name kern was never accepted

---
 maa/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index 33049c6..e796109 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -74,7 +74,7 @@ CODE facilitynames[] = {
 #if LOG_FTP
     { "ftp",      LOG_FTP },
 #endif
-#if LOG_KERN
+#ifdef LOG_KERN		/* 0 */
     { "kern",     LOG_KERN },
 #endif
 #if LOG_LPR
-- 
2.43.0


From 90ee9367ceadff0de2cf1804be7f89875f3c4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:11 +0000
Subject: [PATCH 35/41] fix: a log file name longer than its buffer was used
 uninitialised

---
 maa/log.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/maa/log.c b/maa/log.c
index e796109..dc57885 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -209,7 +209,16 @@ static void _log_check_filename(void)
 	time(&t);
 	tm = localtime(&t);
    
-	strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm);
+	/* Zero means that the name is empty or does not fit. */
+	while (!strftime(logFilenameTmp, logFilenameLen, logFilenameOrig, tm)) {
+		if (logFilenameLen > 65536) {
+			logFilenameTmp[0] = '\0';
+			break;
+		}
+		logFilenameLen *= 2;
+		logFilename     = xrealloc(logFilename, logFilenameLen + 1);
+		logFilenameTmp  = xrealloc(logFilenameTmp, logFilenameLen + 1);
+	}
 	if (strcmp(logFilenameTmp, logFilename)) {
 		strcpy(logFilename, logFilenameTmp);
 		if (logFd >= 0) close(logFd);
-- 
2.43.0


From 5259dba9460e34763606c5429b591a593a71fc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 36/41] fix: pr_open lost a descriptor that was given for two
 streams

---
 maa/pr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index 5716c3d..31109be 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -175,7 +175,6 @@ int pr_open2(const char *command, void(*callback)(void),
 		} else if (flags & USE) {								\
 			if (fd && *fd) {									\
 				dup2(*fd, FILENO);								\
-				close(*fd);										\
 			} else {											\
 				if ((null = open("/dev/null", flag)) >= 0) {	\
 					dup2(null, FILENO);							\
@@ -193,6 +192,14 @@ int pr_open2(const char *command, void(*callback)(void),
       
 #undef CHILD
 
+		/* Only now, since the streams may share a descriptor. */
+		if ((flags & PR_USE_STDIN) && infd && *infd > STDERR_FILENO)
+			close(*infd);
+		if ((flags & PR_USE_STDOUT) && outfd && *outfd > STDERR_FILENO)
+			close(*outfd);
+		if ((flags & PR_USE_STDERR) && errfd && *errfd > STDERR_FILENO)
+			close(*errfd);
+
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-- 
2.43.0


From 3d5f21ac0fa561ee9c1e550c8f21e899db362ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 37/41] fix: pr_close read outside of its table for an invalid
 descriptor

---
 maa/pr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maa/pr.c b/maa/pr.c
index 31109be..c07a892 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -276,7 +276,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (!(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
-- 
2.43.0


From e4459bd056667e454ccab29cfabf290746d2e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:59 +0000
Subject: [PATCH 38/41] fix: pr_open overran its table after the limit of
 descriptors changed

---
 maa/pr.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index c07a892..b4b991b 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -44,6 +44,7 @@ typedef struct _pr_Obj {
 } *_pr_Obj;
 
 static _pr_Obj _pr_objects = NULL;
+static int     _pr_count   = 0;	/* size of _pr_objects */
 
 #if 0
 static void _pr_check(pr_Object object, const char *function)
@@ -68,27 +69,34 @@ static void _pr_check(pr_Object object, const char *function)
 
 static int max_fd(void)
 {
-	static int maxFd = 0;
-
-	if (maxFd) return maxFd;
+	int maxFd;
 
 	if ((maxFd = sysconf(_SC_OPEN_MAX)) > 0) return maxFd;
 
 #ifdef NOFILE
-	return maxFd = NOFILE;	/* Usually in sys/params.h */
+	return NOFILE;	/* Usually in sys/params.h */
 #else
 # ifdef _NFILE
-	return maxFd = _NFILE;
+	return _NFILE;
 # else
-	return maxFd = 256;		/* best guess */
+	return 256; 		/* best guess */
 # endif
 #endif
 }
 
 static void _pr_init(void)
 {
-	if (!_pr_objects)
-		_pr_objects = xcalloc(max_fd(), sizeof(struct _pr_Obj));
+	int count = max_fd();
+
+	if (!_pr_objects) {
+		_pr_objects = xcalloc(count, sizeof(struct _pr_Obj));
+		_pr_count   = count;
+	} else if (count > _pr_count) { /* the limit was raised */
+		_pr_objects = xrealloc(_pr_objects, count * sizeof(struct _pr_Obj));
+		memset(_pr_objects + _pr_count, 0,
+			   (count - _pr_count) * sizeof(struct _pr_Obj));
+		_pr_count   = count;
+	}
 }
 
 void _pr_shutdown(void)
@@ -96,7 +104,7 @@ void _pr_shutdown(void)
 	int i;
 
 	if (_pr_objects) {
-		for (i = 0; i < max_fd(); i++) {
+		for (i = 0; i < _pr_count; i++) {
 			/* FIXME: blah */;
 			if (_pr_objects[i].pid) {
 				/* The child may have been reaped already. */
@@ -203,7 +211,7 @@ int pr_open2(const char *command, void(*callback)(void),
 		if (flags & PR_STDERR_TO_STDOUT)
 			dup2(STDOUT_FILENO, STDERR_FILENO);
       
-		for (i = 0; i < max_fd(); i++)
+		for (i = 0; i < _pr_count; i++)
 			if (_pr_objects[i].pid > 0) close(i);
 
 		execvp(argv[0], argv);
@@ -219,7 +227,7 @@ int pr_open2(const char *command, void(*callback)(void),
 	} else if (flags & USE) {								\
 		if (fd && *fd) {									\
 			PRINTF(MAA_PR,(name " = %d*; ",*fd));			\
-			_pr_objects[ *fd ].pid =0;						\
+			if (*fd < _pr_count) _pr_objects[ *fd ].pid =0;	\
 			close(*fd);										\
 		}													\
 	}
@@ -276,7 +284,7 @@ int pr_close_nowait(int fd)
 
 	if (!_pr_objects)
 		err_internal(__func__, "No previous call to pr_open()");
-	if (fd < 0 || fd >= max_fd() || !(pid = _pr_objects[ fd ].pid))
+	if (fd < 0 || fd >= _pr_count || !(pid = _pr_objects[ fd ].pid))
 		err_internal(__func__, "File (%d) not created by pr_open()", fd);
 
 	_pr_objects[ fd ].pid = 0;
-- 
2.43.0


From e8fab444dad31da6c2e071e1a3ab248d354505e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:16 +0000
Subject: [PATCH 39/41] fix: src_cpp_line and src_parse_error overran the stack
 for long texts

---
 maa/source.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maa/source.c b/maa/source.c
index 454de04..7f8dbb3 100644
--- a/maa/source.c
+++ b/maa/source.c
@@ -133,13 +133,14 @@ void src_advance(int length)
 void src_cpp_line(const char *line, int length)
 {
 	arg_List args;
-	char     *tmp = alloca(length + 1);
+	char     *tmp = xmalloc(length + 1); /* may be too large for the stack */
 	int      lineno;
 
 	strncpy(tmp, line, length);
 	tmp [ length ] = '\0';
 
 	args = arg_argify(tmp, 0);
+	xfree(tmp);
 
 	if ((lineno = atoi(arg_get(args, 1))) > 0) --lineno;
 	else                                           lineno = 1;
@@ -323,7 +324,7 @@ static void _src_print_yyerror(FILE *str, const char *message)
 		return;
 	}
 
-	buf = alloca(strlen(message) + 1);
+	buf = xmalloc(strlen(message) + 1); /* may be too large for the stack */
 
 	for (pt = message; *pt; pt++) {
 		if (*pt == '`') {		/* clean up character constants */
@@ -343,6 +344,7 @@ static void _src_print_yyerror(FILE *str, const char *message)
 		} else
 			putc(*pt, str);
 	}
+	xfree(buf);
 }
 
 /* \doc |src_print_line| prints a line of source code, as described by
-- 
2.43.0


From d51fd6551a0dcf355324a1295f164f64a7044836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 40/41] fix: pr_open lost streams of the child when the caller
 had closed its own

---
 maa/pr.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/maa/pr.c b/maa/pr.c
index b4b991b..b4f9b8e 100644
--- a/maa/pr.c
+++ b/maa/pr.c
@@ -121,6 +121,25 @@ void _pr_shutdown(void)
 }
 
 
+/* Create a pipe whose descriptors do not take the place of a standard
+   stream which the caller has closed. */
+
+static int _pr_pipe(int fds[2])
+{
+	int i, fd;
+
+	if (pipe(fds) < 0) return -1;
+
+	for (i = 0; i < 2; i++) {
+		if (fds[i] > STDERR_FILENO) continue;
+		fd = fcntl(fds[i], F_DUPFD, STDERR_FILENO + 1);
+		if (fd < 0) return -1;
+		close(fds[i]);
+		fds[i] = fd;
+	}
+	return 0;
+}
+
 int pr_open(const char *command, int flags, int *infd, int *outfd, int *errfs)
 {
 	return pr_open2(command, NULL, flags, infd, outfd, errfs);
@@ -159,11 +178,11 @@ int pr_open2(const char *command, void(*callback)(void),
 	arg_get_vector(list, &argc, &argv);
 	PRINTF(MAA_PR,("Execing %s with \"%s\"\n", argv[0], command));
 
-	if ((flags & PR_CREATE_STDIN) && pipe(fdin) < 0)
+	if ((flags & PR_CREATE_STDIN) && _pr_pipe(fdin) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdin");
-	if ((flags & PR_CREATE_STDOUT) && pipe(fdout) < 0)
+	if ((flags & PR_CREATE_STDOUT) && _pr_pipe(fdout) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stdout");
-	if ((flags & PR_CREATE_STDERR) && pipe(fderr) < 0)
+	if ((flags & PR_CREATE_STDERR) && _pr_pipe(fderr) < 0)
 		err_fatal_errno(__func__, "Cannot create pipe for stderr");
 
 	if ((pid = fork()) < 0)
@@ -184,7 +203,8 @@ int pr_open2(const char *command, void(*callback)(void),
 			if (fd && *fd) {									\
 				dup2(*fd, FILENO);								\
 			} else {											\
-				if ((null = open("/dev/null", flag)) >= 0) {	\
+				null = open("/dev/null", flag);					\
+				if (null >= 0 && null != FILENO) {				\
 					dup2(null, FILENO);							\
 					close(null);								\
 				}												\
-- 
2.43.0


From 203d5860e94d36407dc545bf0ca232f78484e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:31 +0000
Subject: [PATCH 41/41] fix: log used idents and file names after the string
 pool (or the caller) had freed them

---
 maa/log.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/maa/log.c b/maa/log.c
index dc57885..ef7b1fc 100644
--- a/maa/log.c
+++ b/maa/log.c
@@ -45,9 +45,10 @@ static int        inhibitFull = 0;
 static int        logOpen;
 static int        logFacility = LOG_USER;
 
-static const char *logIdent;
-static const char *logStreamIdent;
-static const char *logFilenameOrig;
+static char       *logIdent;
+static char       *logStreamIdent;
+static char       *logSyslogIdent;
+static char       *logFilenameOrig;
 static char       *logFilename;
 static char       *logFilenameTmp;
 static int        logFilenameLen;
@@ -170,7 +171,8 @@ void log_syslog(const char *ident)
 		if (logSyslog)
 			err_internal(__func__, "Syslog facility already open");
 
-		openlog(ident, LOG_PID|LOG_NOWAIT, logFacility);
+		logSyslogIdent = xstrdup(ident); /* openlog keeps the pointer */
+		openlog(logSyslogIdent, LOG_PID|LOG_NOWAIT, logFacility);
 		++logOpen;
 		++logSyslog;
 	}else{
@@ -178,6 +180,8 @@ void log_syslog(const char *ident)
 			return;
 
 		closelog ();
+		xfree (logSyslogIdent);
+		logSyslogIdent = NULL;
 		--logOpen;
 		--logSyslog;
 	}
@@ -237,8 +241,8 @@ void log_file(const char *ident, const char *filename)
 						  "Log file \"%s\" open when trying to open \"%s\"",
 						  logFilename, filename);
 
-		logIdent        = str_find(ident);
-		logFilenameOrig = str_find(filename);
+		logIdent        = xstrdup(ident); /* may outlive the string pool */
+		logFilenameOrig = xstrdup(filename);
 		logFilenameLen  = strlen(filename)*3+1024;
 		logFilename     = xmalloc(logFilenameLen + 1);
 		logFilenameTmp  = xmalloc(logFilenameLen + 1);
@@ -261,6 +265,12 @@ void log_file(const char *ident, const char *filename)
 		if (logFilenameTmp) xfree (logFilenameTmp);
 		logFilenameTmp = NULL;
 
+		xfree (logIdent);
+		logIdent       = NULL;
+
+		xfree (logFilenameOrig);
+		logFilenameOrig = NULL;
+
 		logFilenameLen = 0;
 
 		--logOpen;
@@ -274,7 +284,7 @@ void log_stream(const char *ident, FILE *stream)
 			err_internal(__func__, "User stream already open");
 
 		logUserStream  = stream;
-		logStreamIdent = str_find(ident);
+		logStreamIdent = xstrdup(ident);
 
 		_log_set_hostname();
 		++logOpen;
@@ -290,6 +300,9 @@ void log_stream(const char *ident, FILE *stream)
 
 		logUserStream = NULL;
 
+		xfree (logStreamIdent);
+		logStreamIdent = NULL;
+
 		--logOpen;
 	}
 }
-- 
2.43.0

