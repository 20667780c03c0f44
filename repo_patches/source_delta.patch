From a07dfc18a5fdcf98e52dca5d3e68154efee8b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 01/61] fix: sblist_insert wrote out of bounds for positions
 past the end

---
 src/sblist/sblist_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sblist/sblist_insert.c b/src/sblist/sblist_insert.c
index 12fa07a..1a38d26 100644
--- a/src/sblist/sblist_insert.c
+++ b/src/sblist/sblist_insert.c
@@ -2,6 +2,7 @@
 #include <string.h>
 
 int sblist_insert(sblist* l, void* item, size_t pos) {
+	if(pos > sblist_getsize(l)) return 0;
 	if(!sblist_grow_if_needed(l)) return 0;
 	memmove(sblist_item_from_index(l, pos + 1), sblist_item_from_index(l, pos), (sblist_getsize(l) - pos) * l->itemsize);
 	l->count++;
-- 
2.43.0


From 6760c0c5b8d6c3a5887916a29a626ca0791e1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 02/61] fix: sblist with blockitems 0 (from_data, items over
 4K) never grew and overflowed its buffer

---
 src/sblist/sblist.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sblist/sblist.c b/src/sblist/sblist.c
index 4e1860f..9bcc364 100644
--- a/src/sblist/sblist.c
+++ b/src/sblist/sblist.c
@@ -57,10 +57,13 @@ int sblist_set(sblist* l, void* item, size_t pos) {
 
 int sblist_grow_if_needed(sblist* l) {
 	char* temp;
+	size_t block;
 	if(l->count == l->capa) {
-		temp = realloc(l->items, (l->capa + l->blockitems) * l->itemsize);
+		block = l->blockitems ? l->blockitems : MY_PAGE_SIZE / l->itemsize;
+		if(!block) block = 1; /* items bigger than a page */
+		temp = realloc(l->items, (l->capa + block) * l->itemsize);
 		if(!temp) return 0;
-		l->capa += l->blockitems;
+		l->capa += block;
 		l->items = temp;
 	}
 	return 1;
-- 
2.43.0


From b6da3fd6ff188fd1ea545c37a1ade6cfba8dbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 03/61] fix: sblist_free_values freed the address of list slots
 instead of the stored pointers

---
 src/sblist/sblist_free_values.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sblist/sblist_free_values.c b/src/sblist/sblist_free_values.c
index 6b07e37..dda388d 100644
--- a/src/sblist/sblist_free_values.c
+++ b/src/sblist/sblist_free_values.c
@@ -4,5 +4,5 @@
 void sblist_free_values(sblist *l) {
 	size_t i;
 	for(i=0; i<sblist_getsize(l); i++)
-		free(sblist_get(l, i));
+		free(*(void**) sblist_get(l, i));
 }
-- 
2.43.0


From d6493c5c1162247a251b8965dab20c8f7e552b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 04/61] fix: hashlist_next stopped at the first bucket that had
 become empty

---
 src/hashlist/hashlist_iterator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist_iterator.c b/src/hashlist/hashlist_iterator.c
index 0edfa5f..5e28c01 100644
--- a/src/hashlist/hashlist_iterator.c
+++ b/src/hashlist/hashlist_iterator.c
@@ -19,7 +19,7 @@ void hashlist_iterator_init(hashlist_iterator* iter) {
 void* hashlist_next(hashlist* h, hashlist_iterator* iter) {
 	if(iter->bucket_iter.pos >= (ssize_t) h->bucketcount) return NULL;
 	iter->pos++;
-	if(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
+	while(iter->bucket_iter.pos == -1 || (size_t) iter->pos >= sblist_getsize(h->buckets[iter->bucket_iter.pos])) {
 		iter->pos = 0;
 		if(!hashlist_bucket_next(h, &iter->bucket_iter)) return NULL;
 	}
-- 
2.43.0


From 656e83836021459bdf765f31faa29121afef4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 05/61] fix: hashlist_add returned 1 instead of the documented
 -1 when out of memory

---
 src/hashlist/hashlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hashlist/hashlist.c b/src/hashlist/hashlist.c
index 1129353..990bc8c 100644
--- a/src/hashlist/hashlist.c
+++ b/src/hashlist/hashlist.c
@@ -21,7 +21,7 @@ int hashlist_add(hashlist* h, uint32_t hash, void* value) {
 		h->buckets[dstbkt] = sblist_new(h->datasize, 8);
 		if(!h->buckets[dstbkt]) return -1;
 	}
-	return !sblist_add(h->buckets[dstbkt], value);
+	return sblist_add(h->buckets[dstbkt], value) ? 0 : -1;
 }
 
 /* return a sblist containing all values matching the hash, or NULL if not found */
-- 
2.43.0


From bf0d844fb4f349935d87acec00008aed05dde5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 06/61] fix: tlist_get returned a bogus pointer instead of NULL
 past the end

---
 src/tlist/tlist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 1ac4c09..379c723 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -126,6 +126,7 @@ size_t tlist_getsize(struct tlist* t) {
 }
 
 void* tlist_get(struct tlist* t, size_t idx) {
+	if(idx >= cnt (t->root)) return 0;
 	return data(getitem(t->root, idx, 0));
 }
 
-- 
2.43.0


From 1dfad4c07b7caaa7d70341497ba27ec2f101d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 07/61] fix: tlist deep variants freed the item slot instead of
 the stored pointer

---
 src/tlist/tlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tlist/tlist.c b/src/tlist/tlist.c
index 379c723..b8333fe 100644
--- a/src/tlist/tlist.c
+++ b/src/tlist/tlist.c
@@ -145,7 +145,7 @@ int tlist_append(struct tlist* t, void *value) {
 static int tlist_delete_impl(struct tlist *t, size_t idx, int deep) {
 	if(idx >= cnt (t->root)) return 0;
 	pitem it = getitem(t->root, idx, 0);
-	if(deep) free(data(it));
+	if(deep) free(*(void**) data(it));
 	remove(&t->root, idx, 0);
 	free(it);
 	return 1;
-- 
2.43.0


From 061cf7c6c12ee8b1a82576851760db2e3d21ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:56 +0000
Subject: [PATCH 08/61] fix: bmap_insert reported an index instead of -1 when
 out of memory

---
 include/bmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bmap.h b/include/bmap.h
index 86da54a..e066a6d 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -137,7 +137,7 @@ static inline void* bmap_new(bmap_compare_func fn) {
 #define bmap_insert(X, KEY, VAL) ( \
 		( (X)->tmp.ss = bmap_find(X, KEY) ) \
 		== (ssize_t) -1 ? bmap_insert_nocheck(X, KEY, VAL) : \
-		bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss \
+		( bmap_cat(VAL_LIST_TYPE, _set)(&(X)->values, VAL, (X)->tmp.ss), (X)->tmp.ss ) \
 	)
 
 #define bmap_delete(X, POS) ( \
-- 
2.43.0


From e5088d3cdce572933bb129660ac36f9507efe059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 09/61] fix: utoa printed wrong digits for values above INT_MAX

---
 src/strlib/utoa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strlib/utoa.c b/src/strlib/utoa.c
index 036984d..a1b1f91 100644
--- a/src/strlib/utoa.c
+++ b/src/strlib/utoa.c
@@ -9,7 +9,8 @@
   because it was written for agscc originally. */
 
 char *utoa(unsigned number, char* buffer) {
-	int lentest, len = 0, i, start = 0;
+	unsigned lentest;
+	int len = 0, i, start = 0;
 
 	lentest = number;
 	do {
-- 
2.43.0


From 80d472217076d118fb6c9b4b4bc8728ffce931f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 10/61] fix: itoa overflowed on INT_MIN

---
 src/strlib/itoa.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/strlib/itoa.c b/src/strlib/itoa.c
index 45e2014..bbf51e9 100644
--- a/src/strlib/itoa.c
+++ b/src/strlib/itoa.c
@@ -9,28 +9,29 @@
   because it was written for agscc originally. */
 
 char *itoa(int number, char* buffer) {
-	int lentest, len = 0, i, start;
+	unsigned lentest, n = number;
+	int len = 0, i, start;
 
-	if(number >> 31) {
-		number = number * -1;
+	if(number < 0) {
+		n = -n;
 		buffer[0] = '-';
 		start = 1;
 	} else
 		start = 0;
 
-	lentest = number;
+	lentest = n;
 	do {
 		len++;
 		lentest /= 10;
 	} while(lentest);
 	buffer[start+len] = 0;
 	do {
-		i = number % 10;
+		i = n % 10;
 		buffer[start+len - 1] = '0' + i;
-		number -= i;
+		n -= i;
 		len -= 1;
-		number /= 10;
-	} while (number);
+		n /= 10;
+	} while (n);
 	return buffer;
 }
 
-- 
2.43.0


From e3a7ff6d45d2e8c9e6761847502481a12378cb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 11/61] fix: numberToString padded with zeros whenever any flag
 but NTS_PAD was given

---
 src/strlib/numberToString.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index a8e6689..0020f75 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -37,7 +37,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	for(i = 0; i < len; i++) result[i] = '0';
 	result[len] = 0;
 	if(!number) {
-		if(!flags & NTS_PAD) result += len - 1;
+		if(!(flags & NTS_PAD)) result += len - 1;
 		return result;
 	}
 
@@ -52,7 +52,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 		len -= 1;
 		number /= base;
 	}
-	if (!flags & NTS_PAD) {
+	if (!(flags & NTS_PAD)) {
 		for (i = 0; i < tmp; i++) {
 			if (result[i] == '0') shr ++;
 			else break;
-- 
2.43.0


From 78e49f5f6db5ef2ba8517f942da92e1098122c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 12/61] fix: numberToString divided by zero for base 0

---
 src/strlib/numberToString.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/numberToString.c b/src/strlib/numberToString.c
index 0020f75..15ba570 100644
--- a/src/strlib/numberToString.c
+++ b/src/strlib/numberToString.c
@@ -16,7 +16,7 @@ char* numberToString(uint64_t number, unsigned base, char* buffer, size_t maxlen
 	size_t tmp, len = 0, i;
 	int shr = 0;
 	
-	if(base % 2 || base > conv_cypher_len) return NULL;
+	if(!base || base % 2 || base > conv_cypher_len) return NULL;
 	
 	int hasSign = (flags & NTS_SIGNED_TYPE) && number >> 63 == 1;
 	if(hasSign) number = ~number + 1;
-- 
2.43.0


From 67c74b0590def57b73815936e815def991600dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 13/61] fix: ulz_vsnprintf misread precisions of more than one
 digit

---
 src/format/ulz_vsnprintf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 0c34258..8c30ef0 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -31,7 +31,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 						return -1;
 					}
 					width = 0;
-					for(j = 0; j < i; j++) width += (a[j] - '0') * (j ? (10 * (i - 1 - j)) : 1);
+					for(j = 0; j < i; j++) width = width * 10 + (a[j] - '0');
 					a += i - 1;
 					goto checkmod;
 				case 's':
-- 
2.43.0


From 3ba60c15e4c23ec705f3cdd27ce7345d3b247eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 14/61] fix: ulz_vsnprintf sign-extended %x of negative ints to
 64 bit

---
 src/format/ulz_vsnprintf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 8c30ef0..17c6bd7 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -54,7 +54,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					goto strmove;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
-					intstart:
 					inn = va_arg(ap, int);
 					nconv:
 					if(width) nflags |= NTS_PAD;
@@ -91,9 +90,10 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					nflags = 0;
 					goto nconv;
 				case 'x': case 'X':
+					inn = va_arg(ap, unsigned);
 					base = 16;
 					nflags = (*a == 'x') ? NTS_LOWERCASE_CHARS : 0;
-					goto intstart;
+					goto nconv;
 				default:
 					goto fail;
 			}
-- 
2.43.0


From 9bde689d214502315a170e793d4f6980b2aa049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 15/61] fix: ulz_vsnprintf wrote a terminator into a buffer of
 size 0

---
 src/format/ulz_vsnprintf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 17c6bd7..232f088 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -106,6 +106,6 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 			} else if(!o) res++;
 		}
 	}
-	if(o) o[0] = 0;
+	if(o && destsize) o[0] = 0;
 	return res;
 }
-- 
2.43.0


From 62173971ae6c9e3f36ba74cb1b3ce4ed33b96271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 16/61] fix: ulz_vsnprintf cut off numbers longer than the
 precision and overflowed its buffer for large precisions

---
 src/format/ulz_vsnprintf.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 232f088..74c6b3a 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -12,11 +12,13 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 	uint64_t inn;
 	size_t i,j, width = 0;
 	ssize_t res = 0;
-	int nflags = 0;
+	int nflags = 0, prec = 0;
 	int lng, lflag; // only required in case 'l'
 	unsigned int base = 10;
 	for(a = (char*)format; *a; a++) {
 		if(*a == '%') {
+			width = 0;
+			prec = 0;
 			checkmod:
 			++a;
 			switch(*a) {
@@ -30,7 +32,7 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 						fail:
 						return -1;
 					}
-					width = 0;
+					prec = 1;
 					for(j = 0; j < i; j++) width = width * 10 + (a[j] - '0');
 					a += i - 1;
 					goto checkmod;
@@ -56,10 +58,28 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					nflags = NTS_SIGNED_TYPE;
 					inn = va_arg(ap, int);
 					nconv:
-					if(width) nflags |= NTS_PAD;
-					ins = numberToString(inn, base, cbuf, width, nflags);
-					width = 0;
+					ins = numberToString(inn, base, cbuf, 0, nflags);
 					base = 10;
+					if(prec && !width && !inn) *ins = 0;
+					i = strlen(ins);
+					if(*ins == '-') {
+						i--;
+						if(i < width) {
+							if(o < omax) {
+								*o = '-';
+								o++;
+								res++;
+							} else if(!o) res++;
+							ins++;
+						}
+					}
+					for(; i < width; i++) {
+						if(o < omax) {
+							*o = '0';
+							o++;
+							res++;
+						} else if(!o) res++;
+					}
 					goto strmove;
 					break;
 				case 'l': case 'z':
-- 
2.43.0


From 6f5625e4a374352065c334b956c7cc6752304c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 17/61] fix: ulz_printf and ulz_fprintf wrote stack memory to
 the descriptor when the format was malformed

---
 src/format/ulz_fprintf.c | 2 +-
 src/format/ulz_printf.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index ae605f7..708e68e 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -9,7 +9,7 @@ void ulz_fprintf(int fd, const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(fd, dest, result);
 	}
 }
diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index bc3f342..0b1c5dd 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -9,7 +9,7 @@ void ulz_printf(const char* fmt, ...) {
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result) {
+	if(result > 0) {
 		write(1, dest, result);
 	}
 }
-- 
2.43.0


From 25647abc86d852ed56b12842323de3276a4f9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 18/61] fix: stringptr_format returned a string of size -1 for
 malformed formats and leaked it for NULL

---
 src/stringptr/stringptr_format.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptr/stringptr_format.c b/src/stringptr/stringptr_format.c
index 42293a5..8f67d67 100644
--- a/src/stringptr/stringptr_format.c
+++ b/src/stringptr/stringptr_format.c
@@ -6,10 +6,13 @@
 stringptr* stringptr_format(char* fmt, ...) {
 	const size_t BUF_SIZE = 1000;
 	stringptr* result = stringptr_new(BUF_SIZE);
-	if(!result || !fmt) return NULL;
+	ssize_t len;
+	if(!result) return NULL;
 	va_list ap;
 	va_start(ap, fmt);
-	result->size = ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap);
+	len = fmt ? ulz_vsnprintf(result->ptr, BUF_SIZE, fmt, ap) : -1;
 	va_end(ap);
+	if(len < 0) stringptr_free(result);
+	else result->size = len;
 	return result;
 }
-- 
2.43.0


From f8ed20344d5ea79370aaff5e58f0369e9dc41529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 19/61] fix: strtoint and strtoint64 overflowed at the extremes
 of their range

---
 src/strlib/strtoint.c   | 5 ++---
 src/strlib/strtoint64.c | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/strlib/strtoint.c b/src/strlib/strtoint.c
index 34d58a9..f211fb0 100644
--- a/src/strlib/strtoint.c
+++ b/src/strlib/strtoint.c
@@ -3,12 +3,11 @@
 int strtoint(char* str, size_t len) {
 	ssize_t i;
 	if(!str || !len) return 0;
-	ssize_t mul = 1;
-	int result = 0;
+	uint64_t mul = 1, result = 0;
 	for(i = len - 1; i >= 0 + (str[0] == '-'); i--) {
 		result += (str[i] - '0') * mul;
 		mul *= 10;
 	}
-	if(str[0] == '-') result *= -1;
+	if(str[0] == '-') result = -result;
 	return result;
 }
diff --git a/src/strlib/strtoint64.c b/src/strlib/strtoint64.c
index fa1070d..a6282d0 100644
--- a/src/strlib/strtoint64.c
+++ b/src/strlib/strtoint64.c
@@ -3,12 +3,11 @@
 int64_t strtoint64(char* str, size_t len) {
 	ssize_t i;
 	if(!str || !len) return 0;
-	ssize_t mul = 1;
-	int64_t result = 0;
+	uint64_t mul = 1, result = 0;
 	for(i = len - 1; i >= 0 + (str[0] == '-'); i--) {
 		result += (str[i] - '0') * mul;
 		mul *= 10;
 	}
-	if(str[0] == '-') result *= -1;
+	if(str[0] == '-') result = -result;
 	return result;
 }
-- 
2.43.0


From ca531b6f47737e5b3d2d24626b06b99b41e4583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 20/61] fix: strdup_n read past the given length and did not
 terminate the copy

---
 src/strlib/strdup_n.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strdup_n.c b/src/strlib/strdup_n.c
index 5aa6e96..058f84a 100644
--- a/src/strlib/strdup_n.c
+++ b/src/strlib/strdup_n.c
@@ -5,8 +5,10 @@
 char* strdup_n(char* str, size_t len) {
 	if (!str || !len) return NULL;
 	char * res;
-	if((res = malloc(len + 1)))
-		memcpy(res, str, len + 1);
+	if((res = malloc(len + 1))) {
+		memcpy(res, str, len);
+		res[len] = 0;
+	}
 	return res;
 }
 
-- 
2.43.0


From 2be8df50ee9ee75ba14b4c9430830aae80c75ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 21/61] fix: strstar and strstr_uc missed matches overlapping a
 failed partial match

---
 src/strlib/strstar.c   | 2 +-
 src/strlib/strstr_uc.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/strstar.c b/src/strlib/strstar.c
index 6b5165d..dfda983 100644
--- a/src/strlib/strstar.c
+++ b/src/strlib/strstar.c
@@ -13,7 +13,7 @@ char* strstar(const char* haystack, const char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
diff --git a/src/strlib/strstr_uc.c b/src/strlib/strstr_uc.c
index 37e2d76..667fb48 100644
--- a/src/strlib/strstr_uc.c
+++ b/src/strlib/strstr_uc.c
@@ -18,7 +18,7 @@ char* strstr_uc(char* haystack, char* needle, size_t needlesize) {
 		}
 		return save;
 		next:
-		haystack++;
+		haystack = save + 1;
 	}
 	return NULL;
 }
-- 
2.43.0


From 8cfe3f4eeacce0421f17510692774dbbda33e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 22/61] fix: findword accepted a match in the middle of a word
 right after a rejected one

---
 src/strlib/findword.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/strlib/findword.c b/src/strlib/findword.c
index 00e0806..c68d207 100644
--- a/src/strlib/findword.c
+++ b/src/strlib/findword.c
@@ -21,9 +21,9 @@ static inline int isTrailingWhitespace(char c) {
 }
 
 char* findword(char* buf, char* word_uc, size_t word_len) {
-	char* res = buf;
+	char* res = buf, *start = buf;
 	while(*res && (res = strstr_uc(buf, word_uc, word_len))) {
-		if((res == buf || isLeadingWhitespace(res[-1])) &&
+		if((res == start || isLeadingWhitespace(res[-1])) &&
 		   (res[word_len] == 0 || isTrailingWhitespace(res[word_len])))
 			return res;
 		else buf = res + 1;
-- 
2.43.0


From 8a1707c9eeafb22cb3624dce7aba213742ca5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 23/61] fix: getFileExt returned the file name from its second
 character on when there is no dot

---
 src/filelib/getfileext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/getfileext.c b/src/filelib/getfileext.c
index de63e9f..783dc3b 100644
--- a/src/filelib/getfileext.c
+++ b/src/filelib/getfileext.c
@@ -2,7 +2,7 @@
 
 char* getFileExt(const char* filename, size_t fnlen) {
 	char* p = (char*) filename + fnlen;
-	while(p - 1 > filename && p[-1] != '.') p--;
+	while(p > filename && p[-1] != '.') p--;
 	if(p > filename) return p;
 	else return NULL;
 }
-- 
2.43.0


From 3a16be96210256d14926ef8e8da269652ac26554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 24/61] fix: getpathdiff accepted paths that are not inside the
 first one

---
 src/filelib/getpathdiff.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/filelib/getpathdiff.c b/src/filelib/getpathdiff.c
index 8ac70ed..be54d5c 100644
--- a/src/filelib/getpathdiff.c
+++ b/src/filelib/getpathdiff.c
@@ -8,8 +8,7 @@
 // workbuf should be at least as big as path2, but not longer than PATH_MAX.
 // all returned results start with /
 ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
-	normalizepath(path1);
-	normalizepath(path2);
+	if(!normalizepath(path1) || !normalizepath(path2)) return -1;
 	// special case : / is the only case where the end of the string is /
 	int isRoot = 0;
 	if(path1->size == 1) {
@@ -17,12 +16,13 @@ ssize_t getpathdiff(stringptr* path1, stringptr* path2, char* workbuf) {
 		isRoot = 1;
 	}
 	ssize_t result = path2->size - path1->size;
-	if(result < 0) return -1;
-	if(result) {
-		if(memcmp(path1->ptr, path2->ptr, path1->size)) return -1;
+	if(result < 0 || memcmp(path1->ptr, path2->ptr, path1->size) ||
+	   (result && path2->ptr[path1->size] != '/'))
+		result = -1;
+	else {
 		memcpy(workbuf, path2->ptr + path1->size, result);
+		workbuf[result] = 0;
 	}
-	workbuf[result] = 0;
 	if(isRoot) path1->size = 1;
 	return result;
 }
-- 
2.43.0


From ce7c1c4c266204bd1ee6e0e2eb44c123a6f6b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 25/61] fix: normalizepath overflowed its stack buffer on paths
 of PATH_MAX bytes and more

---
 src/filelib/normalizepath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelib/normalizepath.c b/src/filelib/normalizepath.c
index 1858e0e..85d9b89 100644
--- a/src/filelib/normalizepath.c
+++ b/src/filelib/normalizepath.c
@@ -14,7 +14,7 @@ int normalizepath(stringptr* path) {
 	char* tmp;
 	out.ptr = buf;
 	out.size = 0;
-	if(!path->size || path->ptr[0] != '/') goto fail;
+	if(!path->size || path->size >= sizeof(buf) || path->ptr[0] != '/') goto fail;
 	for(i = 0; i < path->size; i++) {
 		switch(path->ptr[i]) {
 			case '/':
-- 
2.43.0


From a1433c41e5275f5e47dc32e79a51747ea80dcfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 26/61] fix: filelist_search did not find directories with a
 backslash in their name

---
 src/filelist/filelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index d0de34c..5232fab 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -13,7 +13,7 @@ static size_t cpystr_escape(char *out, const char *in, size_t in_size)
 {
 	size_t out_size = 0;
 	while(in_size && out_size + 2 < PATH_MAX) {
-		if(*in == '[' || *in == '?' || *in == '*') {
+		if(*in == '[' || *in == '?' || *in == '*' || *in == '\\') {
 			*(out++) = '\\';
 			out_size++;
 		}
-- 
2.43.0


From af667550d89f24f8534f269ba91658088835bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 27/61] fix: filelist_search leaked its list and dropped the
 dot entries silently when out of memory

---
 src/filelist/filelist.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index 5232fab..df65372 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -55,14 +55,15 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	if((ret = glob(buf, defaultflags | GLOB_MARK, NULL, &l->pglob))) return ret;
 	if(!(l->files = stringptrlist_new(l->pglob.gl_pathc))) {
 		err:
+		if(l->files) stringptrlist_free(l->files);
 		globfree(&l->pglob);
 		return -1;
 	}
 	if(!(flags & FLF_INCLUDE_HIDDEN)) {
 		// the strings in the filelist are managed by glob, we dont free them ourselves.
 		// so its save to add string literals.
-		if(flags & FLF_INCLUDE_DOT) stringptrlist_add(l->files, "./", 2);
-		if(flags & FLF_INCLUDE_DOT_DOT) stringptrlist_add(l->files, "../", 3);
+		if((flags & FLF_INCLUDE_DOT) && !stringptrlist_add(l->files, "./", 2)) goto err;
+		if((flags & FLF_INCLUDE_DOT_DOT) && !stringptrlist_add(l->files, "../", 3)) goto err;
 	}
 	for(i = 0; i < l->pglob.gl_pathc; i++) {
 		s->ptr = l->pglob.gl_pathv[i];
@@ -103,10 +104,7 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 				) continue;
 			}
 		}
-		if(!stringptrlist_add(l->files, s->ptr, s->size)) {
-			free(l->files);
-			goto err;
-		}
+		if(!stringptrlist_add(l->files, s->ptr, s->size)) goto err;
 	}
 	return 0;
 }
-- 
2.43.0


From ef08d6a084bcefc07e91e85f2443044b60018607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 28/61] fix: fileparser_getnextlinelength failed and lost the
 position when the last line fills the buffer exactly

---
 src/fileparser/fileparser_getnextlinelength.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fileparser/fileparser_getnextlinelength.c b/src/fileparser/fileparser_getnextlinelength.c
index 497316a..7373b45 100644
--- a/src/fileparser/fileparser_getnextlinelength.c
+++ b/src/fileparser/fileparser_getnextlinelength.c
@@ -7,12 +7,12 @@ ssize_t fileparser_getnextlinelength(fileparser* parser) {
 	while((ret = fileparser_readline(parser)) == -3) {
 		res += sizeof(parser->buf);
 		parser->fpos += sizeof(parser->buf);
-		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+		if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) break;
 	}
-	if(ret != 0) return -1;
-	res += parser->len;
+	if(ret == -2 && res) ret = 0; /* last line ended exactly at the end of the file */
+	else if(ret == 0) res += parser->len;
 	parser->fpos = store_fpos;
-	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1) return -1;
+	if(lseek(parser->file, (off_t) parser->fpos, SEEK_SET) == -1 || ret != 0) return -1;
 	return res;
 }
 
-- 
2.43.0


From af55202b27f7c0cb32a1baa88ad30bccf95167da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 29/61] fix: fileparser took the bytes of a short read for a
 complete line

---
 src/fileparser/fileparser_readline_userbuf.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fileparser/fileparser_readline_userbuf.c b/src/fileparser/fileparser_readline_userbuf.c
index 9596076..d779ee0 100644
--- a/src/fileparser/fileparser_readline_userbuf.c
+++ b/src/fileparser/fileparser_readline_userbuf.c
@@ -3,11 +3,20 @@
 int fileparser_readline_userbuf(fileparser* parser, char* buf, size_t bufsize) {
 	size_t i;
 	size_t found = 0;
-	ssize_t ret;
+	ssize_t ret = 0;
+	size_t got = 0;
 	if(!parser || !parser->file) return -1;
-	if(!(ret = read(parser->file, buf, bufsize))) return -2;
-	if(ret == -1) return errno;
-	parser->len = (size_t) ret;
+	while(got < bufsize && (ret = read(parser->file, buf + got, bufsize - got)) > 0) {
+		got += ret;
+		if(memchr(buf + got - ret, '\n', ret)) break;
+	}
+	if(ret == -1) {
+		int err = errno;
+		lseek(parser->file, (off_t) parser->fpos, SEEK_SET);
+		return err;
+	}
+	if(!got) return -2;
+	parser->len = got;
 	for(i = 0; i < parser->len; i++) {
 		if(buf[i] == '\n') {
 			found = 1;
-- 
2.43.0


From 953be41245755b039431bf5f9a3f7ed3e78c8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 30/61] fix: stringptrlist_fromfile stopped at the first empty
 or long line and reported success

---
 src/stringptrlist/stringptrlist_fromfile.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/stringptrlist/stringptrlist_fromfile.c b/src/stringptrlist/stringptrlist_fromfile.c
index 9614b87..f05bd0a 100644
--- a/src/stringptrlist/stringptrlist_fromfile.c
+++ b/src/stringptrlist/stringptrlist_fromfile.c
@@ -4,10 +4,19 @@
 int stringptrlist_fromfile(stringptrlist* l, const char* fn) {
 	fileparser f;
 	stringptr line;
-	int success = 0;
+	int success = 0, ret;
+	ssize_t len;
+	char *buf;
 	if(fileparser_open(&f, fn)) goto err;
-	while(!fileparser_readline(&f) && !fileparser_getline(&f, &line) && line.size) {
-		if(!stringptrlist_add_strdup(l, &line)) goto ferr;
+	while((ret = fileparser_readline(&f)) != -2) {
+		if(ret == -3) { /* longer than the parser's own buffer */
+			if((len = fileparser_getnextlinelength(&f)) < 0) goto ferr;
+			if(!(buf = malloc(len + 1))) goto ferr;
+			if(fileparser_readline_userbuf(&f, buf, len + 1) || !stringptrlist_add(l, buf, f.len)) {
+				free(buf);
+				goto ferr;
+			}
+		} else if(ret || fileparser_getline(&f, &line) || !stringptrlist_add_strdup(l, &line)) goto ferr;
 	}
 	success = 1;
 	ferr:
-- 
2.43.0


From 720f09613e25f68031d435ce33155d2ec71d7929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 31/61] fix: stringptr_fromfile looped forever when the file
 ended early

---
 src/stringptr/stringptr_fromfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stringptr/stringptr_fromfile.c b/src/stringptr/stringptr_fromfile.c
index 32a7f4a..45d2097 100644
--- a/src/stringptr/stringptr_fromfile.c
+++ b/src/stringptr/stringptr_fromfile.c
@@ -29,6 +29,11 @@ stringptr* stringptr_fromfile(char* filename) {
 			buf = NULL;
 			goto FEXIT;
 		}
+		if(!bread) { /* file was truncated meanwhile */
+			buf->size = bufpos;
+			buf->ptr[bufpos] = 0;
+			break;
+		}
 		bufpos += bread;
 	}
 	FEXIT:
-- 
2.43.0


From 5282e33c192900e39ba2437b8e5a25465fab8554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 32/61] fix: stringptr_copy crashed when out of memory

---
 src/stringptr/stringptr_copy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stringptr/stringptr_copy.c b/src/stringptr/stringptr_copy.c
index c019525..133d80c 100644
--- a/src/stringptr/stringptr_copy.c
+++ b/src/stringptr/stringptr_copy.c
@@ -4,6 +4,7 @@
 stringptr* stringptr_copy(stringptr* s) {
 	if(!s) return NULL;
 	stringptr* result = stringptr_new(s->size);
+	if(!result) return NULL;
 	memcpy(result->ptr, s->ptr, s->size);
 	return result;
 }
-- 
2.43.0


From b997aece03086090e18079d728abba946bb2738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 33/61] fix: stringptr_splits looped forever on an empty
 delimiter

---
 src/stringptrlist/stringptr_splits.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index 024bb1b..a4f0475 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -12,10 +12,11 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	if(!result) return NULL;
 	i = 0;
 	while(i<=buf->size) {
-		if(i == buf->size || stringptr_here(buf, i, delim)) {
+		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
 			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
+			if(i == buf->size) break;
 			i += delim->size;
 		} else
 			i++;
-- 
2.43.0


From 832e39686c6d19f288da8c4815c192b9fc5d51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 34/61] fix: stringptr_splitc and stringptr_splits dropped
 pieces silently when out of memory

---
 src/stringptrlist/stringptr_splitc.c | 5 ++++-
 src/stringptrlist/stringptr_splits.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_splitc.c b/src/stringptrlist/stringptr_splitc.c
index 1d1f2b8..60b413a 100644
--- a/src/stringptrlist/stringptr_splitc.c
+++ b/src/stringptrlist/stringptr_splitc.c
@@ -12,7 +12,10 @@ stringptrlist* stringptr_splitc(stringptr* buf, int delim) {
 
 	for(i=0;i<=buf->size;i++) {
 		if(i == buf->size || buf->ptr[i] == delim) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i+1;
 			buf->ptr[i] = 0;
 		}
diff --git a/src/stringptrlist/stringptr_splits.c b/src/stringptrlist/stringptr_splits.c
index a4f0475..ce47d71 100644
--- a/src/stringptrlist/stringptr_splits.c
+++ b/src/stringptrlist/stringptr_splits.c
@@ -13,7 +13,10 @@ stringptrlist* stringptr_splits(stringptr* buf, stringptr* delim) {
 	i = 0;
 	while(i<=buf->size) {
 		if(i == buf->size || (delim->size && stringptr_here(buf, i, delim))) {
-			stringptrlist_add(result, buf->ptr + linestart, i - linestart);
+			if(!stringptrlist_add(result, buf->ptr + linestart, i - linestart)) {
+				stringptrlist_free(result);
+				return NULL;
+			}
 			linestart = i + delim->size;
 			buf->ptr[i] = 0;
 			if(i == buf->size) break;
-- 
2.43.0


From baf5772ab42082e07ca158828502b971fcbbf93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 35/61] fix: stringptr_replace leaked the split list

---
 src/stringptrlist/stringptr_replace.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringptrlist/stringptr_replace.c b/src/stringptrlist/stringptr_replace.c
index e72bc08..6cf48ea 100644
--- a/src/stringptrlist/stringptr_replace.c
+++ b/src/stringptrlist/stringptr_replace.c
@@ -7,7 +7,10 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 	size_t i, w;
 	if((l = stringptr_splits(buf, what))) {
 		result = stringptr_new(buf->size - ((stringptrlist_getsize(l) - 1) * what->size) + ((stringptrlist_getsize(l) - 1) * whit->size));
-		if(!result) return NULL;
+		if(!result) {
+			stringptrlist_free(l);
+			return NULL;
+		}
 		w = 0;
 		for(i = 0; i < stringptrlist_getsize(l); i++) {
 			if((temp = stringptrlist_get(l, i))) {
@@ -21,7 +24,7 @@ stringptr* stringptr_replace(stringptr* buf, stringptr* what, stringptr* whit) {
 				}
 			}
 		}
-		free(l);
+		stringptrlist_free(l);
 	}
 	return result;
 }
-- 
2.43.0


From 9b945546a9e15d39d7d58570e9ea74b0e9a4e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 36/61] fix: stringptrlist_add_strdup leaked the copy when the
 list could not grow

---
 src/stringptrlist/stringptrlist_add_strdup.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_add_strdup.c b/src/stringptrlist/stringptrlist_add_strdup.c
index 3fc57a7..9d358ec 100644
--- a/src/stringptrlist/stringptrlist_add_strdup.c
+++ b/src/stringptrlist/stringptrlist_add_strdup.c
@@ -3,5 +3,9 @@
 int stringptrlist_add_strdup(stringptrlist* l, stringptr* s) {
 	char* nu = stringptr_strdup(s);
 	if(!nu) return 0;
-	return stringptrlist_add(l, nu, stringptr_getsize(s));
+	if(!stringptrlist_add(l, nu, stringptr_getsize(s))) {
+		free(nu);
+		return 0;
+	}
+	return 1;
 }
-- 
2.43.0


From c9a6b642cfb7feb651e39a27737cd3caff65e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 37/61] fix: stringptrlist_tofile gave up on short writes

---
 src/stringptrlist/stringptrlist_tofile.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/stringptrlist/stringptrlist_tofile.c b/src/stringptrlist/stringptrlist_tofile.c
index 8a0bcd0..7fb2e1c 100644
--- a/src/stringptrlist/stringptrlist_tofile.c
+++ b/src/stringptrlist/stringptrlist_tofile.c
@@ -3,13 +3,20 @@
 
 /* writes a stringptrlist to a file, inserting a newline char after each list entry.
  * returns 1 on success, 0 on error. */
+static int write_all(int fd, const char *p, size_t n) {
+	ssize_t ret;
+	for(; n; p += ret, n -= ret)
+		if((ret = write(fd, p, n)) <= 0) return 0;
+	return 1;
+}
+
 int stringptrlist_tofile(stringptrlist* l, char* filename, int mode) {
 	int success = 0;
 	int fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC, mode);
 	if(fd == -1) goto ret;
 	stringptr *s;
 	sblist_iter(l, s) {
-		if(write(fd, s->ptr, s->size) != (ssize_t)s->size) goto err;
+		if(!write_all(fd, s->ptr, s->size)) goto err;
 		if(write(fd, "\n", 1) != 1) goto err;
 	}
 	success = 1;
-- 
2.43.0


From 89f413303b3bb1aa447e41ccc17b25c72f4b62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 38/61] fix: read_stdin_line cut off the last character of
 lines that do not end in a newline

---
 src/stringptr/read_stdin_line.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/read_stdin_line.c b/src/stringptr/read_stdin_line.c
index 0fb4baa..011e138 100644
--- a/src/stringptr/read_stdin_line.c
+++ b/src/stringptr/read_stdin_line.c
@@ -9,7 +9,7 @@ stringptr read_stdin_line(char* buf, size_t bufsize, int chomp) {
 	if((fgets_result = fgets(buf, bufsize, stdin))) {
 		stringptr line;
 		stringptr_fromchar(fgets_result, &line);
-		if(chomp) 
+		if(chomp && line.size && line.ptr[line.size - 1] == '\n')
 			stringptr_shiftleft(&line, 1); // remove trailing \n
 		return line;
 	}
-- 
2.43.0


From 8329df7c8bfd541df8bcc7ca9607ca9ff9e58275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 39/61] fix: stringptr_here read behind the string for
 positions past its end

---
 src/stringptr/stringptr_here.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_here.c b/src/stringptr/stringptr_here.c
index 557bc7f..007adf3 100644
--- a/src/stringptr/stringptr_here.c
+++ b/src/stringptr/stringptr_here.c
@@ -2,7 +2,7 @@
 #include <string.h>
 
 int stringptr_here(stringptr* haystack, size_t bufpos, stringptr* needle) {
-	if(needle->size <= haystack->size - bufpos) {
+	if(bufpos <= haystack->size && needle->size <= haystack->size - bufpos) {
 		if(!memcmp(needle->ptr, haystack->ptr + bufpos, needle->size))
 			return 1;
 	}
-- 
2.43.0


From 07d98ed3353207c87436a516cd008909c4aee758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 40/61] fix: processes inherited the pipe ends of other open
 processes and kept them alive

---
 src/proclib/process.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index e471ea9..3147b82 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -1,3 +1,5 @@
+#undef _GNU_SOURCE
+#define _GNU_SOURCE
 #include <spawn.h>
 #include <errno.h>
 #include <fcntl.h>
@@ -16,7 +18,7 @@ int process_open(struct process *p, char* const argv[]) {
 		if(errno) goto spawn_error;
 	}
 
-	for(i=0; i<3; ++i) if(pipe(pipes[i])) goto spawn_error;
+	for(i=0; i<3; ++i) if(pipe2(pipes[i], O_CLOEXEC)) goto spawn_error;
 
 	static const unsigned char pipeends[3] = {0,1,1};
 
-- 
2.43.0


From 2c60fd0feb066b246d015686a2d350bf66c50fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 41/61] fix: process_close returned garbage and left a zombie
 when interrupted by a signal

---
 src/proclib/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proclib/process.c b/src/proclib/process.c
index 3147b82..799b57c 100644
--- a/src/proclib/process.c
+++ b/src/proclib/process.c
@@ -52,7 +52,7 @@ int process_open(struct process *p, char* const argv[]) {
 int process_close(struct process *p) {
 	int i, retval;
 	for(i=0; i<3; ++i) close(p->fds[i]);
-	waitpid(p->pid, &retval, 0);
+	while(waitpid(p->pid, &retval, 0) == -1 && errno == EINTR);
 	posix_spawn_file_actions_destroy(&p->fa);
 	return WEXITSTATUS(retval);
 }
-- 
2.43.0


From 07749ca289e19729ebffefffd2353a7b3345a77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 42/61] fix: ssa_free accessed memory in front of the pool for
 foreign pointers

---
 include/ssalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index 455631d..e3d9c0d 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -95,7 +95,7 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 
 static void ssa_free(ssa_pool* p, void* ptr) {
 	ssize_t idx;
-	if((idx = ssa_getidx(p, ptr)) == -1 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
+	if((idx = ssa_getidx(p, ptr)) < 0 || idx >= SSA_MAXELEM || !BA_GET(p->used, idx))
 #ifdef DEBUG
 		abort();
 #else
-- 
2.43.0


From 88da7853d5aa8e5390ecd0ffa0059e046f96d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 43/61] fix: ssa_alloc never reused freed slots in pools of
 less than 8 elements

---
 include/ssalloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ssalloc.c b/include/ssalloc.c
index e3d9c0d..669db0c 100644
--- a/include/ssalloc.c
+++ b/include/ssalloc.c
@@ -83,9 +83,9 @@ static void* ssa_alloc(ssa_pool* p, size_t size) {
 		return ssa_set(p, p->top - 1);
 	}
 	if(p->avail) {
-		for(b = 0; b < SSA_MAXELEM / TYPEBITS(SSA_COMPARETYPE); b++) {
+		for(b = 0; b < (SSA_MAXELEM + TYPEBITS(SSA_COMPARETYPE) - 1) / TYPEBITS(SSA_COMPARETYPE); b++) {
 			if(*((SSA_COMPARETYPE*)(p->used + (sizeof(SSA_COMPARETYPE) * b))) != SSA_COMPARETYPE_ALL_BITS_SET)
-				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1); i++)
+				for(i = TYPEBITS(SSA_COMPARETYPE) * b; i < TYPEBITS(SSA_COMPARETYPE) * (b + 1) && i < SSA_MAXELEM; i++)
 					if(!BA_GET(p->used, i))
 						return ssa_set(p, i);
 		}
-- 
2.43.0


From 15462bcca6935e2b71de425b2029d5113b319a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 44/61] fix: guard_free left a page mapped for sizes that are a
 multiple of the page size

---
 include/guard_alloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 49c91d8..95c2845 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -13,7 +13,7 @@
 static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
-	size_t ps = guard_alloc_pagesize, pages = 1+n/ps;
+	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From b1b600a012a2edc24c58678fe790ff69a8506de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 45/61] fix: guard_alloc returned a bogus block for sizes close
 to SIZE_MAX

---
 include/guard_alloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/guard_alloc.c b/include/guard_alloc.c
index 95c2845..62fe91a 100644
--- a/include/guard_alloc.c
+++ b/include/guard_alloc.c
@@ -14,6 +14,7 @@ static const size_t guard_alloc_pagesize = PAGE_SIZE;
 
 static void *guard_alloc(size_t n) {
 	size_t ps = guard_alloc_pagesize, pages = n/ps + !!(n%ps);
+	if(n > SIZE_MAX - 2*ps) return 0;
 	char *mem = mmap(0, (pages+1)*ps, PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
 	if(mem == MAP_FAILED) return 0;
 	if(mprotect(mem + pages*ps, ps, PROT_NONE)) {
-- 
2.43.0


From c433dc107b8554be059ce432960e1d55f839e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 46/61] fix: isnumericipv4 accepted a trailing dot instead of
 the fourth number

---
 src/strlib/isnumericipv4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strlib/isnumericipv4.c b/src/strlib/isnumericipv4.c
index c6280d4..4912160 100644
--- a/src/strlib/isnumericipv4.c
+++ b/src/strlib/isnumericipv4.c
@@ -22,7 +22,7 @@ int isnumericipv4(const char* ipstring) {
 		x++;
 	}
 	done:
-	if(d == 3 && n >= 4 && n <= 12) return 1;
+	if(!wasdot && d == 3 && n >= 4 && n <= 12) return 1;
 	return 0;
 }
 
-- 
2.43.0


From 90541d2f18a7ec1b96c00039af7e2ddef8bd7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:39 +0000
Subject: [PATCH 47/61] fix: filelist_search: default directory outlives the
 block of its literal

---
 src/filelist/filelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filelist/filelist.c b/src/filelist/filelist.c
index df65372..dfd4294 100644
--- a/src/filelist/filelist.c
+++ b/src/filelist/filelist.c
@@ -36,10 +36,11 @@ int filelist_search(filelist* l, stringptr* dir, stringptr* mask, int flags) {
 	int ret;
 	size_t i;
 	stringptr temp, *s = &temp;
+	stringptr here = SPINITIALIZER("./");
 	int isdir;
 	int defaultflags = (flags & FLF_INCLUDE_HIDDEN) ? GLOB_PERIOD : 0;
 
-	if(!dir || !dir->size) dir = SPL("./");
+	if(!dir || !dir->size) dir = &here;
 
 	if(!l || !mask || !mask->size || mask->size + dir->size + (dir->ptr[dir->size -1] != '/') + 1U > sizeof(buf)) return -1;
 	i = cpystr_escape(buf, dir->ptr, dir->size);
-- 
2.43.0


From 11828b555c1e3aed4679fbec3216e5c006482b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:47 +0000
Subject: [PATCH 48/61] fix: op_get took every argument for the value of an
 empty option name and read past it

---
 src/optparser/op_get.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optparser/op_get.c b/src/optparser/op_get.c
index f813fc7..51e3065 100644
--- a/src/optparser/op_get.c
+++ b/src/optparser/op_get.c
@@ -7,7 +7,7 @@ static size_t strleneq(const char* str) {
 		str++;
 		l++;
 	}
-	if(!*str) return 0;
+	if(!*str) return (size_t) -1;
 	return l;
 }
 
@@ -22,7 +22,7 @@ char* op_get(op_state* p, stringptr* arg) {
 			l = strleneq(s);
 			if(l == arg->size && !memcmp(arg->ptr, s, l))
 				return s + l + 1;
-			else if(!l && !strcmp(arg->ptr, s) && i+1 < p->argc)
+			else if(l == (size_t) -1 && !strcmp(arg->ptr, s) && i+1 < p->argc)
 				return p->argv[i+1];
 		}
 	}
-- 
2.43.0


From 95c85a58db73f099f979e043b1c07048e7305110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:37 +0000
Subject: [PATCH 49/61] fix: bmap_delete and hbmap_delete evaluate the position
 once

bmap_delete(m, bmap_getsize(m)-1) and bmap_delete(m, bmap_find(m, k)) used
different positions for the key and the value list, because the position
was evaluated again after the key was gone.
---
 include/bmap.h  | 6 +++---
 include/hbmap.h | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index e066a6d..0e16311 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -141,9 +141,9 @@ static inline void* bmap_new(bmap_compare_func fn) {
 	)
 
 #define bmap_delete(X, POS) ( \
-	(X)->tmp.ss = POS, \
-	tglist_delete(&(X)->keys, POS), \
-	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, POS) \
+	(X)->tmp.ss = (POS), \
+	tglist_delete(&(X)->keys, (X)->tmp.ss), \
+	bmap_cat(VAL_LIST_TYPE, _delete)(&(X)->values, (X)->tmp.ss) \
 	)
 
 static ssize_t bmap_find_impl(void* bm, const void* key, size_t keysize) {
diff --git a/include/hbmap.h b/include/hbmap.h
index 6f01369..6d4c074 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -167,6 +167,8 @@ static hbmap_iter hbmap_next_valid_impl(void *h, hbmap_iter iter, size_t nbucks)
 	)
 
 #define hbmap_delete(X, ITER) ( \
-	bmap_delete(&(X)->buckets[hbmap_iter_bucket(ITER)], hbmap_iter_index(ITER)), 1)
+	(X)->tmp.it = (ITER), \
+	bmap_delete(&(X)->buckets[hbmap_iter_bucket((X)->tmp.it)], \
+		hbmap_iter_index((X)->tmp.it)), 1)
 
 #endif
-- 
2.43.0


From c58a4a96e1b4af086c24a2f7f27d4d61ceca3917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:06 +0000
Subject: [PATCH 50/61] fix: op_get compares the option name by its size, as a
 slice need not be terminated

---
 src/optparser/op_get.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optparser/op_get.c b/src/optparser/op_get.c
index 51e3065..b94c49f 100644
--- a/src/optparser/op_get.c
+++ b/src/optparser/op_get.c
@@ -22,7 +22,7 @@ char* op_get(op_state* p, stringptr* arg) {
 			l = strleneq(s);
 			if(l == arg->size && !memcmp(arg->ptr, s, l))
 				return s + l + 1;
-			else if(l == (size_t) -1 && !strcmp(arg->ptr, s) && i+1 < p->argc)
+			else if(l == (size_t) -1 && strlen(s) == arg->size && !memcmp(arg->ptr, s, arg->size) && i+1 < p->argc)
 				return p->argv[i+1];
 		}
 	}
-- 
2.43.0


From 0d1aa56a75706a2df33fa589db5a4d90783af150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:41 +0000
Subject: [PATCH 51/61] fix: puts from stdio-repl.h ends the line, as puts does

---
 include/stdio-repl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdio-repl.h b/include/stdio-repl.h
index 029dac2..80abdd7 100644
--- a/include/stdio-repl.h
+++ b/include/stdio-repl.h
@@ -44,6 +44,6 @@
 #define dprintf(...) ulz_fprintf(__VA_ARGS__)
 
 #define perror(x) log_puterror(2, x)
-#define puts(x) log_putc(1, x)
+#define puts(x) (log_putc(1, x), log_putln(1))
 
 #endif
-- 
2.43.0


From b268791489badd3bbc905c1656d25440ab273f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 52/61] fix: hbmap_init and hbmap_fini do not capture the
 caller's variables p and i

---
 include/hbmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hbmap.h b/include/hbmap.h
index 6d4c074..ca14bf3 100644
--- a/include/hbmap.h
+++ b/include/hbmap.h
@@ -52,9 +52,9 @@ struct NAME { \
 #define hbmap_init_impl(X, COMPAREFUNC, HASHFUNC, NUMBUCKETS) do{\
 	memset(X, 0, hbmap_struct_size_impl(NUMBUCKETS)); \
 	((hbmap_proto(1)*)(void*)(X))->hash_func = (void*)HASHFUNC; \
-	bmap_proto *p = (void*)(&((hbmap_proto(1)*)(void*)(X))->buckets[0]); \
-	size_t i; for(i=0; i<NUMBUCKETS; ++i) \
-		p[i].compare = COMPAREFUNC; \
+	bmap_proto *hbmap_p__ = (void*)(&((hbmap_proto(1)*)(void*)(X))->buckets[0]); \
+	size_t hbmap_i__; for(hbmap_i__=0; hbmap_i__<NUMBUCKETS; ++hbmap_i__) \
+		hbmap_p__[hbmap_i__].compare = COMPAREFUNC; \
 	} while(0)
 
 /* initialization */
@@ -78,8 +78,8 @@ static inline void* hbmap_new(bmap_compare_func fn, void* hash_func, size_t numb
   3: 0+free both
 */
 #define hbmap_fini(X, FREEFLAGS) do { \
-	size_t i; for(i=0; i < hbmap_getbucketcount(X); ++i) \
-		{ bmap_fini(&(X)->buckets[i], FREEFLAGS); } \
+	size_t hbmap_i__; for(hbmap_i__=0; hbmap_i__ < hbmap_getbucketcount(X); ++hbmap_i__) \
+		{ bmap_fini(&(X)->buckets[hbmap_i__], FREEFLAGS); } \
 } while(0)
 
 /* internal stuff needed for iterator impl */
-- 
2.43.0


From c06969952dca80ea6dde36c4bb1fcc5529037229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 53/61] fix: bmap_fini takes any expression as free flags

---
 include/bmap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bmap.h b/include/bmap.h
index 0e16311..67987ee 100644
--- a/include/bmap.h
+++ b/include/bmap.h
@@ -94,8 +94,8 @@ static inline void* bmap_new(bmap_compare_func fn) {
   3: 0+free both
 */
 #define bmap_fini(X, FREEFLAGS) do { \
-	if(FREEFLAGS & 1) {tglist_free_values(&(X)->keys);} \
-	if(FREEFLAGS & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
+	if((FREEFLAGS) & 1) {tglist_free_values(&(X)->keys);} \
+	if((FREEFLAGS) & 2) {bmap_cat(VAL_LIST_TYPE, _free_values)(&(X)->values);} \
 	tglist_free_items(&(X)->keys); \
 	bmap_cat(VAL_LIST_TYPE, _free_items)(&(X)->values); \
 } while(0)
-- 
2.43.0


From 1589b8f6c1f1f184b7ffecdc39931828c8a484cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 54/61] fix: BASE64ENC_BYTES and BASE64DEC_BYTES take any
 expression as size

---
 include/strlib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strlib.h b/include/strlib.h
index 8e2f6ca..db15416 100644
--- a/include/strlib.h
+++ b/include/strlib.h
@@ -80,13 +80,13 @@ extern const size_t conv_cypher_len;
 extern const char base64_tbl[64];
 
 /* calculates number of bytes base64-encoded stream of N bytes will take. */
-#define BASE64ENC_BYTES(N) (((N+2)/3)*4)
+#define BASE64ENC_BYTES(N) ((((N)+2)/3)*4)
 /* calculates the required output buffer size to base64-encode
  * N bytes (equals BASE64ENC_BYTES + 1 byte for the zero terminator) */
 #define BASE64ENC_BUFSIZE(N) (1+BASE64ENC_BYTES(N))
 /* calculates number of bytes base64-decoding of a string of N bytes will
    take. */
-#define BASE64DEC_BYTES(N) ((N/4)*3)
+#define BASE64DEC_BYTES(N) (((N)/4)*3)
 /* bytes required for base64 decoded output from an input string of length N */
 #define BASE64DEC_BUFSIZE(N) (1+BASE64DEC_BYTES(N))
 
-- 
2.43.0


From a6a0aca2a3828e8f9cf600564a55dc3afc8eb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:34 +0000
Subject: [PATCH 55/61] fix: BYTEM and BYTEL take any expressions as bits

---
 include/bitarray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitarray.h b/include/bitarray.h
index 7c0ec85..33b69b4 100644
--- a/include/bitarray.h
+++ b/include/bitarray.h
@@ -13,8 +13,8 @@
 #include <stddef.h>
 #include <limits.h>
 
-#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
-#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)(lsb | b1 << 1 | b2 << 2 | b3 << 3 | b4 << 4 | b5 << 5 | b6 << 6 | msb << 7))
+#define BYTEM(msb, b6, b5, b4, b3, b2, b1, lsb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
+#define BYTEL(lsb, b1, b2, b3, b4, b5, b6, msb) ((unsigned char)((lsb) | (b1) << 1 | (b2) << 2 | (b3) << 3 | (b4) << 4 | (b5) << 5 | (b6) << 6 | (msb) << 7))
 
 #define BA_SIZE_REQUIRED(X) (((X) / CHAR_BIT) + !!((X) % CHAR_BIT))
 #define BA_TARGET_BYTE(X, Y) ((X) + ((Y) / CHAR_BIT))
-- 
2.43.0


From 023b0bf27740019431e9274fbe4e436e6f2805f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:47 +0000
Subject: [PATCH 56/61] fix: ulz_vsnprintf emits the character for %c of value
 0, as POSIX printf does

---
 src/format/ulz_vsnprintf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/format/ulz_vsnprintf.c b/src/format/ulz_vsnprintf.c
index 74c6b3a..5ecf1e6 100644
--- a/src/format/ulz_vsnprintf.c
+++ b/src/format/ulz_vsnprintf.c
@@ -51,9 +51,12 @@ ssize_t ulz_vsnprintf(char* dest, size_t destsize, const char* format, va_list a
 					break;
 				case 'c':
 					cbuf[0] = (unsigned char) va_arg(ap, int);
-					cbuf[1] = 0;
-					ins = cbuf;
-					goto strmove;
+					if(o < omax) {
+						*o = cbuf[0];
+						o++;
+						res++;
+					} else if(!o) res++;
+					break;
 				case 'd':
 					nflags = NTS_SIGNED_TYPE;
 					inn = va_arg(ap, int);
-- 
2.43.0


From 83aa0c3c04d05c40066d8b52ccf03f0d9131c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 57/61] fix: write all of a log message when write() is
 interrupted or takes only a part

---
 src/logger/log_putd.c  |  4 +---
 src/logger/log_putln.c |  4 ++--
 src/logger/log_puts.c  | 11 +++++++++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/logger/log_putd.c b/src/logger/log_putd.c
index 8821903..9d1d415 100644
--- a/src/logger/log_putd.c
+++ b/src/logger/log_putd.c
@@ -1,10 +1,8 @@
 #include "../../include/logger.h"
 #include "../../include/strlib.h"
-#include <unistd.h>
 
 void log_putd(int fd, uint64_t number, int signflag) {
 	char buf[32];
 	char* cnv = numberToString(number, 10, buf, 0, signflag ? NTS_SIGNED_TYPE : 0);
-	if(cnv)
-		write(fd, cnv, strlen(cnv));
+	log_putc(fd, cnv);
 }
diff --git a/src/logger/log_putln.c b/src/logger/log_putln.c
index ae90351..123a616 100644
--- a/src/logger/log_putln.c
+++ b/src/logger/log_putln.c
@@ -1,5 +1,5 @@
-#include <unistd.h>
+#include "../../include/logger.h"
 
 void log_putln(int fd) {
-	write(fd, "\n", 1);
+	log_puts(fd, SPLITERAL("\n"));
 }
diff --git a/src/logger/log_puts.c b/src/logger/log_puts.c
index bcef57c..9994b7d 100644
--- a/src/logger/log_puts.c
+++ b/src/logger/log_puts.c
@@ -1,7 +1,14 @@
 #include <unistd.h>
+#include <errno.h>
 #include "../../include/logger.h"
 
 void log_puts(int fd, stringptr* s) {
-	if(!s || !s->size) return;
-	write(fd, s->ptr, s->size);
+	size_t done = 0;
+	ssize_t n;
+	if(!s) return;
+	while(done < s->size) {
+		n = write(fd, s->ptr + done, s->size - done);
+		if(n > 0) done += n;
+		else if(n == 0 || errno != EINTR) return;
+	}
 }
-- 
2.43.0


From d3c950c22d2cf30fdb9b08c628e3b6a4f1adacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:12 +0000
Subject: [PATCH 58/61] fix: normalizepath: do not look at bytes behind the end
 of the path

---
 src/filelib/normalizepath.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filelib/normalizepath.c b/src/filelib/normalizepath.c
index 85d9b89..71eb654 100644
--- a/src/filelib/normalizepath.c
+++ b/src/filelib/normalizepath.c
@@ -18,16 +18,16 @@ int normalizepath(stringptr* path) {
 	for(i = 0; i < path->size; i++) {
 		switch(path->ptr[i]) {
 			case '/':
-				while(path->ptr[i+1] == '/') i++;
+				while(i + 1 < path->size && path->ptr[i+1] == '/') i++;
 				if(!out.size || out.ptr[out.size -1] != '/') goto copy;
 				break;
 			case '.':
 				if(!i || !out.size) goto fail;
 				else if(path->ptr[i-1] == '/' && out.ptr[out.size -1] == '/') {
 					out.size--;
-					switch(path->ptr[i+1]) {
+					switch(i + 1 < path->size ? path->ptr[i+1] : 0) {
 						case '.':
-							if((!path->ptr[i+2] || path->ptr[i+2] == '/')) {
+							if(i + 2 >= path->size || !path->ptr[i+2] || path->ptr[i+2] == '/') {
 								if((tmp = stringptr_rchr(&out, '/'))) {
 									out.size = tmp - out.ptr;
 									i += 2;
-- 
2.43.0


From 9b1b0f814afc2c4efa6df3f19bde60e0d94267f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:37 +0000
Subject: [PATCH 59/61] fix: printf and fprintf replacements continue after
 partial or interrupted writes

---
 src/format/ulz_fprintf.c | 12 ++++++++++--
 src/format/ulz_printf.c  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/format/ulz_fprintf.c b/src/format/ulz_fprintf.c
index 708e68e..43c8dd3 100644
--- a/src/format/ulz_fprintf.c
+++ b/src/format/ulz_fprintf.c
@@ -1,15 +1,23 @@
 #include <stdarg.h>
 #include <unistd.h>
+#include <errno.h>
 #include "../../include/format.h"
 
 PRINTF_FORMAT2
 void ulz_fprintf(int fd, const char* fmt, ...) {
 	char dest[4096];
+	char *p = dest;
+	ssize_t n;
 	va_list ap;
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result > 0) {
-		write(fd, dest, result);
+	while(result > 0) {
+		n = write(fd, p, result);
+		if(n > 0) {
+			p += n;
+			result -= n;
+		}
+		else if(n == 0 || errno != EINTR) break;
 	}
 }
diff --git a/src/format/ulz_printf.c b/src/format/ulz_printf.c
index 0b1c5dd..d78f8e6 100644
--- a/src/format/ulz_printf.c
+++ b/src/format/ulz_printf.c
@@ -1,15 +1,23 @@
 #include <stdarg.h>
 #include <unistd.h>
+#include <errno.h>
 #include "../../include/format.h"
 
 PRINTF_FORMAT1
 void ulz_printf(const char* fmt, ...) {
 	char dest[4096];
+	char *p = dest;
+	ssize_t n;
 	va_list ap;
 	va_start(ap, fmt);
 	ssize_t result = ulz_vsnprintf(dest, sizeof(dest), fmt, ap);
 	va_end(ap);
-	if(result > 0) {
-		write(1, dest, result);
+	while(result > 0) {
+		n = write(1, p, result);
+		if(n > 0) {
+			p += n;
+			result -= n;
+		}
+		else if(n == 0 || errno != EINTR) break;
 	}
 }
-- 
2.43.0


From 1de2e9910c0cb7cdfeab7849b04d3e66dd01f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:37 +0000
Subject: [PATCH 60/61] fix: log_puterror prints no separator when there is no
 text, like perror

---
 src/logger/log_puterror.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logger/log_puterror.c b/src/logger/log_puterror.c
index 91b053d..2a8234a 100644
--- a/src/logger/log_puterror.c
+++ b/src/logger/log_puterror.c
@@ -3,8 +3,10 @@
 
 void log_puterror(int fd, const char* err) {
 	int no = errno;
-	log_putc(fd, err);
-	log_puts(fd, SPLITERAL(": "));
+	if(err && *err) {
+		log_putc(fd, err);
+		log_puts(fd, SPLITERAL(": "));
+	}
 	log_putc(fd, strerror(no));
 	log_putln(fd);
 }
-- 
2.43.0


From 4c81c3e311c2aa7b65950048347673f1b30e5204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:37 +0000
Subject: [PATCH 61/61] fix: stringptr_tofile does not loop forever when write
 accepts nothing

---
 src/stringptr/stringptr_tofile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringptr/stringptr_tofile.c b/src/stringptr/stringptr_tofile.c
index f391894..3616fb9 100644
--- a/src/stringptr/stringptr_tofile.c
+++ b/src/stringptr/stringptr_tofile.c
@@ -23,7 +23,7 @@ size_t stringptr_tofile(char* filename, stringptr* buffer) {
 	while(bufpos < buffer->size) {
 		togo = buffer->size - bufpos;
 		if((ret = write(f, buffer->ptr+bufpos,
-	            togo > chunksize ? chunksize : togo)) < 0) break;
+	            togo > chunksize ? chunksize : togo)) <= 0) break;
 		bufpos += ret;
 	}
 	close(f);
-- 
2.43.0

