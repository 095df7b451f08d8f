From 638a2e91597f938bed8355623750ef174a48e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 01/36] fix: sc_map_init() must fail if capacity cannot be
 rounded up to a power of two

Initial capacities above 2^31 were rounded up to zero, init returned success
with a map without any slot and the first access was out of bounds.
---
 map/sc_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..b55ba39 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -107,6 +107,11 @@
 		}                                                              \
 		v++;                                                           \
                                                                                \
+		/* Next power of two does not fit into 32 bits */              \
+		if (v == 0) {                                                  \
+			return NULL;                                           \
+		}                                                              \
+                                                                               \
 		*cap = v;                                                      \
 		t = sc_map_calloc(v + 1, sizeof(*t));                          \
 		return t ? &t[1] : NULL;                                       \
-- 
2.43.0


From e409cce8684e235ea2da127d34816614b9cb5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 02/36] fix: failed sc_map_put() must not report a previous
 value

On out of memory, 'found' kept the result of an earlier call, so the caller was
told that the returned zero is the replaced value.
---
 map/sc_map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index b55ba39..474cf2d 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -226,6 +226,7 @@
                                                                                \
 		if (!sc_map_remap_##name(m)) {                                 \
 			m->oom = true;                                         \
+			m->found = false;                                      \
 			return 0;                                              \
 		}                                                              \
                                                                                \
-- 
2.43.0


From 385f731423ccd81bbe9ee727d60460c2f5874037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 03/36] fix: failed sc_heap_add() must not change the heap

Size was incremented before the allocation, so after an out of memory failure
the heap reported one element too many and pop returned garbage.
---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From 81992bd48828007c83e710b894f49b64f2b18742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 04/36] fix: queue must accept elements again after a failed
 add

The out of memory flag was only reset when the queue grew, so once an add had
failed, every later add failed as well even if there was room again.
---
 queue/sc_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..53f5a6c 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -68,6 +68,8 @@
 		size_t _pos = ((q)->last + 1) & ((q)->cap - 1);                \
 		void *_dst, *_src;                                             \
                                                                                \
+		(q)->oom = (q)->elems == NULL;                                 \
+                                                                               \
 		if (_pos == (q)->first) {                                      \
 			if ((q)->cap > SC_QUEUE_MAX / 2ul) {                   \
 				(q)->oom = true;                               \
-- 
2.43.0


From 4ecbaf8e4a7c2cd0977ab5b450ffa07217705b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 05/36] fix: timers must not drift and timeouts are relative to
 the latest timestamp

---
 timer/sc_timer.c | 18 ++++++++++++------
 timer/sc_timer.h |  3 ++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 81e02e9..a2d72d1 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -44,6 +44,7 @@
 void sc_timer_init(struct sc_timer *t, uint64_t timestamp)
 {
 	*t = (struct sc_timer){
+		.now = timestamp,
 		.timestamp = timestamp,
 	};
 }
@@ -53,6 +54,7 @@ void sc_timer_term(struct sc_timer *t)
 	sc_timer_free(t->list);
 
 	*t = (struct sc_timer){
+		.now = t->now,
 		.timestamp = t->timestamp,
 	};
 }
@@ -114,7 +116,8 @@ static bool expand(struct sc_timer *t)
 uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 		      void *data)
 {
-	const uint32_t offset = (uint32_t) (timeout / TICK + t->head);
+	const uint64_t time = timeout + (t->now - t->timestamp);
+	const uint32_t offset = (uint32_t) (time / TICK + t->head);
 	const uint32_t pos = offset & (WHEEL_COUNT - 1);
 	uint64_t id;
 	uint32_t seq, index, wheel_pos;
@@ -135,7 +138,7 @@ uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 	assert(t->list[index].timeout == SC_TIMER_INVALID);
 
 out:
-	t->list[index].timeout = timeout + t->timestamp;
+	t->list[index].timeout = timeout + t->now;
 	t->list[index].type = type;
 	t->list[index].data = data;
 
@@ -171,12 +174,15 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 	uint32_t wheels = (uint32_t) (sc_timer_min(time / TICK, WHEEL_COUNT));
 	struct sc_timer_data *item;
 
+	t->now = timestamp;
+
 	if (wheels == 0) {
 		return sc_timer_min(TICK - time, TICK);
 	}
 
-	t->timestamp = timestamp;
-	t->head = (t->head + wheels) & (WHEEL_COUNT - 1);
+	// Advance by whole ticks, the remainder counts for the next tick.
+	t->timestamp += time - (time % TICK);
+	t->head = (uint32_t) (t->head + time / TICK) & (WHEEL_COUNT - 1);
 
 	while (wheels-- > 0) {
 		wheel = t->wheel;
@@ -185,7 +191,7 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 		for (uint32_t i = 0; i < wheel; i++) {
 			item = &t->list[base + i];
 
-			if (item->timeout <= t->timestamp) {
+			if (item->timeout <= timestamp) {
 				timeout = item->timeout;
 				item->timeout = SC_TIMER_INVALID;
 
@@ -201,5 +207,5 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 		head = (head + 1) & (WHEEL_COUNT - 1);
 	}
 
-	return sc_timer_min(TICK - time, TICK);
+	return TICK - (time % TICK);
 }
diff --git a/timer/sc_timer.h b/timer/sc_timer.h
index a7605f2..e7f485d 100644
--- a/timer/sc_timer.h
+++ b/timer/sc_timer.h
@@ -55,7 +55,8 @@ struct sc_timer_data {
 };
 
 struct sc_timer {
-	uint64_t timestamp;
+	uint64_t now;       // latest timestamp given by the user
+	uint64_t timestamp; // start of the current tick
 	uint32_t head;
 	uint32_t wheel;
 	struct sc_timer_data *list;
-- 
2.43.0


From ff69bd36e58ed1ccb4339ddf1b7678d8bd52bc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 06/36] fix: sc_str_replace() with an empty pattern must not
 loop forever

---
 string/sc_str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4d378b9..d167a1f 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -367,6 +367,11 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 	rep_len = strlen(replace);
 	with_len = strlen(with);
 
+	// An empty pattern matches nothing.
+	if (rep_len == 0) {
+		return true;
+	}
+
 	if (rep_len >= UINT32_MAX || with_len >= UINT32_MAX) {
 		return false;
 	}
-- 
2.43.0


From e0f2b5dc670c5836d4013fc8414164183de14241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 07/36] fix: sc_buf bounds checks must not overflow with large
 lengths and positions

---
 buffer/sc_buf.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..91fed02 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -39,6 +39,12 @@
 
 #define NULL_LEN SC_BUF_MAX
 
+// Returns 'true' if 'len' bytes starting from 'pos' are inside of 'end' bytes.
+static bool sc_buf_fits(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return pos <= end && len <= end - pos;
+}
+
 bool sc_buf_init(struct sc_buf *b, uint64_t cap)
 {
 	void *m = NULL;
@@ -101,8 +107,8 @@ bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
-		if (b->ref) {
+	if (!sc_buf_fits(b->wpos, len, b->cap)) {
+		if (b->ref || len > UINT64_MAX - 4095 - b->cap) {
 			goto err;
 		}
 
@@ -253,7 +259,7 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +275,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +293,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +312,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +331,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +346,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +364,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +384,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +458,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_fits(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +512,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_fits(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +591,7 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len == UINT64_MAX || !sc_buf_fits(b->rpos, len + 1, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +610,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +623,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_fits(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From 1c0e71654a4a958e5156ac8d7c3f4527f887fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 08/36] fix: sc_buf_put_fmt() must reserve space for the
 terminating '\0'

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 91fed02..22c1489 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -750,7 +750,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {
 			return;
 		}
 
-- 
2.43.0


From fea5ee8723a96863bd2efad51d7bfb69981de63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 09/36] fix: sc_buf_shrink() must not reallocate referenced
 memory or grow the buffer

---
 buffer/sc_buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 22c1489..a80db66 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -139,11 +139,14 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 
 	sc_buf_compact(b);
 
-	if (len > b->cap || b->wpos >= len) {
+	if (b->ref || len > b->cap || b->wpos >= len) {
 		return true;
 	}
 
 	len = ((len + 4095) / 4096) * 4096;
+	if (len >= b->cap) {
+		return true;
+	}
 
 	tmp = sc_buf_realloc(b->mem, len);
 	if (tmp == NULL) {
-- 
2.43.0


From 23c3a1a3c47ba49ac2da32278c0dccc88c409b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 10/36] fix: failed sc_buf_put_text() must not leave read
 position past write position

---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index a80db66..21833c2 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -819,7 +819,8 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	return;
 
 clean_up:
-	sc_buf_set_wpos(b, 0);
+	b->rpos = 0;
+	b->wpos = 0;
 }
 
 void sc_buf_put_blob(struct sc_buf *b, const void *ptr, uint64_t len)
-- 
2.43.0


From 38678f36be9327ba6edb9705dbc740f05b252821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 11/36] fix: sc_buf_move() must not consume bytes that were not
 copied

---
 buffer/sc_buf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 21833c2..89381b0 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -257,7 +257,9 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	void *from = &src->mem[src->rpos];
 
 	sc_buf_put_raw(dest, from, copy);
-	src->rpos += copy;
+	if (sc_buf_valid(dest)) {
+		src->rpos += copy;
+	}
 }
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
-- 
2.43.0


From 2e483860b0f07f204459e0966d4b24515d93d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 12/36] fix: ini: truncate long lines of a file instead of
 parsing the rest as new lines

---
 ini/sc_ini.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ini/sc_ini.c b/ini/sc_ini.c
index c0901b7..039af73 100644
--- a/ini/sc_ini.c
+++ b/ini/sc_ini.c
@@ -141,7 +141,23 @@ int sc_ini_parse(void *arg, sc_ini_on_item cb, void *arg1,
 
 static char *file_line(void *p, char *buf, size_t size)
 {
-	return fgets(buf, (int) size, (FILE *) p);
+	int c;
+	size_t len = 0;
+	FILE *file = p;
+
+	while ((c = getc(file)) != EOF && c != '\n') {
+		if (len < size) {
+			buf[len++] = (char) c;
+		}
+	}
+
+	if (c == EOF && len == 0) {
+		return NULL;
+	}
+
+	buf[len] = '\0';
+
+	return buf;
 }
 
 static char *string_line(void *p, char *buf, size_t size)
-- 
2.43.0


From ec30f009659099e64efb6c81ecffbb62215332c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 13/36] fix: uri: look for each part only where it can be,
 reject malformed ports and schemes

---
 uri/sc_uri.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 4c0ce36..1435d45 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -54,7 +54,7 @@ struct sc_uri *sc_uri_create(const char *str)
 
 	char *scheme, *userinfo = "", *host = "", *port = "";
 	char *path, *query = "", *fragment = "";
-	char *ptr, *dest, *parse_end;
+	char *ptr, *dest, *parse_end, *end;
 	char *pos = (char *) str;
 	struct sc_uri *uri;
 
@@ -62,6 +62,11 @@ struct sc_uri *sc_uri_create(const char *str)
 		return NULL;
 	}
 
+	// The scheme is not empty and ends before any other part starts.
+	if (ptr == pos || pos + strcspn(pos, "/?#") < ptr) {
+		return NULL;
+	}
+
 	scheme = pos;
 	scheme_len = ptr - str + 1;
 	pos = ptr + 1;
@@ -69,9 +74,10 @@ struct sc_uri *sc_uri_create(const char *str)
 	if (*pos == '/' && *(pos + 1) == '/') {
 		authority_len = 2;
 		pos += authority_len;
+		end = pos + strcspn(pos, "/?#");
 
 		ptr = strchr(pos, '@');
-		if (ptr != NULL) {
+		if (ptr != NULL && ptr < end) {
 			userinfo = pos;
 			userinfo_len = ptr - pos + strlen("@");
 			pos = ptr + 1;
@@ -82,19 +88,21 @@ struct sc_uri *sc_uri_create(const char *str)
 		host_len = ptr - pos + (*host == '[');
 		pos = host + host_len;
 
-		if (*host == '[' && *(host + host_len - 1) != ']') {
+		if (*host == '[' && pos > end) {
 			return NULL;
 		}
 
-		ptr = strchr(pos, ':');
-		if (ptr != NULL) {
-			if (*(ptr + 1) == '\0') {
+		ptr = pos;
+		if (ptr != end) {
+			if (*ptr != ':' || *(ptr + 1) == '\0' ||
+			    strspn(ptr + 1, "0123456789") !=
+				    (size_t) (end - ptr - 1)) {
 				return NULL;
 			}
 
 			errno = 0;
 			val = strtoul(ptr + 1, &parse_end, 10);
-			if (errno != 0 || val > 65536) {
+			if (errno != 0 || val > 65535) {
 				return NULL;
 			}
 
@@ -108,9 +116,8 @@ struct sc_uri *sc_uri_create(const char *str)
 	path_len = strcspn(path, "?#");
 	pos = path + path_len;
 
-	ptr = strchr(pos, '?');
-	if (ptr != NULL) {
-		query = ptr;
+	if (*pos == '?') {
+		query = pos;
 		query_len = strcspn(query, "#");
 		pos = query + query_len;
 	}
-- 
2.43.0


From dbda635dff8f19c12f33bd3774543dc23d453c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 14/36] fix: thread: a thread that could not be started is not
 joined, errors are -1

---
 thread/sc_thread.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 7dd1db1..71145bd 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -135,6 +135,8 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 	rc = pthread_create(&t->id, &attr, fn, arg);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		t->id = 0; // Undefined when there is no thread to join.
+		rc = -1;
 	}
 
 	// This may only fail with EINVAL.
@@ -155,6 +157,7 @@ int sc_thread_join(struct sc_thread *t, void **ret)
 	rc = pthread_join(t->id, &val);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		rc = -1;
 	}
 
 	t->id = 0;
-- 
2.43.0


From d35c76cf29b04eca7f7ec8a688c008cc3cdf63bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 15/36] fix: cond: report failed destruction with a negative
 value as documented

---
 condition/sc_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/condition/sc_cond.c b/condition/sc_cond.c
index d332c40..239536a 100644
--- a/condition/sc_cond.c
+++ b/condition/sc_cond.c
@@ -168,7 +168,7 @@ int sc_cond_term(struct sc_cond *c)
 
 	c->init = false;
 
-	return errno;
+	return errno != 0 ? -1 : 0;
 }
 
 void sc_cond_signal(struct sc_cond *c, void *data)
-- 
2.43.0


From efc678e977cb14f30e7d1b7947b2b06b120874e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 16/36] fix: logger: count the line headers when rotating the
 file

---
 logger/sc_log.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bd5da24..49037e7 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -349,7 +349,7 @@ static int sc_log_print_header(FILE *fp, enum sc_log_level level)
 		return -1;
 	}
 
-	return 0;
+	return rc;
 }
 
 static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
@@ -384,7 +384,8 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		return -1;
 	}
 
-	sc_log.file_size += size;
+	// The header is a part of the file as well.
+	sc_log.file_size += rc + size;
 
 	if (sc_log.file_size > (size_t) SC_LOG_FILE_SIZE) {
 		fclose(sc_log.fp);
@@ -398,7 +399,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		sc_log.file_size = 0;
 	}
 
-	return rc;
+	return 0;
 }
 
 int sc_log_log(enum sc_log_level level, const char *fmt, ...)
-- 
2.43.0


From 05c79bdc9d6ad91d1f349c892c36cb61200a4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 17/36] fix: logger: failed sc_log_init() is negative and
 leaves nothing to terminate

---
 logger/sc_log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index 49037e7..e57fdd4 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -182,11 +182,12 @@ int sc_log_init(void)
 	rc = sc_log_mutex_init(&sc_log.mtx);
 	if (rc != 0) {
 		errno = rc;
+		return -1;
 	}
 
 	sc_log.init = true;
 
-	return rc;
+	return 0;
 }
 
 int sc_log_term(void)
-- 
2.43.0


From 1ebd4a6f206aed67a63c2aa6c7d217c2a4d32984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 18/36] fix: logger: too long file paths set errno

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index e57fdd4..e5f387f 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -281,6 +281,7 @@ int sc_log_set_file(const char *prev, const char *current)
 
 	if (strlen(prev) >= sizeof(sc_log.prev_file) - 1 ||
 	    strlen(current) >= sizeof(sc_log.current_file) - 1) {
+		errno = ENAMETOOLONG;
 		goto error;
 	}
 
-- 
2.43.0


From 85309a4450b5d5b271109085b92273dd1a727121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 19/36] fix: signal: formatting with size 0 writes nothing

---
 signal/sc_signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 030ac75..46487e3 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -103,7 +103,9 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 		switch (*pos) {
 		case '\0': {
-			*out = '\0';
+			if (sz != 0) {
+				*out = '\0';
+			}
 			return (int) (out - buf);
 		}
 		case '%': {
-- 
2.43.0


From db34975910d6a12d7c5d64936a216de524bf9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 20/36] fix: signal: do not write a message that could not be
 formatted

---
 signal/sc_signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 46487e3..2fb6339 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -526,6 +526,10 @@ void sc_signal_log(int fd, char *buf, size_t sz, char *fmt, ...)
 	wr = sc_signal_vsnprintf(buf, sz, fmt, args);
 	va_end(args);
 
+	if (wr < 0) {
+		return;
+	}
+
 	rc = (int) write(fd, buf, (size_t) wr);
 	(void) rc;
 }
-- 
2.43.0


From 980fcbff70a8e6ede1903f2176741b6ce049a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 21/36] fix: signal: a second shutdown signal during the first
 one's handler is not lost

---
 signal/sc_signal.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 2fb6339..e07628c 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -489,6 +489,11 @@ int sc_signal_init(void)
 	rc &= (signal(SIGPIPE, SIG_IGN) != SIG_ERR);
 	rc &= (sigemptyset(&action.sa_mask) == 0);
 
+	// One shutdown signal at a time, otherwise each may think it is the
+	// first one.
+	rc &= (sigaddset(&action.sa_mask, SIGTERM) == 0);
+	rc &= (sigaddset(&action.sa_mask, SIGINT) == 0);
+
 	action.sa_flags = 0;
 	action.sa_handler = sc_signal_on_shutdown;
 
-- 
2.43.0


From a1c2cf76a962dad5d57bd60b8940c794c5b84725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 22/36] fix: sc_mmap_msync() syncs the whole range

---
 memory-map/sc_mmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory-map/sc_mmap.c b/memory-map/sc_mmap.c
index 249ed64..46cda23 100644
--- a/memory-map/sc_mmap.c
+++ b/memory-map/sc_mmap.c
@@ -316,9 +316,10 @@ int sc_mmap_term(struct sc_mmap *m)
 int sc_mmap_msync(struct sc_mmap *m, size_t offset, size_t len)
 {
 	int rc;
-	char *p = (char *) m->ptr + (offset & ~(m->page_size - 1));
+	size_t aligned = offset & ~((size_t) m->page_size - 1);
+	char *p = (char *) m->ptr + aligned;
 
-	rc = msync(p, len, MS_SYNC);
+	rc = msync(p, len + (offset - aligned), MS_SYNC);
 	if (rc != 0) {
 		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
 	}
-- 
2.43.0


From 20e496105f812abd530c5a98a229246084b5d08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 23/36] fix: sc_sock timeouts: milliseconds are not
 microseconds

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f44d7c2..f5ca0a2 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -281,7 +281,7 @@ int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
@@ -301,7 +301,7 @@ int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
-- 
2.43.0


From 21726fc8162e01abf9cac183c9639ca91beea84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 24/36] fix: sc_sock: unix domain sockets honour the blocking
 mode

---
 socket/sc_sock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f5ca0a2..9183db3 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -349,6 +349,11 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 
 		s->fdt.fd = fd;
 
+		rc = sc_sock_set_blocking(s, s->blocking);
+		if (rc != 0) {
+			goto error_unix;
+		}
+
 		rc = sc_sock_bind_unix(s, host);
 		if (rc != 0) {
 			goto error_unix;
@@ -465,6 +470,11 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 
 	strcpy(un.sun_path, addr);
 
+	rc = sc_sock_set_blocking(s, s->blocking);
+	if (rc != 0) {
+		goto err;
+	}
+
 	rc = connect(s->fdt.fd, (struct sockaddr *) &un, sizeof(un));
 	if (rc != 0) {
 		goto err;
-- 
2.43.0


From 89bd42e1a26c1fd978b3712d980897877bd066b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 25/36] fix: sc_sock_listen() refuses a unix path that does not
 fit

---
 socket/sc_sock.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 9183db3..2815fe4 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -322,7 +322,12 @@ static int sc_sock_bind_unix(struct sc_sock *s, const char *host)
 		.sun_family = AF_UNIX,
 	};
 
-	strncpy(addr.sun_path, host, sizeof(addr.sun_path) - 1);
+	if (strlen(host) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
+	strcpy(addr.sun_path, host);
 	sc_unlink(host);
 
 	rc = bind(s->fdt.fd, (struct sockaddr *) &addr, sizeof(addr));
-- 
2.43.0


From 0618f5e5699ed01414af4ba25e3ff9781d7d9914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 26/36] fix: sc_sock_set_blocking() sets the error text

---
 socket/sc_sock.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 2815fe4..d34b990 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -228,11 +228,19 @@ int sc_sock_set_blocking(struct sc_sock *s, bool blocking)
 
 	flags = fcntl(s->fdt.fd, F_GETFL, 0);
 	if (flags == -1) {
-		return -1;
+		goto error;
 	}
 
 	flags = blocking ? (flags & ~O_NONBLOCK) : (flags | O_NONBLOCK);
-	return (fcntl(s->fdt.fd, F_SETFL, flags) == 0) ? 0 : -1;
+	if (fcntl(s->fdt.fd, F_SETFL, flags) != 0) {
+		goto error;
+	}
+
+	return 0;
+
+error:
+	sc_sock_errstr(s, 0);
+	return -1;
 }
 
 #endif
-- 
2.43.0


From bd23c217ce7c5f9d2a3639342841f4ca6901ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 27/36] fix: sc_sock: an unnamed unix address prints as an
 empty string

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index d34b990..9fb5701 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -838,7 +838,7 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getsockname(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
@@ -854,7 +854,7 @@ const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 const char *sc_sock_remote_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getpeername(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
-- 
2.43.0


From f3796cc5e1e954f8c07f590c1a29502de04dc76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 28/36] fix: sc_sock_notify_systemd() refuses a name that does
 not fit

---
 socket/sc_sock.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 9fb5701..739b369 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -177,12 +177,17 @@ int sc_sock_notify_systemd(const char *msg)
 		return -1;
 	}
 
+	if (strlen(s) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	fd = socket(AF_UNIX, SOCK_DGRAM, 0);
 	if (fd < 0) {
 		return -1;
 	}
 
-	strncpy(addr.sun_path, s, sizeof(addr.sun_path) - 1);
+	strcpy(addr.sun_path, s);
 	if (addr.sun_path[0] == '@') {
 		addr.sun_path[0] = '\0';
 	}
-- 
2.43.0


From 10b8533b7c8c62b6edd9180e488a0db390c4eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 29/36] fix: sc_sock_connect() does not report EAGAIN when a
 name is not resolved

---
 socket/sc_sock.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 739b369..a09abeb 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -539,6 +539,7 @@ static int sc_sock_bind_src(struct sc_sock *s, const char *addr,
 
 gai_err:
 	sc_sock_errstr(s, rc);
+	errno = EINVAL;
 	return -1;
 err:
 	sc_sock_errstr(s, 0);
@@ -567,6 +568,8 @@ int sc_sock_connect(struct sc_sock *s, const char *dst_addr,
 	rc = getaddrinfo(dst_addr, dst_port, &inf, &sinfo);
 	if (rc != 0) {
 		sc_sock_errstr(s, rc);
+		// getaddrinfo() might leave EAGAIN, it'd mean "in progress".
+		errno = EINVAL;
 		return -1;
 	}
 
-- 
2.43.0


From fb881d2de71dfee8ea2eee9c763d77102508c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:03 +0000
Subject: [PATCH 30/36] fix: sc_size_to_bytes() accepts the documented "1 KB"
 and rejects negative numbers

---
 sc/sc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sc/sc.c b/sc/sc.c
index e47cad8..003fa50 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -145,6 +145,14 @@ int64_t sc_size_to_bytes(const char *buf)
 		return -1;
 	}
 
+	if (val < 0) {
+		return -1;
+	}
+
+	while (*parse_end == ' ') {
+		parse_end++;
+	}
+
 	count = (int) (end - parse_end);
 
 	switch (count) {
-- 
2.43.0


From 1c5c2f57eab96c64391a11abb669f5067dd48814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 31/36] fix: sc_time_sleep() does not truncate the duration
 before dividing it

---
 time/sc_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/sc_time.c b/time/sc_time.c
index 03e00db..d945197 100644
--- a/time/sc_time.c
+++ b/time/sc_time.c
@@ -151,7 +151,7 @@ int sc_time_sleep(uint64_t millis)
 	int rc;
 	struct timespec t, rem;
 
-	rem.tv_sec = (time_t) millis / 1000;
+	rem.tv_sec = (time_t) (millis / 1000);
 	rem.tv_nsec = (long) (millis % 1000) * 1000000;
 
 	do {
-- 
2.43.0


From 648c9a2fb3eac0f0dab471afb59c80183ce23710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 32/36] fix: sc_perf_start() while running does not drop the
 time measured so far

---
 perf/sc_perf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 14a8320..147d9e7 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -169,6 +169,10 @@ void sc_perf_start(void)
 		init = 1;
 	}
 
+	if (running) {
+		return;
+	}
+
 	sc_perf_assert(prctl(PR_TASK_PERF_EVENTS_ENABLE) == 0);
 
 	start = sy_time_nano();
-- 
2.43.0


From 0572462fc70d080af45ecc5c6473780a6ddb9076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:56 +0000
Subject: [PATCH 33/36] fix: sc_perf: a multiplexed counter is scaled up to the
 whole time enabled

---
 perf/sc_perf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perf/sc_perf.c b/perf/sc_perf.c
index 147d9e7..5a6083d 100644
--- a/perf/sc_perf.c
+++ b/perf/sc_perf.c
@@ -129,7 +129,7 @@ static void sc_read(struct sc_perf_item *items, size_t size)
 			items[i].active = n;
 		}
 
-		items[i].value += (double) fmt.value * n;
+		items[i].value += (double) fmt.value / n;
 	}
 }
 
-- 
2.43.0


From 774329c9cb308a539bbc00f44843f46e03a70454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 34/36] fix: sc_array_del() works with an index variable called
 idx

---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..959445f 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - (_idx) - 1;                    \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From 615aace906ef78c2b458f11d2e44fd007587438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 35/36] fix: sc_timer_add() with a timeout past the end of the
 clock neither fires early nor loses its slot

---
 timer/sc_timer.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index a2d72d1..f73a424 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -116,12 +116,19 @@ static bool expand(struct sc_timer *t)
 uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 		      void *data)
 {
-	const uint64_t time = timeout + (t->now - t->timestamp);
-	const uint32_t offset = (uint32_t) (time / TICK + t->head);
-	const uint32_t pos = offset & (WHEEL_COUNT - 1);
-	uint64_t id;
+	uint64_t id, time;
+	uint32_t offset, pos;
 	uint32_t seq, index, wheel_pos;
 
+	// Expiry time must be representable, 'SC_TIMER_INVALID' marks free slots.
+	if (timeout >= SC_TIMER_INVALID - t->now) {
+		timeout = SC_TIMER_INVALID - 1 - t->now;
+	}
+
+	time = timeout + (t->now - t->timestamp);
+	offset = (uint32_t) (time / TICK + t->head);
+	pos = offset & (WHEEL_COUNT - 1);
+
 	wheel_pos = (pos * t->wheel);
 	for (seq = 0; seq < t->wheel; seq++) {
 		index = wheel_pos + seq;
-- 
2.43.0


From f1c33c0aa7a6a311f7ad9e45d0ea5bf4b1d8123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:03 +0000
Subject: [PATCH 36/36] fix: sc_option_at() with an option that has no letter
 reads past a lone '-'

---
 option/sc_option.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/option/sc_option.c b/option/sc_option.c
index 58ccf50..ce21b08 100644
--- a/option/sc_option.c
+++ b/option/sc_option.c
@@ -50,7 +50,7 @@ char sc_option_at(struct sc_option *opt, int index, char **value)
 	pos++; // Skip first '-'
 	if (*pos != '-') {
 		for (int i = 0; i < opt->count; i++) {
-			if (*pos == opt->options[i].letter &&
+			if (*pos != '\0' && *pos == opt->options[i].letter &&
 			    strchr("= \0", *(pos + 1)) != NULL) {
 				id = *pos;
 				pos++; // skip letter
-- 
2.43.0

