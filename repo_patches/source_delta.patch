From 288cac56137303a5bcf13a19bde52a8ee8860c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 001/118] fix: cancel_event unlinks an event that is not at the
 head of the list

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From fc0f85b94a1a3c39452cbe1dc3d55810bff4eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 002/118] fix: advance unlinks an event before calling it back

---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..98fc52a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Unlink event first, callback may add or cancel events */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From 48f3391e70df00c46e90f088575ecc67e6b6e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 003/118] fix: get_model keeps names inside its buffers and
 resets absent fields

---
 src/conf.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..225801f 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -104,6 +104,9 @@ get_model(struct _option *opt)
     char            temp1[20];
     char            temp2[20];
     int             flags = 0;
+    opt->model = '\0';
+    opt->dash_num = 0;
+    opt->slash_num = 0;
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
@@ -113,7 +116,12 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/') {
+        /* Make sure there is room for character and end of string */
+        if (len >= 19) {
+            fprintf(stderr, "Device name too long\n");
+            return 0;
+        }
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -133,7 +141,6 @@ get_model(struct _option *opt)
             len++;
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
-- 
2.43.0


From e7aad43b1dca0202fb8d6d91ff676fa3be4d629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 004/118] fix: get_addr counts digits so a long address stays
 inside its buffer

---
 src/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 225801f..0f89273 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -194,9 +194,10 @@ get_addr(struct _option *opt)
         return 0;
     p = &temp1[0];
     len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
+    while (len < 19 && isxdigit(*line_ptr)) {
        *p = toupper(*line_ptr);
        p++;
+       len++;
        line_ptr++;
     }
     *p = '\0';
-- 
2.43.0


From 2c37706bb119fb5d03b41403aae81b1a4b8a2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 005/118] fix: get_string stops at the closing quote or end of
 line

---
 src/conf.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 0f89273..1b17cbd 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -238,18 +238,24 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
+    while (len < 1023) {
        if (*line_ptr == '"' && quote) {
            line_ptr++;
            if (*line_ptr == '"') {
-               *p = '"';
+               *p++ = '"';
                line_ptr++;
                len++;
-           } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
+           } else {
                *p = '\0';
                return 1;
            }
        } else {
+           /* Missing closing quote, stop at end of line */
+           if (quote && (*line_ptr == '\n' || *line_ptr == '\0')) {
+               fprintf(stderr, "Missing quote at end of string\n");
+               opt->string[0] = '\0';
+               return 0;
+           }
            if (quote == 0 && (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0')) {
                *p = '\0';
                return 1;
-- 
2.43.0


From ed2d020663b2c3481722ac899ceb1d213c33cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 006/118] fix: get_option accepts comma separators and always
 advances

---
 src/conf.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 1b17cbd..0ebb1ab 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -280,8 +280,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space and option separators */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -289,13 +289,19 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-')) {
        *p = toupper(*line_ptr);
        p++;
        len++;
        line_ptr++;
     }
     *p = '\0';
+    /* Skip over a character that can't start an option, so we always advance */
+    if (len == 0 && *line_ptr != '=') {
+        fprintf(stderr, "Invalid character in option: %c\n", *line_ptr);
+        line_ptr++;
+        return 1;
+    }
     /* Check if we have equals sign */
     if (*line_ptr == '=') {
         line_ptr++;
-- 
2.43.0


From 121cd138fa0e4e01227cf2729282a99c4f23bc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 007/118] fix: get_index reports a missing value as not valid

---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 0ebb1ab..9f8bf92 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -343,7 +343,7 @@ get_index(struct _option *opt, char *list[])
 
     if (opt->string[0] == '\0') {
        fprintf(stderr, "Option %s requires a value\n", opt->opt);
-       return 0;
+       return -1;
     }
 
     for (i = 0; list[i] != NULL; i++) {
-- 
2.43.0


From f5695f8b6f8b5600621481a1dbaf332b3d611c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:38 +0000
Subject: [PATCH 008/118] fix: device lists ignore channel numbers that do not
 exist

---
 src/device/device.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/device/device.c b/src/device/device.c
index 0d6f7d7..3558db0 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -120,6 +120,10 @@ add_chan(struct _device *dev, uint16_t addr)
 
       dev->addr = addr;
       dev->next = NULL;
+      if (ch >= (sizeof(chan)/sizeof(struct _device *))) {
+          log_error("Invalid channel in device address %03x\n", addr);
+          return;
+      }
       /* If channel empty, add it */
       if (chan[ch] == NULL) {
           chan[ch] = dev;
@@ -141,6 +145,9 @@ find_chan(uint16_t addr, uint16_t mask)
       uint16_t    ch = (addr >> 8) & 0x7;
       struct      _device *d;
 
+      if (ch >= (sizeof(chan)/sizeof(struct _device *))) {
+          return NULL;
+      }
       for (d = chan[ch]; d != NULL; d = d->next) {
           if ((d->addr & mask) == (addr & mask))
               return d;
@@ -157,8 +164,8 @@ del_chan(struct _device *dev, uint16_t addr)
       uint16_t    ch = (addr >> 8) & 0x7;
       struct   _device *d;
 
-      /* If channel empty, nothing to do. */
-      if (chan[ch] == NULL) {
+      /* If no such channel or channel empty, nothing to do. */
+      if (ch >= (sizeof(chan)/sizeof(struct _device *)) || chan[ch] == NULL) {
           return;
       }
       /* Check if at head */
-- 
2.43.0


From c7d09929257564d89e9457b972a37bcb4d13517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 009/118] fix: text decks with bytes outside ASCII no longer
 index before the table

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 036d5cd..8ef8438 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -440,7 +440,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                     break;
                 default:
                     log_card_c("%c", c);
-                    temp = ascii_to_hol_029[(int)c];
+                    temp = (c & 0x80) ? 0xf000 : ascii_to_hol_029[(int)c];
                     if (temp & 0xf000)
                         temp = 0xfff;
                     (*image)[col++] = temp & 0xfff;
-- 
2.43.0


From cf73907c297882520d7f32e1fe6073cb8cdd3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 010/118] fix: a truncated binary deck is read to its end
 instead of for ever

---
 src/device/card.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/card.c b/src/device/card.c
index 8ef8438..0d9f54d 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -466,6 +466,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card( "bin\n");
         if (buf->len < 160) {
             (*image)[0] = 0xfff;
+            buf->size = buf->len;
             return;
         }
         /* Move data to buffer */
-- 
2.43.0


From c89c3d2792a2f1abc09969ba30edf025d3466e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 011/118] fix: octal decks keep cards punched only in the first
 column

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 0d9f54d..5267437 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -559,7 +559,7 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
                break;
         }
         /* Check if special card */
-        if (i == 0) {
+        if (i == 0 && ((*image)[0] == 07 || (*image)[0] == 015 || (*image)[0] == 017)) {
             out[outp++] = 'e';
             out[outp++] = 'o';
             if ((*image)[0] == 07) {
-- 
2.43.0


From 516d7a98eb521d2d96b10889b94e776fd35a74bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 012/118] fix: a short ~raw line leaves the rest of the card
 blank

---
 src/device/card.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 5267437..404a13c 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -401,9 +401,8 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 if (buf->buffer[i] >= '0' && buf->buffer[i] <= '7') {
                     (*image)[col] = ((*image)[col] << 3) | (buf->buffer[i] - '0');
                     j++;
-                } else if (buf->buffer[i] == '\n' || buf->buffer[i] == '\r') {
-                   (*image)[0] |= 0xfff;
                 } else {
+                    /* End of line, or not octal, rest of card not punched */
                     break;
                 }
                 if (j == 4) {
-- 
2.43.0


From 86588bc60524f3252c0a45d2c21fa7965f4246b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 013/118] fix: read_deck reads all of a file and no card from
 an empty one

---
 src/device/card.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 404a13c..27f9351 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -671,6 +671,10 @@ read_deck(struct card_context *card_ctx, char *file_name)
                 buf.len += l;
         }
 
+        /* Nothing left, all cards have been read */
+        if (buf.len == 0)
+            break;
+
         /* Allocate space for some more cards if needed */
         if (card_ctx->hopper_cards >= card_ctx->hopper_size) {
             card_ctx->hopper_size += DECK_SIZE;
@@ -698,7 +702,7 @@ read_deck(struct card_context *card_ctx, char *file_name)
         for(i = 0; i < l; i++, j++)
             buf.buffer[i] = buf.buffer[j];
         buf.len -= buf.size;
-    } while (buf.len > 0 && r == 1);
+    } while (r == 1 && (buf.len > 0 || !feof(card_ctx->file)));
 
     /* If there is an error, free just read deck */
     fclose (card_ctx->file);
-- 
2.43.0


From 2f2ca5c987814e4d8e82d70d8039b653f0513044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 014/118] fix: empty_cards punches the cards that are in the
 hopper

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 27f9351..56c6e5d 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -720,7 +720,7 @@ empty_cards(struct card_context *card_ctx)
     /* Flush any cards in hopper out to file */
     if (card_ctx->file != NULL) {
         while (card_ctx->hopper_pos < card_ctx->hopper_cards) {
-            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_cards]);
+            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_pos]);
         }
         fflush(card_ctx->file);
     }
-- 
2.43.0


From a121ebebf902c5da8c6bb204376ebf1a14e01f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 015/118] fix: only a full 160 byte card is taken as binary

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 56c6e5d..4b9546b 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -351,7 +351,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         mode = MODE_TEXT;   /* Default is text */
 
         /* Check buffer to see if binary card in it. */
-        for (i = 0, temp = 0; i < 160 && i <buf->len; i+=2)
+        for (i = 0, temp = 0; i < 160 && (i + 1) < buf->len; i+=2)
             temp |= (uint16_t)(buf->buffer[i] & 0xFF);
         /* Check if every other char < 16 & full buffer */
         if ((temp & 0x0f) == 0 && i == 160)
-- 
2.43.0


From 3523dea2ffb4d4726b0c58237de9cba5a6f5c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 016/118] fix: ascii_to_hol stays inside its table

---
 src/device/card.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 4b9546b..f167f60 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -261,6 +261,8 @@ hol_to_ascii(uint16_t hol)
 uint16_t
 ascii_to_hol(uint8_t ascii)
 {
+    if (ascii & 0x80)
+        return 0xf000;
     return ascii_to_hol_ebcdic[ascii];
 }
 
-- 
2.43.0


From a94a54eb8d524b433d5357477e8ea9883d6f1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 017/118] fix: plus and backslash no longer share card codes
 with & and >

---
 src/device/card.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index f167f60..2054ea1 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -131,8 +131,8 @@ static const uint16_t       ascii_to_hol_ebcdic[128] = {
    /* none   Y28    78      38    Y38    T48    X      58  */
     0x000, 0x482, 0x006, 0x042, 0x442, 0x222, 0x800, 0x012,     /* 40 - 77 */
    /*   (      )      *      +      ,      -      .      / */
-   /* X58    Y58    Y48    X      T38    Y      X38    T1  */
-    0x812, 0x412, 0x422, 0x800, 0x242, 0x400, 0x842, 0x300,
+   /* X58    Y58    Y48    X68    T38    Y      X38    T1  */
+    0x812, 0x412, 0x422, 0x80A, 0x242, 0x400, 0x842, 0x300,
    /*   0      1      2      3      4      5      6      7 */
    /* T      1      2      3      4      5      6      7   */
     0x200, 0x100, 0x080, 0x040, 0x020, 0x010, 0x008, 0x004,
@@ -149,8 +149,8 @@ static const uint16_t       ascii_to_hol_ebcdic[128] = {
    /* Y7     Y8     Y9     T2     T3     T4     T5     T6  */
     0x404, 0x402, 0x401, 0x280, 0x240, 0x220, 0x210, 0x208,
    /*   X      Y      Z      [      \      ]      ^      _ */
-   /* T7     T8     T9     X28    X68    Y28    Y78    X58 */
-    0x204, 0x202, 0x201, 0x882, 0x20A, 0x482, 0x406, 0x212,
+   /* T7     T8     T9     X28    T28    Y28    Y78    X58 */
+    0x204, 0x202, 0x201, 0x882, 0x282, 0x482, 0x406, 0x212,
    /*   `      a      b      c      d      e      f      g */
     0x102, 0xB00, 0xA80, 0xA40, 0xA20, 0xA10, 0xA08, 0xA04,     /* 140 - 177 */
    /*   h      i      j      k      l      m      n      o */
-- 
2.43.0


From 13b5bfe16b62810df132fffe6334a3ee265380b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 018/118] fix: vertical bar translates to the code that prints
 as vertical bar

---
 src/device/xlat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/xlat.c b/src/device/xlat.c
index 63eafab..fc0f81e 100644
--- a/src/device/xlat.c
+++ b/src/device/xlat.c
@@ -58,7 +58,7 @@ const uint8_t ascii_to_ebcdic[128] = {
    /*  p     q     r     s     t     u     v      w */
     0x97, 0x98, 0x99, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6,
    /*  x     y     z     {     |     }     ~   del */
-    0xa7, 0xa8, 0xa9, 0xc0, 0x47, 0xd0, 0xa1, 0x6d,
+    0xa7, 0xa8, 0xa9, 0xc0, 0x4f, 0xd0, 0xa1, 0x6d,
 };
 
 const uint8_t ebcdic_to_ascii[256] = {
-- 
2.43.0


From f436060ec3581fa84445d254d57fb43a204270ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 019/118] fix: auto decks write cards that look like control
 cards in octal

---
 src/device/card.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 2054ea1..9800e8b 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -530,6 +530,9 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
                 ok = 0;
              }
          }
+         /* Text would be read back as a control card */
+         if (out[0] == '~')
+             ok = 0;
          mode = ok?MODE_TEXT:MODE_OCTAL;
     }
 
-- 
2.43.0


From 1b05d7555d22df25efbd16880267cda0c271de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 020/118] fix: a short EBCDIC card keeps its error mark

---
 src/device/card.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 9800e8b..a8ef38e 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -484,13 +484,13 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
 
     case MODE_EBCDIC:
         log_card("ebcdic\n");
-        if (buf->len < 80)
-            (*image)[0] |= 0xfff;
         /* Move data to buffer */
         for (i = 0; i < 80 && i < buf->len; i++) {
             temp = (uint16_t)(buf->buffer[i]) & 0xFF;
             (*image)[i] = ebcdic_to_hol_table[temp];
         }
+        if (buf->len < 80)
+            (*image)[0] |= 0xfff;
         break;
 
     }
-- 
2.43.0


From b33ef8ddcec0de6b9bd5b395f75f6b0cbbc810fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 021/118] fix: a ~ line no longer swallows the card after it

---
 src/device/card.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/card.c b/src/device/card.c
index a8ef38e..1f4d516 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -379,6 +379,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 c = buf->buffer[i];
                 switch (c) {
                 case '\n':
+                    i--;                /* Leave it for end of line scan */
                 case '\0':
                 case '\r':
                     col = 80;
-- 
2.43.0


From f8d42ac9035702106a9e7e698d266f0d3588c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 022/118] fix: end of line scan of a text card stops at the end
 of the data

---
 src/device/card.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 1f4d516..e5631e6 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -453,12 +453,12 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card_c("-%d-", i);
 
         /* Scan to end of line, ignore anything after last column */
-        while (buf->buffer[i] != '\n' && buf->buffer[i] != '\r' && i < buf->len) {
+        while (i < buf->len && buf->buffer[i] != '\n' && buf->buffer[i] != '\r') {
             i++;
         }
-        if (buf->buffer[i] == '\r')
+        if (i < buf->len && buf->buffer[i] == '\r')
             i++;
-        if (buf->buffer[i] == '\n')
+        if (i < buf->len && buf->buffer[i] == '\n')
             i++;
         log_card("]\n");
         break;
-- 
2.43.0


From 27aaca18d319380545a9a4a8a72ff689111a2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 023/118] fix: P7B record at end of data ends instead of being
 read for ever

---
 src/device/tape.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..d35e3f9 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -770,8 +770,15 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       if (r != TAPE_STATUS_OK) {
+                           /* End of data also ends the record */
+                           if (r == TAPE_STATUS_EOT && tape->lrecl == 1)
+                               r = TAPE_STATUS_EOB;
+                           tape->lrecl = 2;
+                           return r;
+                       }
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
-                       r = tape_readbk_byte(tape, data);
+                           r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
                            return TAPE_STATUS_EOB;
                        }
@@ -784,6 +791,13 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_readbk_byte(tape, data);
+                       if (r != TAPE_STATUS_OK) {
+                           /* Load point also ends the record */
+                           if (r == TAPE_STATUS_BOT && tape->lrecl == 1)
+                               r = TAPE_STATUS_EOB;
+                           tape->lrecl = 2;
+                           return r;
+                       }
                        if ((*data & IRG_MASK) != 0) {
                            tape->lrecl = 2;
                        } else {
-- 
2.43.0


From 38501bd5f9ef925e1b5bad2673ea41149a584f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 024/118] fix: rewinding or writing leaves the end of tape

---
 src/device/tape.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index d35e3f9..561e834 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -414,7 +414,7 @@ tape_write_start(struct _tape_buffer *tape)
         return TAPE_STATUS_FILE_ERROR;
      if ((tape->format & WRITE_RING) == 0)
          return TAPE_STATUS_WRP;
-     tape->format &= ~(TAPE_BOT|TAPE_MARK);
+     tape->format &= ~(TAPE_BOT|TAPE_EOT|TAPE_MARK);
      /* Save start of record, to update later */
      tape->parity = 0;
      tape->srec = tape->pos + tape->pos_buff;
@@ -462,7 +462,7 @@ tape_write_mark(struct _tape_buffer *tape)
         return TAPE_STATUS_FILE_ERROR;
      if ((tape->format & WRITE_RING) == 0)
          return TAPE_STATUS_WRP;
-     tape->format &= ~(TAPE_BOT|TAPE_MARK);
+     tape->format &= ~(TAPE_BOT|TAPE_EOT|TAPE_MARK);
      /* Save start of record, to update later */
      tape->srec = tape->pos + tape->pos_buff;
      switch(tape->format & TAPE_FMT) {
@@ -514,7 +514,7 @@ tape_erase_gap(struct _tape_buffer *tape)
         return TAPE_STATUS_FILE_ERROR;
      if ((tape->format & WRITE_RING) == 0)
          return TAPE_STATUS_WRP;
-     tape->format &= ~(TAPE_BOT|TAPE_MARK);
+     tape->format &= ~(TAPE_BOT|TAPE_EOT|TAPE_MARK);
      /* Save start of record, to update later */
      tape->srec = tape->pos + tape->pos_buff;
      switch(tape->format & TAPE_FMT) {
@@ -1007,6 +1007,7 @@ tape_start_rewind(struct _tape_buffer *tape)
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
+    tape->format &= ~TAPE_EOT;
     return TAPE_STATUS_OK;
 }
 
-- 
2.43.0


From eb73802bbd0c55db698b1dcd121d87c2df2a8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 025/118] fix: writing after reading a full buffer no longer
 overwrites earlier data

---
 src/device/tape.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 561e834..4413175 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,9 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From 0f873ce04507def87be5f5b78de3413a55dbe62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 026/118] fix: finishing a record cut short by the end of the
 image does not spin

---
 src/device/tape.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 4413175..0c449e8 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -867,6 +867,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* Make sure we are at end of record. */
                         while (tape->lrecl < tape->orecl) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
@@ -935,6 +937,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         while (tape->lrecl > 0) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                              log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
                         }
                         /* Read in 4 byte trailing record length logical record length */
-- 
2.43.0


From c28f259c908817fdcb1e64543bb60896ec8c063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 027/118] fix: a P7B record written over a longer one is not
 extended by its rest

---
 src/device/tape.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 0c449e8..7619bde 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -964,6 +964,14 @@ tape_finish_rec(struct _tape_buffer *tape)
                    }
                    switch ((tape->format >> FUNC_V) & FUNC_M) {
                    case FUNC_WRITE:
+                        /* Make sure older data after record does not extend it */
+                        r = tape_peek_byte(tape, &lrecl[0]);
+                        if (r == TAPE_STATUS_FILE_ERROR)
+                           return r;
+                        if (r == TAPE_STATUS_OK && (lrecl[0] & IRG_MASK) == 0) {
+                           tape->buffer[tape->pos_buff] |= IRG_MASK;
+                           tape->dirty = 1;
+                        }
                         break;
                    case FUNC_MARK:
                    case FUNC_REW:
-- 
2.43.0


From 636aa11673df8f0bb902da0a356719b0344812c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 028/118] fix: no frames of an earlier record are read at
 either end of the tape

---
 src/device/tape.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 7619bde..64231eb 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -569,10 +569,9 @@ tape_read_forw(struct _tape_buffer *tape)
      log_tape("tape_read_forw %04x %s\n", tape->format, tape->file_name);
      tape->parity = 0;
      tape->format &= ~(TAPE_BOT|TAPE_MARK);
+     tape->format &= ~(FUNC_M << FUNC_V);
      if (tape->format & TAPE_EOT)
         return TAPE_STATUS_EOT;
-     tape->format &= ~(FUNC_M << FUNC_V);
-     tape->format |= FUNC_READ << FUNC_V;
      switch(tape->format & TAPE_FMT) {
      case TYPE_TAP:
      case TYPE_E11:
@@ -646,6 +645,7 @@ tape_read_forw(struct _tape_buffer *tape)
                    tape->lrecl = 0;  /* Flag at beginning of record */
                    break;
      }
+     tape->format |= FUNC_READ << FUNC_V;
      return TAPE_STATUS_OK;
 }
 
@@ -663,11 +663,10 @@ tape_read_back(struct _tape_buffer *tape)
      if (tape->file_name == NULL)
         return TAPE_STATUS_FILE_ERROR;
      tape->format &= ~(TAPE_EOT|TAPE_MARK);
+     tape->format &= ~(FUNC_M << FUNC_V);
      if (tape->format & TAPE_BOT)
         return TAPE_STATUS_BOT;
      tape->parity = 0;
-     tape->format &= ~(FUNC_M << FUNC_V);
-     tape->format |= FUNC_RDBACK << FUNC_V;
      switch(tape->format & TAPE_FMT) {
      case TYPE_TAP:
      case TYPE_E11:
@@ -718,6 +717,7 @@ tape_read_back(struct _tape_buffer *tape)
                    }
                    break;
      }
+     tape->format |= FUNC_RDBACK << FUNC_V;
      return TAPE_STATUS_OK;
 }
 
@@ -741,6 +741,13 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
         return TAPE_STATUS_FILE_ERROR;
      if (tape->format & TAPE_MARK)
          return TAPE_STATUS_MARK;
+     /* If no record was found there is nothing to read */
+     if (((tape->format >> FUNC_V) & FUNC_M) == 0) {
+         if (tape->format & TAPE_EOT)
+             return TAPE_STATUS_EOT;
+         if (tape->format & TAPE_BOT)
+             return TAPE_STATUS_BOT;
+     }
      switch(tape->format & TAPE_FMT) {
      case TYPE_TAP:
      case TYPE_E11:
-- 
2.43.0


From 3f0e2ca8b69c536fcce0556ffcb40640aee16ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 029/118] fix: end of data on a P7B tape is remembered as end
 of tape

---
 src/device/tape.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 64231eb..ae74363 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -630,6 +630,8 @@ tape_read_forw(struct _tape_buffer *tape)
                    tape->srec = tape->pos + tape->pos_buff;
                    r = tape_peek_byte(tape, &lrecl[0]);
                    tape->lrecl = 2;
+                   if (r == TAPE_STATUS_EOT)
+                       tape->format |= TAPE_EOT;
                    if (r != TAPE_STATUS_OK)
                        return r;
                    /* If tape mark, move over it */
-- 
2.43.0


From 8352841c1e9b051b44a3f4307796ba06f91713c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 030/118] fix: 2030 storage protection violation must not clear
 or rewrite storage

---
 src/model2030/cpu2030.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..cbf6f16 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1081,7 +1081,9 @@ cycle_2030()
                             log_mem("Read main %04x %03x %x %d\n", cpu_2030.MN_REG, cpu_2030.R_REG,
                                    cpu_2030.Q_REG & 0xf, inh_stg_prot);
                         }
-                        M[cpu_2030.MN_REG] = 0x00;
+                        /* A protected location is not cleared, it can't be stored into */
+                        if (!protect_loc_cpu_or_mpx)
+                            M[cpu_2030.MN_REG] = 0x00;
                         break;
                    case MPX:
                    case LOCAL:
@@ -1103,8 +1105,13 @@ cycle_2030()
            if (cpu_2030.dead_cycle == 0) {
                switch (sal->CM) {
                case 2:       /* Store */
-                       if (stg_prot_req)
+                       if (stg_prot_req) {
+                           /* Finish memory cycle without storing */
+                           cpu_2030.allow_write = 0;
+                           read_call = 0;
+                           inh_stg_prot = 0;
                            break;
+                       }
                        /* Fall through */
                case 0:       /* Write */
                       /* Do write to memory from this request */
-- 
2.43.0


From 138451d3e5270c24fe81719e66f302e1481d6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 031/118] fix: 2050 EXECUTE must test the base field, not the
 operation code, of its target

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..19ed6d8 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3301,7 +3301,7 @@ cycle_2050()
             s_update &= ~(BIT0|BIT1);     /* <-- */
             if ((cpu_2050.aob_latch & 0x000f0000) == 0)
                 s_update |= BIT0;     /* <-- */
-            if ((cpu_2050.aob_latch & 0xf0000000) == 0)
+            if ((cpu_2050.aob_latch & 0x0000f000) == 0)
                 s_update |= BIT1;     /* <-- */
             if ((cpu_2050.aob_latch >> 28) <= 3) {
                 cpu_2050.SYLS1 = 1;
-- 
2.43.0


From 0181a2f54c69373fb4164ca5fe366d96fd7c07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 032/118] fix: 2050 in ASCII mode must only translate the sign
 or zone inserted from emit

---
 src/model2050/cpu2050.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 19ed6d8..c1491b9 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4034,12 +4034,13 @@ cycle_2050()
                 cpu_2050.G2NEG = 0;
                 break;
         case 12: /* W->MMB(E?)  */
+                /* In ASCII mode only the half that comes from emit is changed */
                 if ((cpu_2050.AMWP & 0x8) != 0) {
-                    if ((cpu_2050.w_bus & 0xf) == 0xc)
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xc)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xa;
-                    if ((cpu_2050.w_bus & 0xf) == 0xd)
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xd)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xb;
-                    if ((cpu_2050.w_bus & 0xf0) == 0xf0)
+                    if (sal->ul == 0 && (cpu_2050.w_bus & 0xf0) == 0xf0)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0x0f) | 0x50;
                 }
                 cpu_2050.M_REG &= ~(0xff << (8 * (3-cpu_2050.MB_REG)));
-- 
2.43.0


From 75744a7464a1ba48ca0a5e53523dcc62148cacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 033/118] fix: 2050 must not access storage beyond its end, and
 must reach all of 512K

---
 src/model2050/cpu2050.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index c1491b9..ce8d257 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -809,7 +809,7 @@ cycle_2050()
                      uint32_t ba = (((SA >> 6) & 0x0f00) | (SA & 0x0Fc)) >> 2;
                      cpu_2050.SDR_REG = cpu_2050.BUMP[ba];
                  } else {
-                     cpu_2050.SDR_REG = M[SA >> 2];
+                     cpu_2050.SDR_REG = (SA <= mem_max) ? M[SA >> 2] : 0;
                 }
              }
              log_mem("mem cycle read 2 %06X %08x i=%d ib=%d b=%d\n", cpu_2050.SAR_REG,
@@ -836,14 +836,14 @@ cycle_2050()
                  if (cpu_2050.bump_mem) {
                      uint32_t ba = (((SA >> 6) & 0x0f00) | (SA & 0x0Fc)) >> 2;
                      cpu_2050.BUMP[ba] = cpu_2050.SDR_REG;
-                 } else {
+                 } else if (SA <= mem_max) {
                      M[SA >> 2] = cpu_2050.SDR_REG;
                  }
              }
              break;
 
     case 0:  /* Memory cycle at system reset */
-             cpu_2050.SDR_REG = M[SA >> 2];
+             cpu_2050.SDR_REG = (SA <= mem_max) ? M[SA >> 2] : 0;
              cpu_2050.mem_state = W1;
     case W1:
              /* Fall through */
@@ -853,14 +853,14 @@ cycle_2050()
                  if (cpu_2050.bump_mem) {
                      uint32_t ba = (((SA >> 6) & 0x0f00) | (SA & 0x0Fc)) >> 2;
                      cpu_2050.BUMP[ba] = cpu_2050.SDR_REG;
-                 } else {
+                 } else if (SA <= mem_max) {
                     M[SA >> 2] = cpu_2050.SDR_REG;
                     if ((SA >> 2) == (cpu_2050.IA_REG >> 2)) {
                         cpu_2050.REFETCH = 1;
                     }
                  }
              }
-             SA = cpu_2050.SAR_REG & 0x3ffff;
+             SA = cpu_2050.SAR_REG & 0xffffff;
 
 
              if (cpu_2050.init_mem | cpu_2050.init_bump_mem) {
@@ -888,7 +888,7 @@ cycle_2050()
         int       i;
         for (i = 0; i < 6; i++) {
             uint32_t pc = i + cpu_2050.IA_REG;
-            uint32_t mm = M[pc >> 2];
+            uint32_t mm = (pc <= mem_max) ? M[pc >> 2] : 0;
             mem[i] = (mm >> (8 * (3 - (pc & 3)))) & 0xff;
         }
 
-- 
2.43.0


From 9d18af50116217d04d3d74c47c4f52b2422644f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 034/118] fix: 2050 storage key lookups must stay inside the
 key array for any address

---
 src/model2050/model2050.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index 694d69a..689e79b 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -98,7 +98,7 @@ extern struct CPU_2050 {
 int         count;
 uint32_t    LS[64];             /* Local storage */
 uint32_t    BUMP[4096];         /* Bump storage */
-uint8_t     MP[256];            /* Storage protection flags */
+uint8_t     MP[8192];           /* Storage protection flags, for any 24 bit address */
 uint8_t     mem_state;          /* Storage cycle state */
 
 
-- 
2.43.0


From 43213448e51ae69d10f5f4a17a4cbc63237a3131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 035/118] fix: 2050 floating point add type result sign follows
 the smaller operand rules

---
 src/model2050/cpu2050.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index ce8d257..338d580 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3421,25 +3421,19 @@ cycle_2050()
                S3 = comp sign when S0 and S1 zero (Multiply or divide).
             */
             /* Stat 4 turned on:
-                   If S0 or S1 and right adder input bit 0 is 1, and carry out bit 1
+                   If S0 or S1 and right adder input bit 0 is 1, and no carry out bit 1
                    If S0 or S1 and carry out bit 1 and either adder left input 0 or S1.
                       But not both. (Add type result minus)
-                   If S0 and S1 == 0 and left adder input bit 0 != right adder input
-                     bit 0 */
-            if ((s_update & (BIT0|BIT1)) != 0 && t1 && t) {
+                      The left bus holds the complement of the left input.
+                   If S0 and S1 == 0 and left adder input bit 0 != right adder
+                     input bit 0 */
+            if ((s_update & (BIT0|BIT1)) != 0) {
+                if (carry_out ? (t2 == ((s_update & BIT1) != 0)) : t1)     /* <-- */
+                    s_update |= BIT4;     /* <-- */
+            } else if (((s_update & BIT3) == 0 && t1 != t2) ||     /* <-- */
+                ((s_update & BIT3) != 0 && t1 == t2)) {     /* <-- */
                 s_update |= BIT4;     /* <-- */
             }
-
-            if (((s_update & (BIT0)) != 0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 == 0 && t2 != 0 && !t && carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 == 0 && t2 != 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0|BIT1)) != 0 && t1 != 0 && t2 == 0 && !t) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 == 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 != 0 && !carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 != 0 && t2 != 0) ||     /* <-- */
-                ((s_update & (BIT0|BIT1|BIT3)) == 0 && t1 != t2) ||     /* <-- */
-                ((s_update & (BIT0|BIT1|BIT3)) == BIT3 && t1 == t2))     /* <-- */
-                s_update |= BIT4;     /* <-- */
             break;
 
     case 28: /* OPPANEL->S47 */
-- 
2.43.0


From 3fc3d1b5a24161caee6b305d2c2ac3a6afa165f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 036/118] fix: 2050 exponent differences of 112 and more are
 not less than 16

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 338d580..09b2d24 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3404,7 +3404,7 @@ cycle_2050()
                 s_update |= BIT7;
             /* Stat 6 turned on:
                    If abs(ED) < 16. */
-            if ((t & 0x70) == 0 || (t & 0x70) == 0x70) {
+            if ((t & 0x70) == (t1 ? 0 : 0x70)) {     /* <-- */
                 s_update |= BIT6;
             }
             t = (carries & CPOS0) != 0;
-- 
2.43.0


From 12f79124b9c4fa5e7ff4354efe110adacd429cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 037/118] fix: 2050 ROS word 022 must branch on S0, long
 unnormalized results with a guard digit became zero

---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index b9449c2..d5b5894 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -53,7 +53,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0020 0 0000 0010 0000  qv104  j1   io    0 000 00 101001 0100 100 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 000001 00001 0  000000
 0021 0 0000 0010 0001  qv540  j3   io    1 100 10 000000 1010 100 00000 0  0  00 111 1 000 00000 000 0  101 00 011 11 11 1 1000 000 1  000 000 0 000001 00001 0  000000
                                          p lu  mv zp     zf   zn  tr    zr ws  sf  p iv  al    wm   up md lb mb dg  ul ur p ce   lx  tc ry  ad   ab     bb    ux ss       92--97
-0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000001 00001 0  000000 00 0000000
+0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000010 00001 0  000000 00 0000000
                                          p lu  mv zp     zf   zn  tr    zr cs sa sf  p ct  al    wl  hc ms  cg mg  ul ur p ce   lx  tc ry  cl    ab     bb    ux ss       92--97
 0023 0 0000 0010 0011  qv110  g2   io    0 001 00 000000 1111 100 00000 0  0  00 111 0 011 00000 000 0  001 11 011 00 00 1 0000 001 1  000 000 0 000000 00000 0  000000
 0024 0 0000 0010 0100  qv105  j1   io    1 000 00 101000 0100 111 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 011100 11010 0  000000
-- 
2.43.0


From fd01fd94f11ebfe4bee538ecfd3dbade79459334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 038/118] fix: 2030 storage range check must use the new
 address, not the previous one

---
 src/model2030/cpu2030.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index cbf6f16..f20e703 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1183,6 +1183,7 @@ cycle_2030()
                    mem_wrap_req = 0;
                    switch (sal->CU) {
                    case 0:
+                       cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) | (cpu_2030.N_REG & 0xff);
                        /* Check if in range of memory */
                        if (((0xFFFF ^ mem_max) & cpu_2030.MN_REG) != 0) {
                             mem_wrap_req = 1;
-- 
2.43.0


From 29032233258bba331ae702c1075f64e22bab8849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 039/118] fix: 2030 operand addresses chosen between local and
 main storage are range checked too

---
 src/model2030/cpu2030.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index f20e703..4704528 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1183,24 +1183,6 @@ cycle_2030()
                    mem_wrap_req = 0;
                    switch (sal->CU) {
                    case 0:
-                       cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) | (cpu_2030.N_REG & 0xff);
-                       /* Check if in range of memory */
-                       if (((0xFFFF ^ mem_max) & cpu_2030.MN_REG) != 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap %04x\n", cpu_2030.MN_REG);
-                       }
-                       if (i_wrap_cpu && sal->CM == 3 && (cpu_2030.H_REG & BIT6) == 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap i wrap\n");
-                       }
-                       if (u_wrap_cpu && sal->CM == 4 && (cpu_2030.H_REG & BIT6) == 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap u wrap\n");
-                       }
-                       if (u_wrap_mpx && sal->CM == 4 && (cpu_2030.H_REG & BIT6) != 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap u wrap\n");
-                       }
                        break;
                    case 1:
                        cpu_2030.store = LOCAL;
@@ -1220,6 +1202,26 @@ cycle_2030()
                            cpu_2030.store = LOCAL;
                        }
                    }
+                   if (cpu_2030.store == MAIN) {
+                       cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) | (cpu_2030.N_REG & 0xff);
+                       /* Check if in range of memory */
+                       if (((0xFFFF ^ mem_max) & cpu_2030.MN_REG) != 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap %04x\n", cpu_2030.MN_REG);
+                       }
+                       if (i_wrap_cpu && sal->CM == 3 && (cpu_2030.H_REG & BIT6) == 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap i wrap\n");
+                       }
+                       if (u_wrap_cpu && sal->CM == 4 && (cpu_2030.H_REG & BIT6) == 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap u wrap\n");
+                       }
+                       if (u_wrap_mpx && sal->CM == 4 && (cpu_2030.H_REG & BIT6) != 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap u wrap\n");
+                       }
+                   }
                    if (!cpu_2030.allow_write && !mem_wrap_req) {
                        read_call = 1;
                    }
-- 
2.43.0


From 74144d98bae91a4635cf6b9c9fbbbd777de1428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 040/118] fix: 2030 selector channel 2 interrupt tested channel
 1's interrupt latch

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 4704528..df27edc 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1408,7 +1408,7 @@ cycle_2030()
            case 0x1A: /* Select interrupt SEL1 -> 0,x SEL2 -> x,0, timer -> 0,0 */
                        if ((cpu_2030.MASK & BIT1) && (sel_intrp_lch[0] || (cpu_2030.GF[0] & BIT4) != 0))
                           nextWX &= 0xffe;
-                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[0] || (cpu_2030.GF[1] & BIT4) != 0))
+                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[1] || (cpu_2030.GF[1] & BIT4) != 0))
                           nextWX &= 0xffd;
                        else if (((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) || timer_update)
                           nextWX &= 0xffc;
-- 
2.43.0


From 480dbfad97b93ed8a8507cf7d8a5e336c74fe1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 041/118] fix: 2030 selector channel hardware used the channel
 microcode last worked on, not the one being scanned

---
 src/model2030/cpu2030.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index df27edc..29abeb6 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -808,7 +808,7 @@ cycle_2030()
            sel_read_cycle[i] = 0;
        } else if (sel_write_cycle[i]) {
            /* If moving backwards, address - 1 */
-           if (cpu_2030.GG[cpu_2030.ch_sel] == 0x10c) {
+           if (cpu_2030.GG[i] == 0x10c) {
                cpu_2030.GHZ = (cpu_2030.GD[i] - 1) & 0xff;
                cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
                if (cpu_2030.GHZ == 0xff)
@@ -2718,7 +2718,7 @@ chan_scan:
 
              /* Set poll control if halt I/O and not chaining requests */
              if (sel_halt_io[i] && sel_chain_req[i] == 0 && sel_intrp_lch[i] == 0) {
-                 sel_poll_ctrl[cpu_2030.ch_sel] = 1;
+                 sel_poll_ctrl[i] = 1;
                  cpu_2030.SEL_TAGS[i] &= ~(CHAN_ADR_OUT);  /* Drop address out */
              }
 
@@ -2752,7 +2752,7 @@ chan_scan:
                              sel_ros_req |= 1 << i;
                              log_selchn("Status chain interrupt\n");
                         } else {
-                             cpu_2030.SEL_TAGS[cpu_2030.ch_sel] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
+                             cpu_2030.SEL_TAGS[i] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
                              log_selchn("Status chain hold\n");
                         }
                    }
-- 
2.43.0


From d9d3fa475c27afe17750e571a1cbbf8d22e1a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 042/118] fix: 2030 selector channel missed incorrect length
 when the device stopped with one byte still buffered

---
 src/model2030/cpu2030.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 29abeb6..b693654 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -199,6 +199,17 @@ static int        sel_status_stop_cond[2];
 static int        sel_chain_req[2];
 static int        sel_chain_det[2];
 
+/* Wrong length when count is not used up, a byte still in GR counts when sending data */
+static int
+sel_length_error(int i)
+{
+    if ((cpu_2030.GF[i] & BIT2) != 0)
+        return 0;
+    if ((cpu_2030.GG[i] & 1) != 0)
+        return sel_cnt_rdy_not_zero[i] || sel_gr_full[i];
+    return sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0;
+}
+
 static int        cg_mask[4] = { 0x00, 0x0f, 0xf0, 0xff };
 
 /* MATCH_SW
@@ -2681,8 +2692,7 @@ chan_scan:
              } else if (((cpu_2030.SEL_TI[i] & (CHAN_STA_IN|CHAN_SRV_OUT)) == (CHAN_STA_IN)) &&
                    sel_poll_ctrl[i] && (cpu_2030.GF[i] & (BIT0|BIT1)) == (0)) {
                  /* Check if length incomplete */
-                 if (sel_cnt_rdy_not_zero[i] &&
-                      sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                 if (sel_length_error(i)) {
                       cpu_2030.GE[i] |= BIT1;
                  }
 
@@ -2758,7 +2768,7 @@ chan_scan:
                    }
                    if ((cpu_2030.GF[i] & (BIT1)) == (0)) {
                         /* Check if length incomplete */
-                        if (sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                        if (sel_length_error(i)) {
                              cpu_2030.GE[i] |= BIT1;
                         }
                         sel_ros_req |= 1 << i;
-- 
2.43.0


From 602c01f25f49c5e9e068d81c888926a632ae151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 043/118] fix: 2030 selector channel let suppress length hide
 incorrect length while data chaining

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index b693654..0baf642 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -203,7 +203,7 @@ static int        sel_chain_det[2];
 static int
 sel_length_error(int i)
 {
-    if ((cpu_2030.GF[i] & BIT2) != 0)
+    if ((cpu_2030.GF[i] & (BIT0|BIT2)) == BIT2)
         return 0;
     if ((cpu_2030.GG[i] & 1) != 0)
         return sel_cnt_rdy_not_zero[i] || sel_gr_full[i];
-- 
2.43.0


From 35efdde8fda80f6388fb5c4f9d32d72ab7fa9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 044/118] fix: 2030 selector channel kept a stale byte and
 count of the previous command when chaining

---
 src/model2030/cpu2030.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 0baf642..1f21ebe 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2206,6 +2206,8 @@ cycle_2030()
            case 0x19:
                    /* Selector R to selector command */
                    cpu_2030.GG[cpu_2030.ch_sel] = cpu_2030.GR[cpu_2030.ch_sel];
+                   sel_gr_full[cpu_2030.ch_sel] = 0;
+                   sel_cnt_rdy_not_zero[cpu_2030.ch_sel] = 0;
                    break;
            case 0x1a:
                    /* Selector R to address U */
-- 
2.43.0


From e6abf7eea7e996c1642d9af5b61d536d69e8e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 045/118] fix: 2030 selector channel ended the data instead of
 waiting for a data chain in progress

---
 src/model2030/cpu2030.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 1f21ebe..a58531e 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2592,7 +2592,7 @@ chan_scan:
 
                  if (sel_cnt_rdy_zero[i] != 0 && sel_gr_full[i] == 0 &&
                      (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) == 0 &&
-                      sel_chan_busy[i]) {
+                     (cpu_2030.GF[i] & BIT0) == 0 && sel_chan_busy[i]) {
                      log_selchn("Read end\n");
                      if ((cpu_2030.GF[i] & BIT2) == 0)
                          cpu_2030.GE[i] |= BIT1;
@@ -2612,7 +2612,7 @@ chan_scan:
                  /* Check for stop condition */
                  if (sel_cnt_rdy_zero[i] != 0 && sel_gr_full[i] == 0 &&
                      (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) == 0 &&
-                      sel_chan_busy[i]) {
+                     (cpu_2030.GF[i] & BIT0) == 0 && sel_chan_busy[i]) {
                      cpu_2030.SEL_TAGS[i] |= CHAN_CMD_OUT;
                      if ((cpu_2030.GF[i] & BIT2) == 0) {  /* Set length error */
                           cpu_2030.GE[i] |= BIT1;
-- 
2.43.0


From 227750dc8a9e4a5f4fe3689d8711f79167ebc9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 046/118] fix: 2030 selector channel chained commands after
 incorrect length or unusual device status

---
 src/model2030/cpu2030.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index a58531e..84afacb 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2759,7 +2759,15 @@ chan_scan:
                  cpu_2030.SEL_TI[i] == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_OPR_IN|CHAN_STA_IN|CHAN_SUP_OUT))) {
                   /* Command chaining */
                    if ((cpu_2030.GF[i] & (BIT1)) != (0)) {
-                        if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
+                        if ((cpu_2030.GI[i] & SNS_CHNEND) != 0 && sel_length_error(i)) {
+                             cpu_2030.GE[i] |= BIT1;
+                        }
+                        if (((cpu_2030.GI[i] & SNS_CHNEND) != 0 && (cpu_2030.GE[i] & BIT1) != 0) ||
+                             (cpu_2030.GI[i] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0) {
+                             /* Length error or unusual status prevents chaining */
+                             sel_ros_req |= 1 << i;
+                             log_selchn("Status ends chain\n");
+                        } else if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
                              sel_chain_req[i] = 1;
                              sel_ros_req |= 1 << i;
                              log_selchn("Status chain interrupt\n");
-- 
2.43.0


From 172ca7ee34196402ae494e58e4c02d16cb112ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 047/118] fix: 2030 selector channel trap did not save the
 channel the microcode was working on

---
 src/model2030/cpu2030.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 84afacb..b7b7bb7 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1445,6 +1445,7 @@ cycle_2030()
            if (cpu_2030.dead_cycle) {
               if (sel_chain_pulse) {
                  cpu_2030.GWX = cpu_2030.WX;
+                 cpu_2030.ch_sav = cpu_2030.ch_sel;
                  cpu_2030.SEL_X6X7 = nextWX & 3;
                  sel_chain_pulse = 0;
                  if (sel_ros_req & 1) {
-- 
2.43.0


From 157c3c9853f81db135f8acdc6a1d213ca1afe5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 048/118] fix: 2050 multiplexor transfer in channel ignores the
 high digit of the command

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 09b2d24..0d91fdc 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4929,7 +4929,7 @@ channel:
                     }
                     if (cpu_2050.BRC == 2) {
                         /* If TIC set IOS1 */
-                        if ((cpu_2050.aob_latch & 0xff000000) == 0x08000000) {
+                        if ((cpu_2050.aob_latch & 0x0f000000) == 0x08000000) {
                            cpu_2050.IOSTAT[3]  |= BIT1;
                         }
                         cpu_2050.ROUTINE[3] = 0xb2; /* RTD4 */
-- 
2.43.0


From 8efd5f0f739ced9ce0355801060bddf35790b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 049/118] fix: 1442 must not keep the parity bit of punch data,
 it indexed past the parity table

---
 src/model1442/model1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..495826b 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -724,7 +724,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
-- 
2.43.0


From 1201b3264cfd247b1eb70ce407d922d40b93ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 050/118] fix: 1442 punch ends at column 80 instead of asking
 for more data

---
 src/model1442/model1442.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 495826b..a4fdddd 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -55,6 +55,7 @@ DEV_LIST_STRUCT(1442, DEV_TYPE, 0);
 #define SENSE_OVRRUN    BIT5  /* Data missed */
 
 static void feed_callback(struct _device *unit, void *arg, int iarg);
+static void device_stop(struct _device *unit);
 
 
 static void
@@ -129,6 +130,12 @@ write_callback(struct _device *unit, void *arg, int iarg)
         ctx->pch_card[ctx->pch_col] |= ebcdic_to_hol(ctx->data);
         ctx->pch_col++;
     }
+    /* Past last column of card, all done */
+    if (ctx->pch_col >= 80) {
+        device_stop(unit);
+        unit->request = 1;
+        return;
+    }
     /* Set that we are ready for another byte of data */
     ctx->data_rdy = 1;
     unit->request = 1;
-- 
2.43.0


From 0b949a3a0a81de8c074d79b3acf16af962aa1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 051/118] fix: 1442 data check on the last card at end of file
 must end in unit check

---
 src/model1442/model1442.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index a4fdddd..a74400c 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -156,6 +156,9 @@ feed_callback(struct _device *unit, void *arg, int iarg)
         ctx->eof_flag = 0;
         /* Move card to punch */
         model1442_feed(ctx);
+        if ((ctx->sense & ~SENSE_INTERV) != 0) {
+            ctx->status |= SNS_UNITCHK;
+        }
         return;
     }
     model1442_feed(ctx);
-- 
2.43.0


From 23f8a3d2b0bbbcb73a47f1f05afd6d1eca0d3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 052/118] fix: 1442 dropped operational in after channel end
 while held by a selector channel

---
 src/model1442/model1442.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index a74400c..4236a4d 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -621,7 +621,11 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  }
 
                  if (ctx->data_end) {
-                     *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                     *tags &= ~(CHAN_STA_IN);
+                     /* Stay connected while selector channel holds us */
+                     if ((*tags & CHAN_HLD_OUT) == 0) {
+                         *tags &= ~(CHAN_OPR_IN);
+                     }
                      ctx->state = STATE_STATUS_WAIT;
                      break;
                  }
-- 
2.43.0


From d8b962f44b7d1f5e5427c234c65ff67c3a755a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 053/118] fix: 1442 halt I/O must stop the punch and end the
 operation with channel end

---
 src/model1442/model1442.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 4236a4d..95a48b4 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -566,7 +566,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      log_device("1442: %03x Halt IO\n",unit->addr);
                      if (ctx->data_end == 0) {
                          ctx->data_rdy = 0;
-                         ctx->data_end = 1;
+                         device_stop(unit);
                          unit->request = 1;
                      }
                  }
@@ -661,9 +661,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* If address out, halt device */
              if ((*tags & CHAN_ADR_OUT) != 0) {
-                 ctx->data_end = 1;
                  ctx->data_rdy = 0;
-                 ctx->status |= SNS_CHNEND;
+                 device_stop(unit);
                  *tags &= ~(CHAN_OPR_IN);
                  unit->selected = 0;
                  ctx->state = STATE_IDLE;
-- 
2.43.0


From b330cdfe1107dcca3874df90d802c78443dd793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 054/118] fix: 1443 skip stopped at the wrong line and ran off
 the carriage tape, spacing lost lines at the end of a form

---
 src/model1443/model1443.c | 80 +++++++++++++--------------------------
 1 file changed, 27 insertions(+), 53 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..230ea48 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -930,6 +930,22 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 }
 
 
+/*
+ * Move paper one line, starting a new form after the last line.
+ */
+static void
+advance_line(struct _1443_context *ctx)
+{
+    fwrite("\r\n", 1, 2, ctx->file);
+    memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+    memset(&ctx->output[14][0], 0, 120);
+    ctx->row++;
+    if (ctx->row >= ctx->lpp) {
+        fwrite("\f", 1, 1, ctx->file);
+        ctx->row = 0;
+    }
+}
+
 /*
  * Print out a line and return number of lines being skipped
  */
@@ -940,7 +956,6 @@ print_line(struct _1443_context *ctx)
     char                out[150];       /* Temp conversion buffer */
     int                 i;
     int                 l = (ctx->cmd >> 3) & 0x1f;
-    int                 f = 1;
     int                 r = 0;          /* Rows skipped */
     int                 time = 0;       /* Amount of time it took to print this line */
     uint16_t            mask;
@@ -977,39 +992,20 @@ print_line(struct _1443_context *ctx)
     }
     fflush(ctx->file);
 
-    f = 1;  /* Indicate we need to output a new line */
     if (l < 4) {
-        while(l != 0) {
-            fwrite("\r\n", 1, 2, ctx->file);
-            memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-            memset(&ctx->output[14][0], 0, 120);
-            r++;
-            f = 0;
-            log_device( " Printer fcb: %04x\n", ctx->fcb[ctx->row]);
+        while(l-- > 0) {
             if ((ctx->fcb[ctx->row] & (0x1000 >> 9)) != 0)
                 ch9 = 1;
             if ((ctx->fcb[ctx->row] & (0x1000 >> 12)) != 0) {
-        log_device( " Printer chan 12\n");
                 ch12 = 1;
             }
-            ctx->row++;
-            if (ctx->row > ctx->lpp)
-                break;
-            l--;
-        }
-        if (ctx->row > ctx->lpp) {
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           if (f)
-               fwrite("\r\n", 1, 2, ctx->file);
-           fwrite("\f", 1, 1, ctx->file);
-           ctx->row = 0;
+            advance_line(ctx);
+            r++;
         }
         if (ch9 && (ctx->cmd & 0x3) == 0x1) {
            ctx->sense |= SENSE_CHAN9;
         }
         if (ch12 && (ctx->cmd & 0x3) == 0x1) {
-        log_device( " Printer chan 12\n");
            ctx->status |= SNS_UNITEXP;
         }
         time += 20 + (5 * r);
@@ -1017,39 +1013,17 @@ print_line(struct _1443_context *ctx)
     }
 
     mask = 0x1000 >> (l & 0xf);  /* Mask which channel to stop at */
-    f = 0;     /* Indicate if we started new form */
     l = 0;     /* Total lines skipped */
-    r = 0;     /* What row we should be on */
-    for (i = ctx->row + 1; (ctx->fcb[i] & mask) == 0 && ctx->row != i; i++) {
-         l++;
-         r++;
-         if (i > ctx->lpp) {
-             log_device("printer skip2 %d > %d\n", i, ctx->lpp);
-             fwrite("\r\n\f", 1, 3, ctx->file);
-             memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-             memset(&ctx->output[14][0], 0, 120);
-             f = 1;
-             r = 0;
-         }
-    }
-
-    /* If we passed over form, clear row */
-    if (f) {
-       ctx->row = 0;
+    /* Find next line with channel punched, can be on the next form */
+    for (i = 1; i <= ctx->lpp; i++) {
+        if ((ctx->fcb[(ctx->row + i) % ctx->lpp] & mask) != 0) {
+            l = i;
+            break;
+        }
     }
 
-    if (ctx->fcb[i] & mask) {
-        while (r-- > 0) {
-           fwrite("\r\n", 1, 2, ctx->file);
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           ctx->row++;
-           if (ctx->row > ctx->lpp) {
-               log_device("printer skip %d > %d\n", ctx->row, ctx->lpp);
-               fwrite("\f", 1, 1, ctx->file);
-               ctx->row = 0;
-           }
-        }
+    for (i = 0; i < l; i++) {
+        advance_line(ctx);
     }
     time += 20 + (5 * l);
     return l;
-- 
2.43.0


From a33f387bbbbe93c4dc26ccc9489cd3fd205a9c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 055/118] fix: 1443 unit check missing from the first cycle of
 ending status

---
 src/model1443/model1443.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 230ea48..dc0822f 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -734,6 +734,9 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if (ctx->busy_flag) {
                 ctx->status |= SNS_CTLEND;
              }
+             if (ctx->sense != 0) {
+                 ctx->status |= SNS_UNITCHK;
+             }
 
              *bus_in = ctx->status | odd_parity[ctx->status];
 
@@ -741,9 +744,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == 0) {
                  log_device("printer End status %02x %02x\n", ctx->status, ctx->cmd);
                  *tags |= CHAN_STA_IN;
-                 if (ctx->sense != 0) {
-                     ctx->status |= SNS_UNITCHK;
-                 }
                  ctx->cmd = 0;
                  break;
              }
-- 
2.43.0


From 06dc4bc961b87cbc14ba6ac3c896fc3e1afb11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 056/118] fix: 2415 write never started, tape_write_start
 returns TAPE_STATUS_OK

---
 src/model2415/model2415.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..6f6769e 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -641,14 +641,14 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            }
            /* Do a write start */
            r = tape_write_start(ctx->tape[ctx->cur_unit]);
-           if (r == 1) {
+           if (r == TAPE_STATUS_OK) {
               ctx->sense[0] = SENSE_WCZERO;
               ctx->sense[1] |= SENSE_WRITE;
               add_event(unit, &tape_callback, START_DELAY,
                        (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
               ctx->cmd_done = 0;
               ctx->data_rdy = 1;
-           } else if (r == 2) {
+           } else if (r == TAPE_STATUS_WRP) {
                ctx->sense[0] = SENSE_CMDREJ;
            } else {
                ctx->sense[0] = SENSE_INTERV;
-- 
2.43.0


From 08cb6e224f3416e68d58915d36105bb82e06f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 057/118] fix: 2415 missing or not ready drive asks for
 intervention, rewinding drive is busy

---
 src/model2415/model2415.c | 43 +++++++++++++++------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 6f6769e..808c921 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -612,6 +612,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     ctx->mrk_flags &= ~(1 << ctx->cur_unit);
     ctx->stat_unit = -1;
     ctx->status = 0;
+    /* While rewinding drive can only be sensed */
+    if ((ctx->sense[1] & (SENSE_TUA|SENSE_TUB)) == (SENSE_TUA|SENSE_TUB) &&
+                (ctx->cmd & 0xf) != 0x4) {
+        ctx->status = SNS_BSY;
+        ctx->cmd = 0;
+        return;
+    }
     switch (ctx->cmd & 0xF) {
     case 0x0: /* Test I/O */
            return;
@@ -620,16 +627,12 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     case 0x5: /* Write */
     case 0x9: /* Write */
     case 0xD: /* Write */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -659,17 +662,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     case 0x6: /* Read */
     case 0xa: /* Read */
     case 0xe: /* Read */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[2] = SENSE_2;
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -686,17 +685,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            break;
 
       case 0xc:  /* Read backwords. */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
 
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -729,15 +724,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x3: /* Mode command */
     case 0xb: /* Mode command */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               ctx->cmd = 0;
-               ctx->cmd_done = 1;
-               ctx->data_end = 1;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[3] = 0;
+           /* Check if tape attached */
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
+               ctx->sense[0] = SENSE_INTERV;
+               break;
+           }
            if ((ctx->sense[1] & SENSE_7TRACK) != 0) {
                switch ((ctx->cmd >> 3) & 07) {
                case 0:      /* NOP */
@@ -774,16 +767,12 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x7:  /* Tape motion control */
     case 0xf:  /* Tape motion control */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
-               ctx->status = SNS_BSY;
-               break;
-           }
            ctx->sense[0] = 0;
            ctx->sense[1] &= (SENSE_TUA|SENSE_TUB|SENSE_7TRACK|
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
-- 
2.43.0


From 8d77baa0656ad48e1c37db7f0a79dc343cb222a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 058/118] fix: 2415 unit accepted an unknown tape format and
 set every tape flag

---
 src/model2415/model2415.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 808c921..d30fb9a 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1366,6 +1366,12 @@ model2415_create(struct _option *opt)
                    ring = 1;
                } else if (strcmp(opts.opt, "FORMAT") == 0) {
                    fmt = get_index(&opts, tape_format_type);
+                   if (fmt < 0) {
+                       free(file);
+                       free(tape->tape[i]);
+                       tape->tape[i] = NULL;
+                       return 0;
+                   }
                } else if (strcmp(opts.opt, "800") == 0) {
                    den = 0;
                } else if (strcmp(opts.opt, "1600") == 0) {
-- 
2.43.0


From ae35c6d26e901547d61c254385a767341a0ae169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 059/118] fix: 2415 presented the address of the wrong drive

---
 src/model2415/model2415.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index d30fb9a..9f34e7c 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -970,7 +970,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
+                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
                          *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
                          *bus_in |= odd_parity[*bus_in];
                          ctx->cur_unit = ctx->t_scan;
@@ -1003,7 +1003,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             unit->request = 0;
 
             log_device("2415: %03x waiting command %02x\n",unit->addr, ctx->status);
-            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            *bus_in = ctx->cur_unit | (unit->addr & 0xf8);
+            *bus_in |= odd_parity[*bus_in];
             /* we get command out, process command */
             if ((*tags & (CHAN_CMD_OUT)) != 0) {
                 *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
-- 
2.43.0


From 0d5e4d2495c526598cd0bdc73a1bb62d8a0bf291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 060/118] fix: 2415 spacing hung at the end of the tape and
 after reading back to load point

---
 src/model2415/model2415.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 9f34e7c..8398e27 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -493,8 +493,10 @@ tape_callback(struct _device *unit, void *arg, int u)
                 r = tape_read_frame(tape, &ctx->data);
                 log_device("space tape %d\n", r);
                 switch(r) {
+                case TAPE_STATUS_EOT:
+                case TAPE_STATUS_BOT:
                 case TAPE_STATUS_FILE_ERROR:
-                     /* Set up read error */
+                     /* Set up read error, or ran off end of tape */
                      ctx->status |= SNS_UNITCHK;
                      add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                      break;
@@ -708,6 +710,10 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            log_device("Tape read back %d : %d\n", ctx->cur_unit, r);
            if (r < 0) {
                ctx->sense[0] = SENSE_INTERV;
+           } else if (r == TAPE_STATUS_BOT) {
+               ctx->cmd = 0;
+               ctx->status |= SNS_UNITCHK;
+               ctx->data_end = 1;
            } else {
                add_event(unit, &tape_callback, START_DELAY,
                      (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
@@ -823,7 +829,10 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                 }
                 /* Do a read start */
                 r = tape_read_back(ctx->tape[ctx->cur_unit]);
-                if (r >= 0) {
+                if (r == TAPE_STATUS_BOT) {
+                    ctx->cmd = 0;
+                    ctx->status |= SNS_UNITCHK;
+                } else if (r >= 0) {
                     add_event(unit, &tape_callback, START_DELAY,
                              (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
                  ctx->cmd_done = 0;
-- 
2.43.0


From 63090ba0edaaa9813202c124265c2fdd332002bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 061/118] fix: 2415 sense with modifier bits was refused while
 there was sense to read

---
 src/model2415/model2415.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 8398e27..2ad7b35 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -854,7 +854,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->cmd_done = 1;
            break;
     }
-    if (ctx->cmd != 4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
+    if ((ctx->cmd & 0xf) != 0x4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
                             (ctx->sense[1] & BIT7) != 0)) {
         ctx->status |= SNS_UNITCHK;
         if (ctx->tape[ctx->cur_unit] != NULL) {
-- 
2.43.0


From efd7d8b8eb08a8aae1349d49f28d8f0d6aef24f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 062/118] fix: 2415 accepted commands while one was running,
 lost or misplaced the device end of a rewind

---
 src/model2415/model2415.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 2ad7b35..71ba2d9 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -151,7 +151,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
                log_device("Detach device %d\n", u);
                tape_detach(tape);
                ctx->run_flags &= ~(1 << u);
-           } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
+           } else if (ctx->cur_unit == u && ctx->state == STATE_WAIT_DEVEND) {
                if (ctx->chaining) {
                    log_device("Chain done device %d\n", u);
                }
@@ -178,7 +178,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
         if (ctx->run_flags & (1 << u)) {
             tape_detach(tape);
             ctx->run_flags &= ~(1 << u);
-        } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
+        } else if (ctx->cur_unit == u && ctx->state == STATE_WAIT_DEVEND) {
             if (ctx->chaining) {
                 log_device("Chain done device %d\n", u);
             }
@@ -471,11 +471,13 @@ tape_callback(struct _device *unit, void *arg, int u)
                 tape_start_rewind(tape);
                 ctx->rew_flags |= 1 << ctx->cur_unit;
                 add_event(unit, model2415_rewind_callback, REWIND_DELAY, (void *)tape, u);
-                ctx->data_end = 1;
-                if (ctx->chaining == 0) {
-                    ctx->cmd_done = 1;
-                    ctx->status |= SNS_DEVEND;
+                /* Unless channel is waiting, control unit is free until
+                   drive reaches load point */
+                if (ctx->state != STATE_WAIT_DEVEND) {
                     ctx->cmd = 0;
+                    ctx->cmd_done = 0;
+                    ctx->data_end = 0;
+                    ctx->busy = 0;
                 }
                 break;
            case 0x17:    /* Erase gap */
@@ -914,8 +916,12 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 break;
             }
 
-            /* Scan if device is ready */
-            if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
+            /* Check if command done, or scan if device is ready */
+            if (ctx->busy) {
+               if (ctx->cmd_done) {
+                   unit->request = 1;
+               }
+            } else if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
                ctx->t_scan++;
                if (ctx->t_scan >= 6) {
                    ctx->t_scan = 0;
@@ -979,7 +985,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
+                     if (!ctx->busy && !unit->stacked &&
+                                (ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
                          *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
                          *bus_in |= odd_parity[*bus_in];
                          ctx->cur_unit = ctx->t_scan;
@@ -1041,6 +1048,14 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     break;
                 }
                 ctx->state = STATE_STATUS; /* Present status out */
+                /* If drive finished rewind, give device end first */
+                if ((ctx->rdy_flags & (1 << ctx->cur_unit)) != 0) {
+                    ctx->status |= SNS_DEVEND;
+                    ctx->cmd_done = 1;
+                    if ((bus_out & 0xff) != 0) {
+                        ctx->status |= SNS_BSY;
+                    }
+                }
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
                 }
@@ -1108,6 +1123,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     break;
                 }
 
+                ctx->busy = 1;
                 if (ctx->data_end) {
                     if ((*tags & CHAN_HLD_OUT) == 0) {
                         *tags &= ~(CHAN_OPR_IN);
-- 
2.43.0


From 53a5b2e6644416977190ed6827597209f50dc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 063/118] fix: 1052 sends the whole already connected message

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b71378f..5c5935c 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -990,7 +990,7 @@ model1052_thrd(void *data)
                t_state = TNS_NORM;
            } else {
                static char *msg = "console already connected\n\r";
-               send(newsock, msg, sizeof(msg), 0);
+               send(newsock, msg, strlen(msg), 0);
                closesocket(newsock);
            }
         }
-- 
2.43.0


From 7d72d100f0d58200625afab88085addb6f962702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 064/118] fix: 1052 input translation read past the end of its
 table

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 5c5935c..86d1c13 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -781,7 +781,7 @@ model1052_in(void *data, uint16_t *in_char)
    char   ch;
    if (ctx->in_flg && ctx->in_len > 0) {
        ch = ctx->key_buf[ctx->out_ptr++];
-       *in_char = ascii_to_ebcdic[(ch & 0xff)];
+       *in_char = ascii_to_ebcdic[(ch & 0x7f)];
        *in_char |= odd_parity[*in_char];
        log_console("Recieve %02x\n", ch);
        ctx->out_ptr &= 0xff;
-- 
2.43.0


From 97a4f453b2b18768551076b3e722e0240e70bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 065/118] fix: 1052 lost characters and ended a read before its
 last character was taken

---
 src/model1052/model1052.c | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 86d1c13..fdac296 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -133,22 +133,24 @@ poll_callback(struct _device *unit, void *arg, int iarg)
 
     model1052_func(ctx, &out_tags, 0, NULL);
 
-    if ((ctx->cmd & 1) == 0 && (out_tags & BIT1) != 0) {
-       log_console("1052: ready\n");
-       model1052_in(ctx, &ctx->data);
-       ctx->data &= 0xff;
-       ctx->data_rdy = 1;
-       unit->request = 1;
-    }
-    if ((out_tags & (BIT0|BIT2)) != 0) {
-       log_console("1052: data_end\n");
-       if ((out_tags & BIT0) != 0) {
-          ctx->status |= SNS_UNITEXP;
-          ctx->out_cr = 1;
+    /* If reading and last character has been taken, see if there is more */
+    if (ctx->busy && ctx->cmd == 0xA && ctx->data_rdy == 0 && ctx->data_end == 0) {
+       if ((out_tags & BIT1) != 0) {
+          log_console("1052: ready\n");
+          model1052_in(ctx, &ctx->data);
+          ctx->data &= 0xff;
+          ctx->data_rdy = 1;
+          unit->request = 1;
+       } else if ((out_tags & (BIT0|BIT2)) != 0) {
+          log_console("1052: data_end\n");
+          if ((out_tags & BIT0) != 0) {
+             ctx->status |= SNS_UNITEXP;
+             ctx->out_cr = 1;
+          }
+          ctx->data_end = 1;
+          ctx->cmd_done = 1;
+          unit->request = 1;
        }
-       ctx->data_end = 1;
-       ctx->cmd_done = 1;
-       unit->request = 1;
     }
     if ((out_tags & BIT6) != 0) {
        unit->request = 1;
-- 
2.43.0


From 81f83c09faf119e8e3d69f3c50405aab3e540dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 066/118] fix: 1052 attention during a command asked for a data
 transfer

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index fdac296..1fb9549 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -152,7 +152,7 @@ poll_callback(struct _device *unit, void *arg, int iarg)
           unit->request = 1;
        }
     }
-    if ((out_tags & BIT6) != 0) {
+    if ((out_tags & BIT6) != 0 && ctx->busy == 0) {
        unit->request = 1;
     }
 
-- 
2.43.0


From 82dc0081be4b4bf1cca2223b833b0d1dae2db96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 067/118] fix: 1052 keyboard stayed unlocked after a read

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 1fb9549..0435b45 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -625,7 +625,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         break;
 
                  case 0xa: /* Read */
-                        model1052_func(ctx, &out_tags, BIT1|BIT3, NULL);
+                        model1052_func(ctx, &out_tags, BIT7, NULL);
                         break;
                  }
                  ctx->state = STATE_END_STATUS;
-- 
2.43.0


From c0de5095ad810512f33b7c26b4ae3f6dc52576f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 068/118] fix: 1052 added characters typed after end of block
 to the line

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 0435b45..07f9fee 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -925,7 +925,7 @@ push_char(struct _1052_context *ctx, char in_char)
     if (in_char == '\033') {
        ctx->attn_flg = 1;
        log_console("Cons attn\n");
-    } else if (ctx->in_flg) {
+    } else if (ctx->in_flg && !ctx->eob_flg && !ctx->cancel_flg) {
        if (in_char == '\03') {
            ctx->cancel_flg = 1;
            log_console("Cons cancel\n");
-- 
2.43.0


From 31b5d99a5fbc202fd0759e2a834987a1d870aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 069/118] fix: 1052 started a command while answering it with
 attention

---
 src/model1052/model1052.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 07f9fee..ba7ef29 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -398,6 +398,12 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 }
                 ctx->state = STATE_STATUS; /* Present status out */
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
+                    /* Attention is presented with busy, instead of starting a command */
+                    if (ctx->attn_flg && (bus_out & 0xff) != 0) {
+                        ctx->cmd = 0;
+                        ctx->status = SNS_BSY;
+                        break;
+                    }
                     device_cmd(unit, bus_out & 0xff);
                 }
                 break;
-- 
2.43.0


From 7fa4b07ff6af0961f0af09d20c3b3fbf8c24af43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 070/118] fix: 1052 took telnet commands and sub-negotiations
 as typed characters, or dropped the next one

---
 src/model1052/model1052.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index ba7ef29..e43b0c0 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -52,6 +52,8 @@ DEV_LIST_STRUCT(1052, DEV_TYPE, 0);
 #define TN_DO           -3                              /* do */
 #define TN_WONT         -4                              /* wont */
 #define TN_WILL         -5                              /* will */
+#define TN_SB           -6                              /* sub-negotiation */
+#define TN_SE           -16                             /* end of sub-negotiation */
 #define TN_BRK          -13                             /* break */
 #define TN_BIN          0                               /* bin */
 #define TN_ECHO         1                               /* echo */
@@ -69,6 +71,8 @@ DEV_LIST_STRUCT(1052, DEV_TYPE, 0);
 #define TNS_WONT        003                             /* WONT seen */
 #define TNS_SKIP        004                             /* skip next cmd */
 #define TNS_CRPAD       005                             /* CR padding */
+#define TNS_SB          006                             /* in sub-negotiation */
+#define TNS_SBIAC       007                             /* IAC seen in sub-negotiation */
 
 /*
  *  Commands.
@@ -1047,8 +1051,19 @@ model1052_thrd(void *data)
                        t_state = TNS_WILL;
                     } else if (t == TN_WONT) {
                        t_state = TNS_WONT;
-                    } else
+                    } else if (t == TN_DO || t == TN_DONT) {
                        t_state = TNS_SKIP;
+                    } else if (t == TN_SB) {
+                       t_state = TNS_SB;
+                    } else
+                       t_state = TNS_NORM;
+                    break;
+                case TNS_SB:
+                    if (t == TN_IAC)
+                       t_state = TNS_SBIAC;
+                    break;
+                case TNS_SBIAC:
+                    t_state = (t == TN_SE) ? TNS_NORM : TNS_SB;
                     break;
                 case TNS_WILL:
                 case TNS_WONT:
-- 
2.43.0


From e9637f1b9664fc8164899c1367aecf8ca8d3ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 071/118] fix: 1052 read past the end of the parity table while
 writing

---
 src/model1052/model1052.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index e43b0c0..999e9bc 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -683,7 +683,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out;
+                          ctx->data = bus_out & 0xff;
                           add_event(unit, &send_callback, 5000, NULL, 0);
                       }
                  }
-- 
2.43.0


From c230abb57b71fe8dc7ffa25eeba1cfbaf1cf7ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 072/118] fix: 1052 sense never transferred its byte or ended

---
 src/model1052/model1052.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 999e9bc..f90e586 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -244,6 +244,7 @@ invalid:
            ctx->data = ctx->sense;
            ctx->data_rdy = 1;
            ctx->data_end = 1;
+           ctx->cmd_done = 1;
            ctx->busy = 1;
            log_device("console Sense %02x\n", ctx->sense);
            break;
@@ -460,7 +461,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 ctx->status = 0;
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
-                if (ctx->cmd_done || ctx->cmd == 0) {
+                if ((ctx->cmd_done && ctx->data_rdy == 0) || ctx->cmd == 0) {
                     *tags &= ~(CHAN_OPR_IN);
                     unit->stacked = 0;
                     ctx->data_end = 0;
@@ -471,7 +472,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     break;
                 }
 
-                if (ctx->data_end) {
+                if (ctx->data_end && ctx->data_rdy == 0) {
                     if ((*tags & CHAN_HLD_OUT) == 0) {
                         *tags &= ~(CHAN_OPR_IN);
                     }
-- 
2.43.0


From d75e2aa9737a74b501639d4c8e9eebe1eec165ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 073/118] fix: 1052 halted or reset during a write printed the
 next command's data twice

---
 src/model1052/model1052.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index f90e586..a70588f 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -283,6 +283,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         ctx->data_rdy = 0;
         model1052_func(ctx, &out_tags, BIT7|BIT6, NULL);
         cancel_event(unit, &poll_callback);
+        cancel_event(unit, &send_callback);
         add_event(unit, &poll_callback, 500, NULL, 0);
         return;
     }
@@ -513,6 +514,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_ADR_OUT) != 0) {
                      log_device("1052: %03x Halt IO\n",unit->addr);
                      if (ctx->data_end == 0) {
+                         cancel_event(unit, &send_callback);
                          ctx->data_rdy = 0;
                          ctx->data_end = 1;
                          ctx->status |= SNS_CHNEND|SNS_DEVEND;
@@ -606,6 +608,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* If address out, halt device */
              if ((*tags & CHAN_ADR_OUT) != 0) {
+                 cancel_event(unit, &send_callback);
                  ctx->data_end = 1;
                  ctx->cmd_done = 1;
                  ctx->data_rdy = 0;
-- 
2.43.0


From cffeb3066854ab4c35f14825d6d9dc437770a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 074/118] fix: dasd lost tracks that were written without
 having been read

---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d75a1d0..78c738a 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -831,7 +831,6 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 
     dasd->cpos++;
     dasd->count++;
-    dasd->dirty = 1;
 
     switch(dasd->state) {
     case DK_POS_INDEX:             /* At Index Mark */
@@ -1264,6 +1263,7 @@ dasd_write_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
 
     dasd->count++;
     dasd->cpos++;
+    dasd->dirty = 1;
     switch(dasd->state) {
     case DK_POS_INDEX:             /* At Index Mark */
          if (*data == 0) {
-- 
2.43.0


From 861afdef4126fbfcde1e89d6be61d0c3354ceaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 075/118] fix: dasd_attach formatted files that are not disk
 images without being asked to

---
 src/device/dasd.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 78c738a..e32bf16 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1969,12 +1969,10 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     /* Attempt to open disk */
     log_info("Attach %s %s\n", file_name, disk_type[dasd->type].name);
     if ((dasd->fd = open(file_name, O_RDWR, 0660)) < 0) {
-        if (init) {
-           /* If initialize valid, try and create it */
-           if ((dasd->fd = open(file_name, O_RDWR|O_CREAT, 0660)) < 0) {
-               log_info("No file %s\n", file_name);
-               return 0;
-           }
+        /* If initialize valid, try and create it */
+        if (!init || (dasd->fd = open(file_name, O_RDWR|O_CREAT, 0660)) < 0) {
+            log_info("No file %s\n", file_name);
+            return 0;
         }
     }
 
@@ -1986,7 +1984,7 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     if (read(dasd->fd, &hdr, sizeof(struct dasd_header)) !=
           sizeof(struct dasd_header) || strncmp(&hdr.devid[0], "CKD_P370", 8) != 0 || init) {
         /* Not there or valid magic number, try and format it if allowed */
-        if (dasd_format(dasd, init)) {
+        if (!init || dasd_format(dasd, init)) {
             log_info("Format fail %s\n", file_name);
             dasd_detach(dasd);
             return -1;
-- 
2.43.0


From 8da10fa6f333eff5f59af0625393520fc595145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 076/118] fix: dasd_format left off the highest cylinder and
 kept the end of larger images

---
 src/device/dasd.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index e32bf16..d63466e 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1858,6 +1858,12 @@ dasd_format(struct _dasd_t * dasd, int flag) {
     hdr.tracksize = (disk_type[type].bpt | 0x1ff) + 1;
     hdr.devtype = disk_type[type].dev_type;
     hdr.highcyl = disk_type[type].cyl;
+#ifdef HAVE_UNISTD_H
+    /* Nothing of what was there before is kept */
+    if (ftruncate(dasd->fd, 0) < 0) {
+        log_error("Disk truncate on %s\n", dasd->file_name);
+    }
+#endif
     (void)lseek(dasd->fd, 0, SEEK_SET);
     r = write(dasd->fd, &hdr, sizeof(struct dasd_header));
     if (r != sizeof(struct dasd_header)) {
@@ -1872,7 +1878,7 @@ dasd_format(struct _dasd_t * dasd, int flag) {
         return 1;
 
     /* Create empty disk with HA and R0 based on standard */
-    for (cyl = 0; cyl < disk_type[type].cyl; cyl++) {
+    for (cyl = 0; cyl <= disk_type[type].cyl; cyl++) {
         pos = 0;
         for (hd = 0; hd < disk_type[type].heads; hd++) {
             int cpos = pos;
-- 
2.43.0


From 808d039c536e90d1f1c9d314c02c96f9d9382c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 077/118] fix: dasd_attach used images whose header matches no
 disk type

---
 src/device/dasd.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d63466e..e42b6e7 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -2016,7 +2016,8 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
          dsize = sizeof(struct dasd_header) +
                      (tsize * disk_type[i].heads * (disk_type[i].cyl + 1));
          if (hdr.devtype == disk_type[i].dev_type && hdr.tracksize == tsize &&
-             hdr.heads == disk_type[i].heads && dsize == isize) {
+             hdr.heads == disk_type[i].heads &&
+             (dsize == isize || dsize - (tsize * disk_type[i].heads) == isize)) {
              if (dasd->type != i) {
                   /* Ask if we should change */
                   log_warn("Wrong type %s\n", disk_type[i].name);
@@ -2026,9 +2027,9 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
          }
     }
 
-    /* Check if valid name */
-    if (disk_type[dasd->type].name == 0) {
-         log_info("Invalid name %s\n", file_name);
+    /* Check if image matches any type */
+    if (disk_type[i].name == 0) {
+         log_info("Invalid disk image %s\n", file_name);
          dasd_detach(dasd);
          return -1;
     }
-- 
2.43.0


From 6e7d8b3f3ef21d03c3c0124a6d84a119024aeaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 078/118] fix: dasd_attach looked for the volume label past the
 end of the track

---
 src/device/dasd.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index e42b6e7..d1f6a2d 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -2054,12 +2054,13 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     /* Load in volume ID, from record 3 */
     pos = 5;
     rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 0 */
-    rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 1 */
-    rec = &dasd->cbuf[pos];
-    pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);  /* Skip record 2 */
-    rec = &dasd->cbuf[pos];                        /* Now points to record 3 */
+    for (i = 0; i < 3; i++) {                      /* Skip records 0 to 2 */
+        pos += 8 + rec[5] + ((rec[6] << 8) | rec[7]);
+        /* Stop if there is no room for another record */
+        if ((pos + 8 + 84) > dasd->tsize)
+            return 1;
+        rec = &dasd->cbuf[pos];
+    }
     /* Check if correct length */
     if (rec[5] != 4 || rec[6] != 0 || rec[7] != 80)
         return 1;
-- 
2.43.0


From 28eb02a7bd2618f58af3783fb2f5f0874e91effe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 079/118] fix: dasd used tracks past the end of the cylinder
 when an invalid head was selected

---
 src/device/dasd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d1f6a2d..12788a0 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -393,6 +393,11 @@ dasd_settags(struct _dasd_t *dasd, uint8_t ft, uint8_t fc)
                dasd->dir = (fc & BIT0) != 0;
             }
         }
+        /* Check if there is such a head */
+        if (dasd->head >= disk_type[dasd->type].heads) {
+            dasd->flags |= 4;
+            dasd->head = 0;
+        }
         dasd->tstart = (dasd->tsize * dasd->head);
         log_disk("set diff %d head %x\n", dasd->dir, dasd->head);
     }
-- 
2.43.0


From a34656e9975e0af67c620d5aa66961b9979e887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:00 +0000
Subject: [PATCH 080/118] fix: dasd showed the wrong track after a seek off the
 pack or an attach

---
 src/device/dasd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 12788a0..0d67f5c 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -285,6 +285,10 @@ seek_callback(struct _device *unit, void *arg, int iarg)
         r = read(dasd->fd, dasd->cbuf, tsize);
         if (r != tsize) {
             log_error("Disk read on %s %d\n", dasd->file_name, r);
+            /* Nothing recorded on the rest of the cylinder */
+            if (r < 0)
+                r = 0;
+            memset(&dasd->cbuf[r], 0xff, tsize - r);
         }
         dasd->cyl = dasd->ncyl;
     }
@@ -2055,6 +2059,8 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     dasd->fpos = sizeof(struct dasd_header);
     dasd->status = ONLINE|READY;
     dasd->cyl = 0;
+    dasd->ncyl = 0;
+    dasd->head = 0;
     dasd->tstart = 0;
     /* Load in volume ID, from record 3 */
     pos = 5;
@@ -2088,6 +2094,9 @@ dasd_detach(struct _dasd_t *dasd)
     int                 type = dasd->type;
     uint32_t            tsize = dasd->tsize * disk_type[type].heads;
 
+    /* Forget any seek in progress */
+    cancel_event((struct _device *)dasd, seek_callback);
+    dasd->flags &= ~1;
     if (dasd->dirty) {
           (void)lseek(dasd->fd, dasd->fpos, SEEK_SET);
           (void)write(dasd->fd, dasd->cbuf, tsize);
-- 
2.43.0


From 5600066c6c96dfaa88ef0deb6b042d0e287276a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 081/118] fix: dasd took the second check byte of a count
 written for a sync byte

---
 src/device/dasd.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 0d67f5c..afce13b 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1492,15 +1492,26 @@ log_disk("Sync am\n");
                  dasd->ck_sum[(dasd->count - 1) & 1] ^= *data;
                  break;
          case 9:   /* Checksum 1 */
+                 break;
          case 10:   /* Checksum 2 */
                  dasd->klen = rec[5];
                  dasd->dlen = (rec[6] << 8) | rec[7];
+                 dasd->ck_sum[0] = 0xff;
+                 dasd->ck_sum[1] = 0xff;
+                 if (disk_type[type].dev_type != 0x14) {
+                     dasd->state = DK_POS_GAP2;
+                     if (rec[5] == 0)  /* Check key length */
+                         dasd->state = DK_POS_GAP3;
+                     dasd->count = 0;
+                 }
+                 break;
+         case 11:  /* 2314 Unit check */
+                 break;
+         case 12:  /* 2314 Bit count */
                  dasd->state = DK_POS_GAP2;
                  if (rec[5] == 0)  /* Check key length */
                      dasd->state = DK_POS_GAP3;
-                 dasd->count = -1;
-                 dasd->ck_sum[0] = 0xff;
-                 dasd->ck_sum[1] = 0xff;
+                 dasd->count = 0;
                  break;
          }
          break;
-- 
2.43.0


From b64b4fd09a3a0ea4f0f906d8c13be6164ae1a02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 082/118] fix: dasd could not select heads 16 to 19 of a 2314

---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index afce13b..601a645 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -388,7 +388,7 @@ dasd_settags(struct _dasd_t *dasd, uint8_t ft, uint8_t fc)
     if (ft & BIT2) {    /* Set Head and sign */
         if (dasd->type == 3) {    /* 2314 */
             dasd->dir = (fc & BIT0) != 0;
-            dasd->head = (fc & 0xf);
+            dasd->head = (fc & 0x1f);
         } else {                  /* 2311 */
             if ((dasd->flags & 2) == 0) {
                dasd->head = (fc & 0xf);
-- 
2.43.0


From 8ce3b4d013c5851c27c01835518775f60967032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 083/118] fix: dasd_update read past the byte under the head
 when catching up

---
 src/device/dasd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 601a645..45d67be 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -692,7 +692,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_KEY:               /* In Key area */
               if (count < dasd->klen) {
-                  dasd->ck_sum[count & 1] ^= da[count];
+                  dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->klen+2)) {
@@ -704,7 +704,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                       dasd->ck_sum[0] ^= disk_type[type].sync;
                   }
               }
-              log_disk("Key %d %d %02x\n", count, dasd->klen, da[count]);
+              log_disk("Key %d %d %02x\n", count, dasd->klen, *da);
               break;
 
          case DK_POS_GAP3:                /* Beginning of record */
@@ -718,7 +718,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 
          case DK_POS_DATA:              /* In Data area */
               if (count < dasd->dlen) {
-                  dasd->ck_sum[count & 1] ^= da[count];
+                  dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
               if (count == (dasd->dlen + 2)) {
-- 
2.43.0


From 630bbb19867d6ba86d8120807eb8cdbf7604e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 084/118] fix: dasd read missed the home address when the index
 came within a record

---
 src/device/dasd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 45d67be..9ffddfc 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1208,6 +1208,7 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
     }
     if (dasd->cpos >= (disk_type[type].bpt + 1)) {
         dasd->cpos = 0;
+        dasd->count = 0;
         dasd->state = DK_POS_INDEX;             /* At Index Mark */
         *ix = 1;
     }
-- 
2.43.0


From 839077a56757b5f24bcb275755bd15f87bb8fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 085/118] fix: cros2030 ran past the end of lines without a
 comment and put bad addresses and characters in the table

---
 src/model2030/cros2030.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cros2030.c b/src/model2030/cros2030.c
index 2c5c309..038513d 100644
--- a/src/model2030/cros2030.c
+++ b/src/model2030/cros2030.c
@@ -112,8 +112,15 @@ loop:
         while (*p != '#') {
             num = 0;
             while (*p == ' ') p++;  /* Skip blanks */
-            while (*p != ' ' && *p != '#') {
+            /* The last field is followed by a comment */
+            if (*p == '\n' || *p == '\r' || *p == '\0') {
+                if (f != 0)
+                    fprintf(stderr, "Incomplete line %s\n", line);
+                goto loop;
+            }
+            while (*p != ' ' && *p != '#' && *p != '\n' && *p != '\r' && *p != '\0') {
                 c = *p++;
+                dig = base;
                 if (c >= '0' && c <= '9')
                    dig = c - '0';
                 else if (c >= 'A' && c <= 'F')
@@ -131,6 +138,10 @@ loop:
             switch (f) {
             case 0:                 /* AAA */
                 addr = num;
+                if (addr < 0 || addr > 0xfff) {
+                    fprintf(stderr, "Invalid address %s\n", line);
+                    goto loop;
+                }
                 break;
             case 1:                 /* CN */
                 ros_2030[addr].CN = num & 0xFC;
@@ -198,7 +209,7 @@ loop:
         if (*p == '#' && f != 0) {
            while (*++p == ' ');
            for (i = 0; i < 15; i++) {
-              if (*p == '\n' || *p == '\0')
+              if (*p == '\n' || *p == '\r' || *p == '\0')
                  break;
               ros_2030[addr].note[i] = *p++;
            }
-- 
2.43.0


From efb92086ba6173ba98541ba67251d3de408d702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 086/118] fix: cros2050 took upper case addresses for others
 and wrote past the table

---
 src/model2050/cros2050.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cros2050.c b/src/model2050/cros2050.c
index 6c40933..c741366 100644
--- a/src/model2050/cros2050.c
+++ b/src/model2050/cros2050.c
@@ -93,7 +93,7 @@ loop:
             if (*p >= '0' && *p <= '9')
                 addr1 += (*p - '0');
             else if (tolower(*p) >= 'a' && tolower(*p) <= 'f')
-                addr1 += (*p - 'a') + 0xa;
+                addr1 += (tolower(*p) - 'a') + 0xa;
         }
         if (*p == '\n')
             goto loop;
@@ -119,6 +119,10 @@ loop:
            fprintf(stderr, "Address not match %d %03x %03x %s\n", ln, addr1, addr2, line);
            goto loop;
         }
+        if (addr1 > 0xfff) {
+           fprintf(stderr, "Address invalid %d %03x %s\n", ln, addr1, line);
+           goto loop;
+        }
 
         /* Skip a blank */
         for (j = 0; *p == ' '; j++,p++);
-- 
2.43.0


From da795d37b9c305e2c4bcff4c124d40ef6370e12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 087/118] fix: cros2050 left bits of earlier words in the last
 row

---
 src/model2050/cros2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cros2050.c b/src/model2050/cros2050.c
index c741366..9f72a0b 100644
--- a/src/model2050/cros2050.c
+++ b/src/model2050/cros2050.c
@@ -155,7 +155,7 @@ loop:
         /* Grab rest of line */
         j = b = 0;
         parity = 1;
-        bits[0] = bits[1] = bits[2] = bits[4] = 0;
+        bits[0] = bits[1] = bits[2] = bits[3] = bits[4] = 0;
         for (;*p != '\0' && *p != '\n'; p++) {
             if (*p == '0') {
                b++;
-- 
2.43.0


From 810e849aa3b34af8438ce567fb2603b675392815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 088/118] fix: cros2844 took upper case addresses for others

---
 src/model2844/cros2844.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2844/cros2844.c b/src/model2844/cros2844.c
index ddac493..51b9c81 100644
--- a/src/model2844/cros2844.c
+++ b/src/model2844/cros2844.c
@@ -89,7 +89,7 @@ loop:
             if (*p >= '0' && *p <= '9')
                 addr1 += (*p - '0');
             else if (tolower(*p) >= 'a' && tolower(*p) <= 'f')
-                addr1 += (*p - 'a') + 0xa;
+                addr1 += (tolower(*p) - 'a') + 0xa;
         }
         if (*p == '\n')
             goto loop;
-- 
2.43.0


From 191e2e613d6310d688ac9b339554efda21dc1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 089/118] fix: cros2050 placed words of cut off lines in the
 table and overran the note

---
 src/model2050/cros2050.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/model2050/cros2050.c b/src/model2050/cros2050.c
index 9f72a0b..d3453e0 100644
--- a/src/model2050/cros2050.c
+++ b/src/model2050/cros2050.c
@@ -129,10 +129,16 @@ loop:
         q = note;
         if (strncmp(p, "- ", 2) != 0 && strncmp(p, "io", 2) != 0) {
             /* Grab sheet and box */
-            while ((*p != ' ' && *p != '\n')) *q++ = *p++;
+            for (; *p != ' ' && *p != '\n' && *p != '\0'; p++) {
+                if (q < &note[sizeof(note) - 3])
+                    *q++ = *p;
+            }
             *q++ = '-';
             while (*p == ' ') p++;
-            while ((*p != ' ' && *p != '\n')) *q++ = *p++;
+            for (; *p != ' ' && *p != '\n' && *p != '\0'; p++) {
+                if (q < &note[sizeof(note) - 2])
+                    *q++ = *p;
+            }
         *q = '\0';
         }
         *q++ = '\0';
@@ -148,10 +154,9 @@ loop:
         } else {
             io = 0;
         }
-        ros_2050[addr1].io = io;
-        p += 5;
+        for (i = 0; i < 5 && *p != '\0'; i++)
+            p++;
         while (*p == ' ') p++;
-        strcpy(&ros_2050[addr1].note[0], &note[0]);
         /* Grab rest of line */
         j = b = 0;
         parity = 1;
@@ -189,6 +194,12 @@ loop:
             if (parity != 0 && io < 4) {
                fprintf(stderr, "Parity error %d %08x 2 %s\n", ln,  bits[2], line);
             }
+        if (j < 3) {
+            fprintf(stderr, "Word not complete %d %s\n", ln, line);
+            goto loop;
+        }
+        ros_2050[addr1].io = io;
+        strcpy(&ros_2050[addr1].note[0], &note[0]);
         while (b < 14) {
             bits[j] <<= 1;
             b++;
-- 
2.43.0


From a6c4d84e4c35c7950a737a0e440409dd9fad637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 090/118] fix: cros2844 lost the last field at the end of a
 line and overran the note

---
 src/model2844/cros2844.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/model2844/cros2844.c b/src/model2844/cros2844.c
index 51b9c81..5824c83 100644
--- a/src/model2844/cros2844.c
+++ b/src/model2844/cros2844.c
@@ -122,13 +122,20 @@ loop:
         q = ros_2844[addr1].NOTE;
         if (*p != '-') {
             /* Grab sheet and box */
-            while ((*p != ' ' && *p != '\n')) *q++ = *p++;
+            for (; *p != ' ' && *p != '\n' && *p != '\0'; p++) {
+                if (q < &ros_2844[addr1].NOTE[sizeof(ros_2844[addr1].NOTE) - 3])
+                    *q++ = *p;
+            }
             *q++ = '-';
             while (*p == ' ') p++;
-            while ((*p != ' ' && *p != '\n')) *q++ = *p++;
+            for (; *p != ' ' && *p != '\n' && *p != '\0'; p++) {
+                if (q < &ros_2844[addr1].NOTE[sizeof(ros_2844[addr1].NOTE) - 2])
+                    *q++ = *p;
+            }
             while (*p == ' ') p++;
         }
-        p++;
+        if (*p != '\0')
+            p++;
         *q++ = '\0';
         while (*p == ' ') p++;
         /* Grab rest of line */
@@ -222,6 +229,13 @@ loop:
                fprintf(stderr, "invalid char %d %c %s\n", ln, *p, line);
             }
         }
+        /* Last field might not be followed by anything */
+        if (j == 17 && b != 0) {
+            ros_2844[addr1].BP = fld;
+            j++;
+        }
+        if (j < 18)
+            fprintf(stderr, "Word not complete %d %s", ln, line);
      }
 
      fprintf(out, "/*  CA   CB  CK  CL  CH  PA  PS  CN  PN  CD  CV  CC  CS  PC  BP  NOTE */\n");
-- 
2.43.0


From e341f35ded0f52df36409252dbf5ea3a7be45c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 091/118] fix: cros2030 gave the note of an indented comment to
 word zero

---
 src/model2030/cros2030.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2030/cros2030.c b/src/model2030/cros2030.c
index 038513d..36b5931 100644
--- a/src/model2030/cros2030.c
+++ b/src/model2030/cros2030.c
@@ -112,6 +112,8 @@ loop:
         while (*p != '#') {
             num = 0;
             while (*p == ' ') p++;  /* Skip blanks */
+            if (*p == '#')
+                break;
             /* The last field is followed by a comment */
             if (*p == '\n' || *p == '\r' || *p == '\0') {
                 if (f != 0)
-- 
2.43.0


From 58e988302e91e45d164ae383729e15c443cbcc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:25 +0000
Subject: [PATCH 092/118] fix: Model 30 selector channel: no protection check
 for skipped bytes

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index b7b7bb7..743bba4 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -844,7 +844,7 @@ cycle_2030()
 
            /* Check if input */
            if (sel_gr_full[i] != 0 && ((cpu_2030.GG[i] & 3) == 2 || (cpu_2030.GG[i] & 5) == 4)) {
-               if ((cpu_2030.GK[i] & 0xf0) != 0 &&
+               if ((cpu_2030.GF[i] & BIT3) == 0 && (cpu_2030.GK[i] & 0xf0) != 0 &&
                          (((cpu_2030.GK[i] >> 4) ^ cpu_2030.Q_REG) & 0xf) != 0) {
                    cpu_2030.GE[i] |= BIT3;
                    cpu_2030.GR[i] = M[cpu_2030.MN_REG];
-- 
2.43.0


From b916756618ae84c2357fdc526b0fe5822a2d2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 093/118] fix: Model 30 selector channel: no command chaining
 after a channel error

---
 src/model2030/cpu2030.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 743bba4..ba08183 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2763,9 +2763,12 @@ chan_scan:
                         if ((cpu_2030.GI[i] & SNS_CHNEND) != 0 && sel_length_error(i)) {
                              cpu_2030.GE[i] |= BIT1;
                         }
-                        if (((cpu_2030.GI[i] & SNS_CHNEND) != 0 && (cpu_2030.GE[i] & BIT1) != 0) ||
+                        if ((sel_share_req & (1 << i)) != 0) {
+                             log_selchn("Status waits for storage\n");
+                        } else if (((cpu_2030.GI[i] & SNS_CHNEND) != 0 &&
+                              (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) != 0) ||
                              (cpu_2030.GI[i] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0) {
-                             /* Length error or unusual status prevents chaining */
+                             /* Channel error or unusual status prevents chaining */
                              sel_ros_req |= 1 << i;
                              log_selchn("Status ends chain\n");
                         } else if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
-- 
2.43.0


From 80df98a248067ba1e91bc10e61b9878f5b54d85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 094/118] fix: Model 30 selector channel: unusual status to a
 command that chains ends START I/O

---
 src/model2030/cpu2030.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index ba08183..c7a3fd7 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1697,9 +1697,10 @@ cycle_2030()
                            if (sel_poll_ctrl[cpu_2030.ch_sel] == 0 ||
                                    (cpu_2030.GI[cpu_2030.ch_sel] & BIT4) != 0)
                               cpu_2030.Abus |= BIT3;
-                           if ((cpu_2030.GI[cpu_2030.ch_sel] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0)
-                              cpu_2030.Abus |= BIT3;
                       }
+                      /* Unusual status always ends the operation */
+                      if ((cpu_2030.GI[cpu_2030.ch_sel] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0)
+                          cpu_2030.Abus |= BIT3;
                   }
                   /* CD */
                   if ((cpu_2030.GF[cpu_2030.ch_sel] & BIT0) != 0)
@@ -2679,11 +2680,6 @@ chan_scan:
                      cpu_2030.SEL_TAGS[i] |= CHAN_SUP_OUT;
                  }
 
-                 /* If there are errors, set interrupt */
-                 if ((cpu_2030.GI[i] & 0xf3) != 0) {
-                     sel_ros_req |= 1 << i;
-                 }
-
                  /* On device end, trigger channel ROS request */
                  if ((cpu_2030.H_REG & BIT5) == 0 && sel_cnt_rdy_zero[i] &&
                                  (cpu_2030.GI[i] & SNS_DEVEND) != 0) {
-- 
2.43.0


From 39082a4e96c0923da50dfbb6ae308f31ad948f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 095/118] fix: log_print_c wrote important messages twice to
 the log and never to stderr

---
 src/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger.c b/src/logger.c
index 372cb12..56f36c9 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -146,7 +146,7 @@ log_print_c(int level, const char *fmt, ...)
     va_end(ap);
     if ((level & (LOG_INFO|LOG_WARN|LOG_ERROR)) != 0) {
         va_start(ap, fmt);
-        vfprintf(log_file, fmt, ap);
+        vfprintf(stderr, fmt, ap);
         va_end(ap);
     }
 }
-- 
2.43.0


From 6f882967443844909ca2a62ebfd6dfe7cfca42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 096/118] fix: print_tags read past its table for the states of
 stacked status

---
 src/device/device.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device/device.c b/src/device/device.c
index 3558db0..49e45ba 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -57,7 +57,8 @@ print_tags(char *name, int state, uint16_t tags, uint16_t bus_out)
         int i;
 
         sprintf(buffer, "%s state=%s Tags: bus=%03x %04x ", name,
-                         state_tags[state], bus_out, tags);
+                         (state < (int)(sizeof(state_tags) / sizeof(char *))) ?
+                                       state_tags[state] : "STACK", bus_out, tags);
         for (i = 0; i < 16; i++) {
             if (bus_tags[i] != NULL) {
               if ((tags & (0x8000 >> i)) != 0) {
-- 
2.43.0


From 0f9933cc3806ac784fea8401a2b20c2b02e50122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 097/118] fix: 1443 never presented the stacked status of a
 command that moves no paper

---
 src/model1443/model1443.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index dc0822f..38887a2 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -764,6 +764,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                   log_device("printer Stacked\n");
                   ctx->selected = 0;
                   ctx->stacked = 1;
+                  ctx->feed_done = 1;                  /* Nothing more to wait for */
                   ctx->state = STATE_STACK;            /* Stack status */
                   break;
              }
-- 
2.43.0


From 67562ede7fe8394ce5517403226af1db09aa272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 098/118] fix: 1443 hung the channel when its channel end was
 stacked

---
 src/model1443/model1443.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 38887a2..caa6095 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -686,12 +686,12 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              *tags &= ~(CHAN_SEL_OUT);  /* Clear select out and in */
              *tags |= CHAN_OPR_IN;
 
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == (CHAN_SRV_OUT)) {
+             /* Wait for Service or Command out to drop */
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0 && (*tags & CHAN_STA_IN) == 0) {
                  break;
              }
 
-             if ((*tags & (CHAN_SRV_OUT)) == 0) {
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) == 0) {
                  *tags |= CHAN_OPR_IN|CHAN_STA_IN;
                  log_device("printer End channel status %02x %02x\n", ctx->status, ctx->cmd);
                  break;
@@ -705,6 +705,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);  /* Clear select out and in */
                  /* If Command out, stack the status */
                  if ((*tags & (CHAN_CMD_OUT)) != 0) {
+                     ctx->selected = 0;
                      ctx->stacked = 1;
                  }
                  if ((*tags & (CHAN_SRV_OUT)) != 0) {
-- 
2.43.0


From f5a6594327ddec5eff0043de183eca81adcd22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 099/118] fix: 1443 kept status in up when the paper stopped
 while it was answering busy

---
 src/model1443/model1443.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index caa6095..e0523ef 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -919,7 +919,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 }
              }
 
-             if (ctx->feed_done) {
+             if (ctx->feed_done && !ctx->addressed) {
                  log_device("printer feed done\n");
                  ctx->status |= SNS_DEVEND;
                  ctx->state = STATE_END;
-- 
2.43.0


From dac6b864462dcce95769e99fee11a1cd42032a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:22 +0000
Subject: [PATCH 100/118] fix: 1443 moved the paper for a carriage command with
 bad parity

---
 src/model1443/model1443.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index e0523ef..149b6c0 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -263,6 +263,13 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
                      break;
                  }
+                 /* Do nothing for a command that did not arrive intact */
+                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                     ctx->cmd = 0;
+                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+                     ctx->sense |= SENSE_BUSCHK;
+                     break;
+                 }
                  switch (ctx->cmd & 07) {
                  case 0: /* Test I/O */
                         break;
@@ -330,11 +337,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         ctx->sense = SENSE_CMDREJ;     /* Invalid command */
                         break;
                  }
-                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                     ctx->cmd = 0;
-                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                     ctx->sense |= SENSE_BUSCHK;
-                 }
              }
              break;
 
-- 
2.43.0


From e8644072f21b7975e6932d888cdea7bd06041e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 101/118] fix: 1443 asked for more data after a byte with bad
 parity whose status was stacked

---
 src/model1443/model1443.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 149b6c0..82ae5a9 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -608,6 +608,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                   if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                       ctx->sense |= SENSE_BUSCHK;
                       ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+                      ctx->data_end = 1;
                       ctx->state = STATE_END;
                   } else {
                       ctx->data = bus_out; /* Grab data */
-- 
2.43.0


From 50e5eab72151c10e87e756280c0b9177108b5fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 102/118] fix: 1443 presented control unit end for a busy given
 before a reset

---
 src/model1443/model1443.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 82ae5a9..9408941 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -185,6 +185,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         ctx->selected = 0;
         ctx->addressed = 0;
         ctx->stacked = 0;
+        ctx->busy_flag = 0;
         ctx->request = 0;
         ctx->status = 0;
         ctx->state = STATE_IDLE;
-- 
2.43.0


From c19b5015ece2b72d237f8705e0bf0c486ac54696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:50 +0000
Subject: [PATCH 103/118] fix: 1442 went on asking for service after its
 stacked channel end was taken

---
 src/model1442/model1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 95a48b4..1822a00 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -508,10 +508,10 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
                 ctx->status = 0;
                 *tags &= ~(CHAN_STA_IN);
+                unit->stacked = 0;
                 /* If end of command, and status accepted, all done */
                 if (ctx->cmd_done || ctx->cmd == 0) {
                     *tags &= ~(CHAN_OPR_IN);
-                    unit->stacked = 0;
                     ctx->data_end = 0;
                     ctx->data_end_post = 0;
                     ctx->cmd_done = 0;
-- 
2.43.0


From 44583ae6ee06c65854d8fbda3e237f1a905a6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:50 +0000
Subject: [PATCH 104/118] fix: 1442 went on punching after it ended a punch
 command for bad parity

---
 src/model1442/model1442.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 1822a00..1955c71 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -730,6 +730,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((ctx->cmd & 1) != 0) { /* Write command */
                       /* Device selected */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                          cancel_event(unit, &write_callback);
                           ctx->sense |= SENSE_BUSCHK;
                           ctx->status |= (SNS_UNITCHK);
                           ctx->data_end = 1;
-- 
2.43.0


From 1f73c896ecdda8440c670aeda34e7d0d654db40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:50 +0000
Subject: [PATCH 105/118] fix: 1442 went on with the command a reset ended

---
 src/model1442/model1442.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 1955c71..5ac1570 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -329,8 +329,12 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
         }
         log_device("1442: %03x reset\n",unit->addr);
+        cancel_event(unit, &read_callback);
+        cancel_event(unit, &write_callback);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
+        ctx->rdr_col = 0;
         ctx->state = STATE_IDLE;
         ctx->status = 0;
         ctx->sense = 0;
-- 
2.43.0


From 3dc3b835921d3d35e0e469b54c325472e14d1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 106/118] fix: 1442 lost a device end that came while the
 channel was taking channel end

---
 src/model1442/model1442.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 5ac1570..cc0aa54 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -146,6 +146,12 @@ static void
 feed_callback(struct _device *unit, void *arg, int iarg)
 {
     struct _1442_context *ctx = (struct _1442_context *)unit->dev;
+
+    /* Status must not change while channel is taking it */
+    if (ctx->state == STATE_STATUS_ACCEPT || ctx->state == STATE_END_ACCEPT) {
+        add_event(unit, &feed_callback, 10, NULL, 0);
+        return;
+    }
     ctx->status |= SNS_DEVEND;
     ctx->busy = 0;
     ctx->cmd_done = 1;
-- 
2.43.0


From b9e0f36d6bf05127f621869e55c39dc4149bf8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 107/118] fix: 2415 started with sense data owed by drive 0,
 which then answered busy

---
 src/model2415/model2415.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 71ba2d9..e16fb6c 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1455,6 +1455,7 @@ model2415_create(struct _option *opt)
          tape->chan = (opt->addr >> 8) & 0xf;
          tape->state = STATE_IDLE;
          tape->selected = 0;
+         tape->stat_unit = -1;
          tape->nunits = dev2415->n_units;
          /* Parse options given on definition */
          while (get_option(&opts)) {
-- 
2.43.0


From 383b5a68b72ae41e4a1bd818bfb4cede821773cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 108/118] fix: 2844 crashed when a drive that is not attached
 was addressed

---
 src/model2844/model2844.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 3d402ec..0c758ef 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -532,7 +532,9 @@ step_2844(void *data)
           ctx->Abus = ctx->IE & 0x1e;
           break;
    case 0x17:    /* OA */   /* Old address */
-          ctx->Abus = dasd_cur_cyl(ctx->disk[ctx->unit_num]);
+          ctx->Abus = 0;
+          if (ctx->disk[ctx->unit_num] != NULL)
+              ctx->Abus = dasd_cur_cyl(ctx->disk[ctx->unit_num]);
           break;
    case 0x18:    /* CX */
           ctx->Abus = ctx->CX_REG;
@@ -664,14 +666,16 @@ step_2844(void *data)
            if (sal->CN & 4)
                ctx->FT |= ctx->Alu_out;
            ctx->burst_odd = (ctx->FT & 2) != 0;
-           dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
+           if (ctx->disk[ctx->unit_num] != NULL)
+               dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
            break;
    case 14:  /* FC */
            /* Drive FC register */
            ctx->FC &= ~ctx->Alu_out;
            if (sal->CN & 4)
                ctx->FC |= ctx->Alu_out;
-           dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
+           if (ctx->disk[ctx->unit_num] != NULL)
+               dasd_settags(ctx->disk[ctx->unit_num], ctx->FT, ctx->FC);
            break;
    case 15:  /* IG */
            ctx->IG_REG = ctx->Alu_out;
-- 
2.43.0


From 4480303962e5f22f7eecf8b048e05b876e94601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 109/118] fix: 2844 asked for a second interrupt with zero
 status after a seek

---
 src/model2844/model2844.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 0c758ef..77cbb4b 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -174,8 +174,6 @@ step_2844(void *data)
         if (dasd_check_attn(ctx->disk[i])) {
             ctx->SC_REG |= 0x80 >> i;
           log_disk("Disk attn %d\n", i);
-            if (ctx->selected == 0)
-                ctx->request = 1;
         }
    }
 
-- 
2.43.0


From 184d8e4b753c97dadf9a588dae0d7d0d5527c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 110/118] fix: 2844 writing data could wipe the rest of the
 track, address mark flag was not set

---
 src/model2844/model2844.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 77cbb4b..3058e30 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -130,7 +130,7 @@ step_2844(void *data)
         if (ctx->disk[i] == NULL)
             continue;
         if ((ctx->UR_REG & 0xf) == i && (ctx->FT & 0x81) == 0x81 && (ctx->FC & 0x04) != 0) {
-            uint8_t   data, am;
+            uint8_t   data = 0, am = 0;
             ix = 0;
             if ((ctx->FC & 0x40) != 0) {
                 if (dasd_read_byte(ctx->disk[i], &data, &am, &ix)) {
-- 
2.43.0


From 91c7474458c75bf14b86cb89bb886aef588b7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 111/118] fix: disk position after resync did not agree with
 the position when reading

---
 src/device/dasd.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 9ffddfc..26a56e2 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -667,6 +667,16 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
               case 9:   /* Checksum 1 */
                       break;
               case 10:   /* Checksum 2 */
+                      if (disk_type[type].dev_type != 0x14) {
+                          state = DK_POS_GAP2;
+                          if (dasd->klen == 0)
+                              state = DK_POS_GAP3;
+                          count = -1;
+                      }
+                      break;
+              case 11:  /* 2314 Unit check */
+                      break;
+              case 12:  /* 2314 Bit count */
                       state = DK_POS_GAP2;
                       if (dasd->klen == 0)
                           state = DK_POS_GAP3;
@@ -695,7 +705,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                   dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
-              if (count == (dasd->klen+2)) {
+              if (count == (dasd->klen + ((disk_type[type].dev_type == 0x14) ? 3 : 1))) {
                   state = DK_POS_GAP3;
                   count = -1;
                   dasd->ck_sum[0] = 0xff;
@@ -721,8 +731,10 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                   dasd->ck_sum[count & 1] ^= *da;
                   tpos++;
               }
-              if (count == (dasd->dlen + 2)) {
+              if (count == (dasd->dlen + 1)) {
                   rpos = tpos;
+              }
+              if (count == (dasd->dlen + ((disk_type[type].dev_type == 0x14) ? 3 : 1))) {
                   state = DK_POS_AM;
                   count = -1;
                   dasd->ck_sum[0] = 0xff;
-- 
2.43.0


From 1f3bd77aa36d03148129c0eca8c3a0f1a35f32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 112/118] fix: every key or data field of odd length gave a
 data check

---
 src/device/dasd.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 26a56e2..05b57d4 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1128,10 +1128,10 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
          } else {
            switch (count - dasd->klen) {
            case 0:
-                  *data = dasd->ck_sum[0];
+                  *data = dasd->ck_sum[count & 1];
                   break;
            case 1:
-                  *data = dasd->ck_sum[1];
+                  *data = dasd->ck_sum[count & 1];
                   if (disk_type[type].dev_type != 0x14) {
                       dasd->state = DK_POS_GAP3;
                       dasd->count = 0;
@@ -1181,10 +1181,10 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
          } else {
            switch (count - dasd->dlen) {
            case 0:
-                  *data = dasd->ck_sum[0];
+                  *data = dasd->ck_sum[count & 1];
                   break;
            case 1:
-                  *data = dasd->ck_sum[1];
+                  *data = dasd->ck_sum[count & 1];
                   dasd->rpos = dasd->tpos;
                   if (disk_type[type].dev_type != 0x14) {
                       dasd->state = DK_POS_AM;
-- 
2.43.0


From 6cf2d9ab3839de1b3b38d8129352256f0eb15daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 113/118] fix: TEST I/O left poll control set on an idle
 selector channel, device requests were ignored

---
 src/model2030/ccros20120318.txt | 2 +-
 src/model2030/ccros2030.txt     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/ccros20120318.txt b/src/model2030/ccros20120318.txt
index adbacef..501d6d4 100644
--- a/src/model2030/ccros20120318.txt
+++ b/src/model2030/ccros20120318.txt
@@ -3257,7 +3257,7 @@
  9AC  F6 0001 0111 001 00 1100 11 0100 1100 011 01 00 000 0000 0 0 0 0 # QD071:J6-014
  9F6  AC 0110 0000 001 00 1110 11 0100 0000 011 01 00 010 0000 1 0 0 0 # QD071:J5-014
  9F8  F6 0001 0000 001 00 ???? ?? 1100 1100 000 00 00 000 1110 ? 1 0 1 # QD071:J4-014
- 9A6  55 0000 0001 001 00 0000 00 1001 0000 000 00 00 000 1110 0 1 0 0 # QD071:L5-014
+ 9A6  55 0000 0001 001 00 0000 00 1001 0000 000 00 00 000 1110 0 1 0 1 # QD071:L5-014
  9A5  A4 1010 0000 001 00 0000 00 0000 0000 000 00 00 000 0000 0 0 0 0 # QD071:L4-014
  9A3  A4 0000 1011 001 00 ???? ?? 0001 0111 000 00 00 000 1111 ? 1 0 0 # QD071:L3-014
  9A4  25 0000 0001 001 00 ???? 11 0100 1011 000 10 00 000 0000 ? 0 0 0 # QD071:N5-014
diff --git a/src/model2030/ccros2030.txt b/src/model2030/ccros2030.txt
index e0ca5ff..11b50b5 100644
--- a/src/model2030/ccros2030.txt
+++ b/src/model2030/ccros2030.txt
@@ -3258,7 +3258,7 @@
  9AC  F6 0001 0111 001 00 1100 11 0100 1100 011 01 00 000 0000 0 0 0 0 # QD071:J6-014
  9F6  AC 0110 0000 001 00 1110 11 0100 0000 011 01 00 010 0000 1 0 0 0 # QD071:J5-014
  9F8  F6 0001 0000 001 00 ???? ?? 1100 1100 000 00 00 000 1110 ? 1 0 1 # QD071:J4-014
- 9A6  55 0000 0001 001 00 0000 00 1001 0000 000 00 00 000 1110 0 1 0 0 # QD071:L5-014
+ 9A6  55 0000 0001 001 00 0000 00 1001 0000 000 00 00 000 1110 0 1 0 1 # QD071:L5-014
  9A5  A4 1010 0000 001 00 0000 00 0000 0000 000 00 00 000 0000 0 0 0 0 # QD071:L4-014
  9A3  A4 0000 1011 001 00 ???? ?? 0001 0111 000 00 00 000 1111 ? 1 0 0 # QD071:L3-014
  9A4  25 0000 0001 001 00 ???? 11 0100 1011 000 10 00 000 0000 ? 0 0 0 # QD071:N5-014
-- 
2.43.0


From 1270d3bf21730917b78f4612312b4279d8677080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 114/118] fix: selector channel kept address and select out
 after an absent device was addressed

---
 src/model2030/cpu2030.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index c7a3fd7..a11daab 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2293,6 +2293,8 @@ cycle_2030()
                             if (sal->PK) {
                                 sel_poll_ctrl[cpu_2030.ch_sel] = 0;
                                 sel_ros_req &= ~(1 << cpu_2030.ch_sel);
+                                /* No device took the address, stop asking */
+                                cpu_2030.SEL_TAGS[cpu_2030.ch_sel] &= ~(CHAN_ADR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT);
                             }
                             sel_chain_req[cpu_2030.ch_sel] = 0;
                             sel_cnt_rdy_not_zero[cpu_2030.ch_sel] = 0;
-- 
2.43.0


From ad6d1227f5fe4df2eb8ca43db425e1213a8399e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:44 +0000
Subject: [PATCH 115/118] fix: START I/O while a device answered a selector
 channel poll lost the command

---
 src/model2030/cpu2030.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index a11daab..048eca3 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2316,7 +2316,12 @@ cycle_2030()
                                  cpu_2030.SEL_TAGS[cpu_2030.ch_sel] &= ~CHAN_SUP_OUT;
                              break;
                    /* Set Poll control */
-                   case 0xb: sel_poll_ctrl[cpu_2030.ch_sel] = sal->PK; break;
+                   /* It can't be set while a device answers a poll, microcode tries again */
+                   case 0xb:
+                            if (sal->PK == 0 || sel_chan_busy[cpu_2030.ch_sel] ||
+                                (cpu_2030.SEL_TAGS[cpu_2030.ch_sel] & CHAN_SEL_OUT) == 0)
+                                sel_poll_ctrl[cpu_2030.ch_sel] = sal->PK;
+                            break;
                    /* Reset select out */
                    case 0xc:
                             cpu_2030.SEL_TAGS[cpu_2030.ch_sel] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
-- 
2.43.0


From 2a81f6e8337489c7d22fe9c8a71449d8baa4fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:26 +0000
Subject: [PATCH 116/118] fix: device with a request took select out during
 another device's busy sequence

---
 src/model1052/model1052.c | 4 ++--
 src/model1442/model1442.c | 4 ++--
 src/model2415/model2415.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index a70588f..dc73f6b 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -297,8 +297,8 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 break;
             }
 
-            /* If operation in, another device has channel */
-            if ((*tags & CHAN_OPR_IN) != 0) {
+            /* If operation in or busy status, another device has channel */
+            if ((*tags & (CHAN_OPR_IN|CHAN_STA_IN)) != 0) {
                 if (unit->request || unit->stacked) {
                     *tags &= ~(CHAN_REQ_IN);
                 }
diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index cc0aa54..202140e 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -365,8 +365,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 break;
             }
 
-            /* If operation in, another device has channel */
-            if ((*tags & CHAN_OPR_IN) != 0) {
+            /* If operation in or busy status, another device has channel */
+            if ((*tags & (CHAN_OPR_IN|CHAN_STA_IN)) != 0) {
                 if (unit->request || unit->stacked) {
                     *tags &= ~(CHAN_REQ_IN);
                 }
diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index e16fb6c..510139d 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -930,8 +930,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                unit->request = 1;
             }
 
-            /* If operation in, another device has channel */
-            if ((*tags & CHAN_OPR_IN) != 0) {
+            /* If operation in or busy status, another device has channel */
+            if ((*tags & (CHAN_OPR_IN|CHAN_STA_IN)) != 0) {
                 if (unit->request || unit->stacked) {
                     *tags &= ~(CHAN_REQ_IN);
                 }
-- 
2.43.0


From 4741a3ace75b3b591831c823b65af6c3646d3739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:02 +0000
Subject: [PATCH 117/118] fix: START I/O on the multiplexor channel was lost
 when a device made a request at that moment

---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 048eca3..107dd65 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2168,6 +2168,9 @@ cycle_2030()
                    }
                    if (sal->PK) {
                        mpx_cmd_start = 1;
+                       /* If no device was polled yet, the command goes first */
+                       if ((cpu_2030.MPX_TAGS & CHAN_SEL_OUT) == 0 && (cpu_2030.MPX_TI & CHAN_OPR_IN) == 0)
+                           mpx_start_sel = 0;
                    } else {  /* Check */
                        mpx_cmd_start = 0;
                    }
-- 
2.43.0


From 0b8ffbafce8f2010fd2d5091110ba30e97b56392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:02 +0000
Subject: [PATCH 118/118] fix: selector channel took poll control while a
 polled device presented its status

---
 src/model2030/cpu2030.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 107dd65..48de8ae 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2322,7 +2322,8 @@ cycle_2030()
                    /* It can't be set while a device answers a poll, microcode tries again */
                    case 0xb:
                             if (sal->PK == 0 || sel_chan_busy[cpu_2030.ch_sel] ||
-                                (cpu_2030.SEL_TAGS[cpu_2030.ch_sel] & CHAN_SEL_OUT) == 0)
+                                ((cpu_2030.SEL_TAGS[cpu_2030.ch_sel] & CHAN_SEL_OUT) == 0 &&
+                                 (cpu_2030.SEL_TI[cpu_2030.ch_sel] & CHAN_OPR_IN) == 0))
                                 sel_poll_ctrl[cpu_2030.ch_sel] = sal->PK;
                             break;
                    /* Reset select out */
-- 
2.43.0

