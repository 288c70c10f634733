From 97de54f4339dac61250082a333c2f380444b58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 01/44] fix: treat extended option delta/length bytes as
 unsigned when parsing

On platforms where char is signed an extended byte >= 128 was sign-extended,
so that the option number or length was decoded wrongly.
---
 lib/src/coap_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..417b331 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From 37ed3641718eb53976b493e2734c63ad39d5d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 02/44] fix: do not read beyond the end of a message without a
 payload

coap_msg_parse_ops inspected the byte after the last option before it checked
that there is one.
---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 417b331..69ca26f 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From 396a4f216876e66df1ba270413fd728a8c0d75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 03/44] fix: compute the space for an option from its length,
 not its number

The extended length byte was accounted for according to the option number, so
formatting could write one byte too many or refuse a buffer that is large enough.
---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 69ca26f..040c75e 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -931,7 +931,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From fc577886792edb6f3d87ff537c3d5e5f8cc54228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 04/44] fix: return the option structure to its allocator when
 its value cannot be allocated

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 040c75e..3b06442 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -206,7 +206,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From a669b767d8228a08d09ea315a6c51c2757a273fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:55 +0000
Subject: [PATCH 05/44] fix: refuse block numbers that do not fit in the block
 option value

---
 lib/src/coap_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 3b06442..c88531c 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -149,7 +149,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
     switch (len)
     {
     case 1:
-        if (num > (1 << 4))
+        if (num >= (1 << 4))
         {
             return -EINVAL;
         }
@@ -158,7 +158,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[0] |= szx;
         return 1;
     case 2:
-        if (num > (1 << 12))
+        if (num >= (1 << 12))
         {
             return -EINVAL;
         }
@@ -168,7 +168,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[1] |= szx;
         return 2;
     case 3:
-        if (num > (1 << 20))
+        if (num >= (1 << 20))
         {
             return -EINVAL;
         }
-- 
2.43.0


From 78161a48fd46b60b147d5596ed019054ffa679b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:44 +0000
Subject: [PATCH 06/44] fix: parse block option values of length 0 and refuse
 those longer than 3 bytes

An empty value stands for block 0, no more blocks, size 16. Reading three bytes
of a shorter value used stale memory.
---
 lib/src/coap_msg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index c88531c..a44315d 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
@@ -120,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From 82aef9fe5db8b9dc8d7acc064260a8fb747acd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:00 +0000
Subject: [PATCH 07/44] fix: answer an empty confirmable message (CoAP ping)
 with a reset instead of calling the request handler

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..0e4eb85 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2374,7 +2374,8 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
-     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
+     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
+     || (coap_msg_is_empty(&recv_msg)))
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-- 
2.43.0


From 61351883f259123bee68b244b293c9b212eb9afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:00 +0000
Subject: [PATCH 08/44] fix: do not take the first request of an endpoint for a
 duplicate when its message ID is 0

---
 lib/src/coap_server.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 0e4eb85..ff7c0bf 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1364,8 +1364,6 @@ static int coap_server_trans_create(coap_server_trans_t *trans, coap_server_t *s
         memset(trans, 0, sizeof(coap_server_trans_t));
         return -errno;
     }
-    coap_msg_create(&trans->req);
-    coap_msg_create(&trans->resp);
     trans->server = server;
 #ifdef COAP_DTLS_EN
     ret = coap_server_trans_dtls_create(trans);
-- 
2.43.0


From d8dba6773b78df5a57635b123c56042b87aac01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:00 +0000
Subject: [PATCH 09/44] fix: stop the retransmission timer of a separate
 response when a new request replaces it

---
 lib/src/coap_server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index ff7c0bf..1a4c0ab 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2390,6 +2390,15 @@ static int coap_server_exchange(coap_server_t *server)
         coap_log_info("Received non-confirmable request from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
     }
 
+    /* stop retransmitting the previous response */
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_server_trans_destroy(trans);
+        coap_msg_destroy(&recv_msg);
+        return ret;
+    }
+
     /* clear details of the previous request/response */
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
-- 
2.43.0


From acc4e95ff6dcc84ba562b191cfc5ad17ccca066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:00 +0000
Subject: [PATCH 10/44] fix: keep the server running when a retransmission
 cannot be sent

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 1a4c0ab..69fdcf0 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2157,7 +2157,8 @@ static int coap_server_listen(coap_server_t *server)
                 ret = coap_server_trans_handle_ack_timeout(trans);
                 if (ret < 0)
                 {
-                    return ret;
+                    coap_log_error("Failed to retransmit to address %s and port %u: %s", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT), strerror(-ret));
+                    coap_server_trans_destroy(trans);
                 }
             }
         }
-- 
2.43.0


From 6e4c0c6908c4cb40587e2ff757013ab034490648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:00 +0000
Subject: [PATCH 11/44] fix: do not forget an endpoint's last request when
 rejecting an unrelated message from it

---
 lib/src/coap_server.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 69fdcf0..a58c933 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2378,7 +2378,11 @@ static int coap_server_exchange(coap_server_t *server)
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-        coap_server_trans_destroy(trans);
+        if (coap_msg_get_ver(&trans->req) == 0)
+        {
+            /* there is no previous request to remember */
+            coap_server_trans_destroy(trans);
+        }
         return -EBADMSG;
     }
 
-- 
2.43.0


From 61b17b97012f7c9de322f49d82be3c7645d0fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:58 +0000
Subject: [PATCH 12/44] fix: match responses by token even if the server's
 message ID equals the request's

Message IDs of confirmable and non-confirmable messages are chosen by
their sender, so only acknowledgements and resets refer to the message
ID of the request.
---
 lib/src/coap_client.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..c2d3e57 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1390,7 +1390,8 @@ static int coap_client_exchange_sep(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1462,7 +1463,8 @@ static int coap_client_exchange_con(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1544,7 +1546,8 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_RST)
             {
-- 
2.43.0


From 95b5a69c1668c1d0d320a71a29a598726b2e2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:58 +0000
Subject: [PATCH 13/44] fix: do not accept a request from the server as the
 response to a request

---
 lib/src/coap_client.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index c2d3e57..6380ab0 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1247,12 +1247,13 @@ static int coap_client_listen_resp(coap_client_t *client)
  *  @param[in] resp Pointer to the response message
  *
  *  @returns Comparison value
- *  @retval 0 the tokens are not equal
- *  @retval 1 the tokens are equal
+ *  @retval 0 the message is not a response or the tokens are not equal
+ *  @retval 1 the message is a response and the tokens are equal
  */
 static int coap_client_match_token(coap_msg_t *req, coap_msg_t *resp)
 {
-    return ((coap_msg_get_token_len(resp) == coap_msg_get_token_len(req))
+    return ((coap_msg_get_code_class(resp) != COAP_MSG_REQ)
+         && (coap_msg_get_token_len(resp) == coap_msg_get_token_len(req))
          && (memcmp(coap_msg_get_token(resp), coap_msg_get_token(req), coap_msg_get_token_len(req)) == 0));
 }
 
-- 
2.43.0


From a3a579b761199fde94f2b6f125e463c54a3da48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:58 +0000
Subject: [PATCH 14/44] fix: release the partial copy of a request when a
 blockwise transfer cannot copy it

---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 6380ab0..fc752ea 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1694,6 +1694,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1855,6 +1856,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From 212ff96cd542a9a8a885726a30b5c4b0135383a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:50 +0000
Subject: [PATCH 15/44] fix: do not reuse the message ID of a recent request to
 the same server

Each request drew a random message ID, so that a new request could carry
the ID of the previous one and be taken for a duplicate by the server.
---
 lib/include/coap_client.h |  1 +
 lib/src/coap_client.c     | 13 +++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/include/coap_client.h b/lib/include/coap_client.h
index 5efad4b..153d2e3 100755
--- a/lib/include/coap_client.h
+++ b/lib/include/coap_client.h
@@ -55,6 +55,7 @@ typedef struct
     int timer_fd;                                                               /**< Timer file descriptor */
     struct timespec timeout;                                                    /**< Timeout value */
     unsigned num_retrans;                                                       /**< Current number of retransmissions */
+    unsigned msg_id;                                                            /**< Message ID of the next request */
     coap_ipv_sockaddr_in_t server_sin;                                          /**< Socket structture */
     socklen_t server_sin_len;                                                   /**< Socket structure length */
     char server_host[COAP_CLIENT_HOST_BUF_LEN];                                 /**< String to hold the server host address */
diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index fc752ea..3dc5ee1 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -564,6 +564,7 @@ int coap_client_create(coap_client_t *client,
     struct addrinfo hints = {0};
     struct addrinfo *list = NULL;
     struct addrinfo *node = NULL;
+    unsigned char msg_id[2] = {0};
     int flags = 0;
     int ret = 0;
 
@@ -646,6 +647,9 @@ int coap_client_create(coap_client_t *client,
         return ret;
     }
 #endif
+    /* start from a random message ID */
+    coap_msg_gen_rand_str((char *)msg_id, sizeof(msg_id));
+    client->msg_id = (((unsigned)msg_id[1]) << 8) | (unsigned)msg_id[0];
     coap_log_notice("Connected to host %s and port %s", client->server_host, client->server_port);
     return 0;
 }
@@ -1575,8 +1579,6 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
 
 int coap_client_exchange(coap_client_t *client, coap_msg_t *req, coap_msg_t *resp)
 {
-    unsigned char msg_id_buf[2] = {0};
-    unsigned msg_id = 0;
     ssize_t num = 0;
     char token[4] = {0};
     int ret = 0;
@@ -1589,14 +1591,13 @@ int coap_client_exchange(coap_client_t *client, coap_msg_t *req, coap_msg_t *res
         return -EINVAL;
     }
 
-    /* generate the message ID */
-    coap_msg_gen_rand_str((char *)msg_id_buf, sizeof(msg_id_buf));
-    msg_id = (((unsigned)msg_id_buf[1]) << 8) | (unsigned)msg_id_buf[0];
-    ret = coap_msg_set_msg_id(req, msg_id);
+    /* assign the message ID, successive requests must not share the same value */
+    ret = coap_msg_set_msg_id(req, client->msg_id);
     if (ret < 0)
     {
         return ret;
     }
+    client->msg_id = (client->msg_id + 1) & COAP_MSG_MAX_MSG_ID;
 
     /* generate the token */
     coap_msg_gen_rand_str(token, sizeof(token));
-- 
2.43.0


From bc7fa478aba7097eee1c7bc925f28c580c2721d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:53 +0000
Subject: [PATCH 16/44] fix: reject invalid chunk sizes in HTTP messages

The chunk size was read into a signed int, so that a size like fffffff0
moved the parser backwards and made it copy a negative number of bytes,
and white space, including the end of the line, was skipped before it.
---
 proxy/common/src/http_msg.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..f6de3be 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -377,10 +377,9 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     char *param = NULL;
     char *next = NULL;
     char *dest = NULL;
-    int total_len = 0;
-    int chunk_len = 0;
+    size_t total_len = 0;
+    size_t chunk_len = 0;
     int chunked = 0;
-    int ret = 0;
     int i = 0;
 
     str_len = strlen(str);
@@ -431,15 +430,19 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
                 }
 
                 /* parse chunk length */
-                ret = sscanf(chunk_size, "%x", &chunk_len);
-                if (ret != 1)
+                if (!isxdigit((unsigned char)*chunk_size))
                 {
                     return -EBADMSG;
                 }
+                chunk_len = strtoul(chunk_size, NULL, 16);
                 if (chunk_len == 0)
                 {
                     break;
                 }
+                if (chunk_len > (size_t)(str + str_len - next))
+                {
+                    return -EAGAIN;
+                }
                 if (i == 0)
                 {
                     total_len += chunk_len;
-- 
2.43.0


From 8ff0edcad325b694162b30873a5a8a8898f2ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:53 +0000
Subject: [PATCH 17/44] fix: reject invalid Content-Length values in HTTP
 messages

Values that do not fit in an int were silently truncated, so that the
body of the message was taken for the next message, and negative ones
made the parser wait for more data forever.
---
 proxy/common/src/http_msg.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f6de3be..cf2bfb6 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -377,6 +377,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     char *param = NULL;
     char *next = NULL;
     char *dest = NULL;
+    char *end = NULL;
     size_t total_len = 0;
     size_t chunk_len = 0;
     int chunked = 0;
@@ -394,7 +395,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
         }
         if (strcasecmp(header->name, "Content-Length") == 0)
         {
-            content_len = atoi(header->value);
+            errno = 0;
+            content_len = strtoul(header->value, &end, 10);
+            if (!isdigit((unsigned char)*header->value) || (*end != '\0') || (errno != 0))
+            {
+                return -EBADMSG;
+            }
         }
         header = header->next;
     }
-- 
2.43.0


From 0a4f52e592b0fc62e048ab39aea4f8c2b0d1fceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:53 +0000
Subject: [PATCH 18/44] fix: parse HTTP message bodies that contain null bytes

The length of the received data was taken to end at the first null byte,
so that a message with a binary body was considered incomplete forever.
---
 proxy/common/src/http_msg.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index cf2bfb6..447b850 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -360,18 +360,18 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
  *  @brief Parse the body in a message
  *
  *  @param[in,out] msg Pointer to a message structure
- *  @param[in] str String representation of the message body
+ *  @param[in] str Buffer containing the message body followed by a null character
+ *  @param[in] str_len Number of bytes in the buffer not including the null character
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >=0 Number of bytes parsed
  *  @retval <0 Error code
  */
-static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
+static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
 {
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
-    size_t str_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *param = NULL;
@@ -383,8 +383,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     int chunked = 0;
     int i = 0;
 
-    str_len = strlen(str);
-
     header = http_msg_get_first_header(msg);
     while (header != NULL)
     {
@@ -530,11 +528,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
  *
  *  @param[out] msg Pointer to a message structure
  *  @param[in,out] str String containing the message
+ *  @param[in] len Length of the message
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >0 Number of bytes
  *  @retval <0 Error code
- */static ssize_t __http_msg_parse(http_msg_t *msg, char *str)
+ */static ssize_t __http_msg_parse(http_msg_t *msg, char *str, size_t len)
 {
     ssize_t num = 0;
     char *next = str;
@@ -553,7 +552,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     }
     next += num;
 
-    num = http_msg_parse_body(msg, next);
+    num = http_msg_parse_body(msg, next, len - (next - str));
     if (num < 0)
     {
         return num;
@@ -576,7 +575,7 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
     }
     memcpy(str, buf, len);
     str[len] = '\0';
-    num = __http_msg_parse(msg, str);
+    num = __http_msg_parse(msg, str, len);
     free(str);
     return num;
 }
-- 
2.43.0


From 9e60bbdd5c7f514c004a43678619816dda08e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:54 +0000
Subject: [PATCH 19/44] fix: do not write beyond a short buffer when generating
 HTTP messages

When the buffer was no longer than the chunk-size field, or empty, the
remaining space was computed as the largest size_t value and the body
was copied beyond the end of the buffer.
---
 proxy/common/src/http_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 447b850..acdd4cf 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -649,7 +649,7 @@ size_t http_msg_generate(http_msg_t *msg, char *buf, size_t len)
         {
             memcpy(buf + str_len, msg->body, msg->body_len);  /* full copy */
         }
-        else if (str_len < (len - 1))  /* if there is space for one byte not including the '\0' */
+        else if (str_len + 1 < len)  /* if there is space for one byte not including the '\0' */
         {
             memcpy(buf + str_len, msg->body, (len - 1) - str_len);  /* partial copy */
         }
@@ -673,7 +673,7 @@ size_t http_msg_generate_chunk(char *out, size_t out_len, const char *in, size_t
     num += target;
 
     target = in_len;
-    actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+    actual = (out_len == 0) ? 0 : (target <= (out_len - 1)) ? target : (out_len - 1);
     memcpy(out, in, actual);
     out += actual;
     out_len -= actual;
-- 
2.43.0


From 5c0b9a3c87baa4f272b08756e9ac53cd9aa758cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 20/44] fix: do not take a ':' in the path, query or fragment
 for the end of the URI scheme

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 48dcba4..2eafb38 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -369,8 +369,8 @@ static int uri_parse_scheme(uri_t *uri, char **q)
         return -EBADMSG;
     }
     p = *q;
-    r = strchr(p, ':');
-    if (r != NULL)
+    r = strpbrk(p, ":/?#");
+    if ((r != NULL) && (*r == ':'))
     {
         *r = '\0';
         len = strlen(p) + 1;
-- 
2.43.0


From 5b6a9d64db08c0bad3b5f36b9ed2635e766feae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 21/44] fix: do not take '@' or ':' in the path of a URI for
 the userinfo or port

---
 proxy/common/src/uri.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 2eafb38..6395a69 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -432,6 +432,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
         /* parse authority and path */
 
         p += 2;
+        path = strchr(p, '/');
+        if (path != NULL)
+        {
+            *path++ = '\0';
+        }
         r = strchr(p, '@');
         if (r != NULL)
         {
@@ -454,20 +459,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
             p = r + 1;
         }
 
-        /* check for port and path */
+        /* check for port */
         port = uri_find_port(p);
         if (port != NULL)
         {
             *port++ = '\0';
-            path = strchr(port, '/');
-        }
-        else
-        {
-            path = strchr(p, '/');
-        }
-        if (path != NULL)
-        {
-            *path++ = '\0';
         }
 
         /* parse host */
-- 
2.43.0


From 558f03ff869e7dc124eb88b470d631226df41c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 22/44] fix: copy URIs that have a host or a port but no scheme

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 6395a69..78a5a21 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -744,7 +744,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->host != NULL)
     {
         dest->host = strdup(src->host);
-        if (dest->scheme == NULL)
+        if (dest->host == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
@@ -753,7 +753,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->port != NULL)
     {
         dest->port = strdup(src->port);
-        if (dest->scheme == NULL)
+        if (dest->port == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
-- 
2.43.0


From 91cdadbb17e863c3101bca54c27324c22871f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 23/44] fix: do not take the byte 0xff in a URI for an invalid
 percent-encoding

---
 proxy/common/src/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 78a5a21..b2609f2 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -180,7 +180,7 @@ static int uri_decode_octet(const char **str)
     }
     else
     {
-        c = *(*str)++;
+        c = (unsigned char)*(*str)++;
     }
     return c;
 }
-- 
2.43.0


From d030a4a64247492b53765f8185c453ca75a8c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 24/44] fix: refuse percent-encoded null characters in a URI
 instead of cutting it off

---
 proxy/common/src/uri.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index b2609f2..acb0050 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -177,6 +177,11 @@ static int uri_decode_octet(const char **str)
         }
         *p = '\0';
         c = uri_2_hex_to_int(num);
+        if (c == 0)
+        {
+            /* a null character cannot be represented in a string */
+            c = -1;
+        }
     }
     else
     {
-- 
2.43.0


From 2a7c441161d7d6a71d7da081b01d3dc118596ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 25/44] fix: do not convert unknown CoAP success codes to HTTP
 error responses

---
 proxy/common/src/cross.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..f25467f 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -145,6 +145,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -170,6 +171,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -188,6 +190,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
             /* could use 502 Bad Gateway */
             return http_msg_set_start(http_msg, "HTTP/1.1", "501", "Not Implemented");
         }
+        break;
     }
     return -EBADMSG;
 }
-- 
2.43.0


From 617692e8c402dd851f922544c8814bcfe54609dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 26/44] fix: do not percent-decode CoAP option values when
 converting them to a URI

---
 proxy/common/src/cross.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index f25467f..bbf27ff 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -391,11 +391,11 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
             }
             memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
             tmp[coap_msg_op_get_len(op)] = '\0';
-            ret = uri_set_host(&uri, tmp);
-            if (ret < 0)
+            uri.host = strdup(tmp);  /* option values are not percent-encoded */
+            if (uri.host == NULL)
             {
                 uri_destroy(&uri);
-                return ret;
+                return -ENOMEM;
             }
             break;
         }
@@ -415,11 +415,11 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
             }
             memcpy(tmp, coap_msg_op_get_val(op), coap_msg_op_get_len(op));
             tmp[coap_msg_op_get_len(op)] = '\0';
-            ret = uri_set_port(&uri, tmp);
-            if (ret < 0)
+            uri.port = strdup(tmp);  /* option values are not percent-encoded */
+            if (uri.port == NULL)
             {
                 uri_destroy(&uri);
-                return ret;
+                return -ENOMEM;
             }
             break;
         }
@@ -450,11 +450,11 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
         tmp[0] = '/';
         tmp[1] = '\0';
     }
-    ret = uri_set_path(&uri, tmp);
-    if (ret < 0)
+    uri.path = strdup(tmp);
+    if (uri.path == NULL)
     {
         uri_destroy(&uri);
-        return ret;
+        return -ENOMEM;
     }
 
     /* query */
@@ -481,11 +481,11 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     }
     if (num > 0)
     {
-        ret = uri_set_query(&uri, tmp);
-        if (ret < 0)
+        uri.query = strdup(tmp);
+        if (uri.query == NULL)
         {
             uri_destroy(&uri);
-            return ret;
+            return -ENOMEM;
         }
     }
 
-- 
2.43.0


From d1ca4cb65b31390e4e01d4f52542b049b4350dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 27/44] fix: report that a URI does not fit in an empty buffer

---
 proxy/common/src/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index bbf27ff..6b2149e 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -492,7 +492,7 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     /* generate URI */
     num = uri_generate(&uri, buf, len);
     uri_destroy(&uri);
-    if (num > len - 1)
+    if (num >= len)
     {
         return -ENOSPC;
     }
-- 
2.43.0


From a39b724ee45f88ca1596a88efb3d270fc0607db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 28/44] fix: do not copy control characters from a CoAP ETag to
 a HTTP header

---
 proxy/common/src/cross.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 6b2149e..5003624 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -33,6 +33,7 @@
 
 #include <stdio.h>
 #include <string.h>
+#include <ctype.h>
 #include <errno.h>
 #include "cross.h"
 #include "uri.h"
@@ -612,6 +613,7 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
 {
     coap_msg_op_t *op = NULL;
     unsigned val = 0;
+    unsigned i = 0;
     char tmp[CROSS_TMP_BUF_LEN] = {0};
     int ret = 0;
 
@@ -648,6 +650,18 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
             switch (coap_msg_op_get_num(op))
             {
             case COAP_MSG_ETAG:
+                for (i = 0; i < coap_msg_op_get_len(op); i++)
+                {
+                    if (iscntrl((unsigned char)tmp[i]))
+                    {
+                        break;
+                    }
+                }
+                if (i < coap_msg_op_get_len(op))
+                {
+                    /* cannot be represented in a HTTP header */
+                    break;
+                }
                 ret = http_msg_set_header(http_msg, "Etag", tmp);
                 if (ret < 0)
                 {
-- 
2.43.0


From 222ccdfb35688138d55d15c0676b615d2d6409ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 29/44] fix: delimit HTTP responses that have no body

---
 proxy/common/src/cross.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index 5003624..6d639c8 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -845,6 +845,16 @@ int cross_resp_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg, const ch
             return ret;
         }
     }
+    else
+    {
+        /* the end of the response must be recognisable without closing the connection */
+        ret = http_msg_set_header(http_msg, "Content-Length", "0");
+        if (ret < 0)
+        {
+            *code = 502;
+            return ret;
+        }
+    }
     *code = 0;
     return 0;
 }
-- 
2.43.0


From 344354a9f913aa7808bc6638ccf56aded9216d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 30/44] fix: delimit HTTP error responses and drop what was
 already converted

---
 proxy/http_coap/src/connection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..95fcec9 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -340,6 +340,7 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     char int_buf[CONNECTION_INT_BUF_LEN] = {0};
     int ret = 0;
 
+    http_msg_reset(msg);
     snprintf(int_buf, sizeof(int_buf), "%u", code);
     str = cross_http_resp_code_to_str(code);
     ret = http_msg_set_start(msg, "HTTP/1.1", int_buf, str);
@@ -349,6 +350,13 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
                        con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
         return ret;
     }
+    ret = http_msg_set_header(msg, "Content-Length", "0");
+    if (ret < 0)
+    {
+        coap_log_error("[%u] <%u> %s Failed to set header in response message to HTTP client: %s",
+                       con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+        return ret;
+    }
     return 0;
 }
 
-- 
2.43.0


From 9ccd94f34a6d02d7e088b999667f574eeb276ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 31/44] fix: do not cut the last byte off a response that just
 fills the send buffer

---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 95fcec9..872626c 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -290,7 +290,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))
         {
             break;
         }
-- 
2.43.0


From e0908a792a96f0892d17548af240296b6cb90e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:36 +0000
Subject: [PATCH 32/44] fix: do not return the body of a GET request as the
 body of its response

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 872626c..97c998d 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -379,6 +379,7 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
         coap_log_info("[%u] <%u> %s Sending GET request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
                       con->coap_client_host, con->coap_client_port);
+        con->body_end = 0;
         ret = coap_client_exchange(&con->coap_client, req_msg, resp_msg);
         if (ret < 0)
         {
-- 
2.43.0


From 84820613f36ad2da439b38c1e11891f278e35173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:37 +0000
Subject: [PATCH 33/44] fix: forward DELETE requests to the CoAP server

---
 proxy/http_coap/src/connection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 97c998d..9655c3d 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -520,6 +520,18 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else if (coap_msg_get_code_detail(req_msg) == COAP_MSG_DELETE)
+    {
+        coap_log_info("[%u] <%u> %s Sending DELETE request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        con->body_end = 0;
+        ret = coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+        if (ret < 0)
+        {
+            return ret;
+        }
+    }
     return 0;
 }
 
-- 
2.43.0


From f00ec92ae10990b67e830d48023d04774e98e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:37 +0000
Subject: [PATCH 34/44] fix: do not crash on request URIs without a host or a
 port

---
 proxy/http_coap/src/connection.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 9655c3d..ce447fb 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -53,6 +53,8 @@
 #define CONNECTION_BODY_LEN            8192
 #define CONNECTION_COAP_BLOCK1_SIZE    32
 #define CONNECTION_COAP_BLOCK2_SIZE    32
+#define CONNECTION_COAP_PORT           "5683"
+#define CONNECTION_COAPS_PORT          "5684"
 
 typedef enum
 {
@@ -565,6 +567,24 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    if (uri_get_host(&uri) == NULL)
+    {
+        coap_log_error("[%u] <%u> %s No host in request URI in request message from HTTP client",
+                       con->listener_index, con->con_index, con->addr);
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
+    if ((uri_get_port(&uri) == NULL) || (*uri_get_port(&uri) == '\0'))
+    {
+        ret = uri_set_port(&uri, strcasecmp(uri_get_scheme(&uri), "coap") == 0 ? CONNECTION_COAP_PORT : CONNECTION_COAPS_PORT);
+        if (ret < 0)
+        {
+            uri_destroy(&uri);
+            coap_msg_destroy(&coap_req_msg);
+            return ret;
+        }
+    }
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0


From e653a66d260c56b7e26bd2f73d271419d76675df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:26 +0000
Subject: [PATCH 35/44] fix: do not wait for the socket while the TLS session
 holds received data

---
 proxy/http_coap/src/connection.c | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index ce447fb..952d67e 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -194,34 +194,21 @@ static void connection_coap_client_destroy(connection_t *con)
  */
 static int connection_recv(connection_t *con, http_msg_t *msg)
 {
-    struct timeval tv = {0};
     ssize_t num = 0;
-    fd_set readfds = {{0}};
     int ret = 0;
-    int sd = 0;
 
-    tv.tv_sec = tls_sock_get_timeout(con->sock);
-    tv.tv_usec = 0;
-    sd = tls_sock_get_sd(con->sock);
     while (1)
     {
-        FD_ZERO(&readfds);
-        FD_SET(sd, &readfds);
-        errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
-        if (ret == 0)
+        /* tls_sock_read waits for the socket itself, but not before it has
+         * returned everything that the TLS session has already received
+         */
+        num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
+        if (num == SOCK_TIMEOUT)
         {
             coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
                           con->listener_index, con->con_index, con->addr);
             return CON_RET_TIMEDOUT;
         }
-        else if (ret == -1)
-        {
-            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
-                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
-            return -errno;
-        }
-        num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
         if (num < 0)
         {
             coap_log_error("[%u] <%u> %s Failed to read from socket connected to HTTP client: %s",
-- 
2.43.0


From 266d8beb9f54fc62ecc6514f4b4c779d68d34395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:26 +0000
Subject: [PATCH 36/44] fix: process requests that were received along with the
 previous one

---
 proxy/http_coap/src/connection.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 952d67e..121ae44 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -197,6 +197,22 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
     ssize_t num = 0;
     int ret = 0;
 
+    if (data_buf_get_count(&con->recv_buf) > 0)
+    {
+        /* the request may have been received along with the previous one */
+        num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
+        if (num > 0)
+        {
+            data_buf_consume(&con->recv_buf, num);
+            return 0;
+        }
+        if (num != -EAGAIN)
+        {
+            coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
+                           con->listener_index, con->con_index, con->addr, http_msg_strerror(num));
+            return num;
+        }
+    }
     while (1)
     {
         /* tls_sock_read waits for the socket itself, but not before it has
-- 
2.43.0


From 43e78fb6f3e7509b9ce4c3d739415de7aa5349af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:27 +0000
Subject: [PATCH 37/44] fix: do not return the first block of a response to PUT
 or POST as the whole response

---
 proxy/http_coap/src/connection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 121ae44..dd62f5c 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -445,6 +445,12 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
         {
             return ret;
         }
+        ret = coap_msg_parse_block_op(&block_num, &block_more, &block_size, resp_msg, COAP_MSG_BLOCK2);
+        if ((ret == 0) && (block_more))
+        {
+            /* the remaining blocks cannot be retrieved */
+            return -EBADMSG;
+        }
         code_class = coap_msg_get_code_class(resp_msg);
         code_detail = coap_msg_get_code_detail(resp_msg);
         if ((code_class == COAP_MSG_CLIENT_ERR)
@@ -500,6 +506,12 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
         {
             return ret;
         }
+        ret = coap_msg_parse_block_op(&block_num, &block_more, &block_size, resp_msg, COAP_MSG_BLOCK2);
+        if ((ret == 0) && (block_more))
+        {
+            /* the remaining blocks cannot be retrieved */
+            return -EBADMSG;
+        }
         code_class = coap_msg_get_code_class(resp_msg);
         code_detail = coap_msg_get_code_detail(resp_msg);
         if ((code_class == COAP_MSG_CLIENT_ERR)
-- 
2.43.0


From a08fc66316fc411692fa6ba2446ffbe9e65fcf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:46 +0000
Subject: [PATCH 38/44] fix: do not read beyond the end of a configuration that
 does not end with a newline

---
 proxy/common/src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index d5fe226..5b28e47 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -270,7 +270,7 @@ static int config_parser_next(config_parser_t *p)
 
     p->prev_line = p->line;
     p->prev_col = p->col;
-    if (p->in_idx == p->in_len)
+    if (p->in_idx >= p->in_len)
     {
         c = '\0';
     }
-- 
2.43.0


From a0462fdd7fead6c0977e0a8ea872acd8d6006708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:46 +0000
Subject: [PATCH 39/44] fix: describe configuration errors with their own text

---
 proxy/common/src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 5b28e47..03b9bf4 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -37,7 +37,7 @@
 #include <ctype.h>
 #include "config.h"
 
-#define CONFIG_NUM_STR  6
+#define CONFIG_NUM_STR  5
 
 #define CONFIG_PARSER_DEF_TAB_WIDTH   4
 #define CONFIG_PARSER_INIT_STR_LEN   64
@@ -106,7 +106,6 @@ static const char *config_str[CONFIG_NUM_STR + 1] =
     "ok",
     "invalid argument",
     "out of memory",
-    "input/output error",
     "lexical error",
     "syntax error",
     "unknown"
-- 
2.43.0


From 84895c3b32eb12dcaaebf5626be5d2b91bc3ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:46 +0000
Subject: [PATCH 40/44] fix: keep the value of a configuration entry if it
 cannot be replaced

---
 proxy/common/src/config.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 03b9bf4..80d7942 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -895,6 +895,7 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
 {
     config_section_t *section = NULL;
     config_entry_t *entry = NULL;
+    char *value = NULL;
     int ret = 0;
 
     section = config_find_section(config, section_name);
@@ -910,12 +911,13 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
     if (entry != NULL)
     {
         /* replace existing value */
-        free(entry->value);
-        entry->value = strdup(entry_value);
-        if (entry->value == NULL)
+        value = strdup(entry_value);
+        if (value == NULL)
         {
             return CONFIG_ENOMEM;
         }
+        free(entry->value);
+        entry->value = value;
     }
     else
     {
-- 
2.43.0


From 10d208e36e0dafab120aded8c05b1b03d6bf2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:17 +0000
Subject: [PATCH 41/44] fix: unlink an entry from the registrar before deleting
 it

---
 sample/reg_server/registrar.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sample/reg_server/registrar.c b/sample/reg_server/registrar.c
index 1c918ee..e461e14 100755
--- a/sample/reg_server/registrar.c
+++ b/sample/reg_server/registrar.c
@@ -135,9 +135,13 @@ int registrar_del(registrar_t *registrar, const char *id)
         return -EINVAL;
     }
     if (registrar->first == entry)
-        registrar->first = registrar_entry_get_next(registrar->first);
+        registrar->first = registrar_entry_get_next(entry);
+    else
+        registrar_entry_set_next(registrar_entry_get_prev(entry), registrar_entry_get_next(entry));
     if (registrar->last == entry)
-        registrar->last = registrar_entry_get_prev(registrar->last);
+        registrar->last = registrar_entry_get_prev(entry);
+    else
+        registrar_entry_set_prev(registrar_entry_get_next(entry), registrar_entry_get_prev(entry));
     registrar_entry_delete(entry);
     return 0;
 }
-- 
2.43.0


From f8d415cf4873f24c5488a06e7cb2096882996ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:18 +0000
Subject: [PATCH 42/44] fix: read data buffered during a TLS rehandshake
 without waiting for more

---
 proxy/common/src/tls_sock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/common/src/tls_sock.c b/proxy/common/src/tls_sock.c
index 7b8cfd8..bf798d9 100755
--- a/proxy/common/src/tls_sock.c
+++ b/proxy/common/src/tls_sock.c
@@ -554,6 +554,7 @@ ssize_t tls_sock_read(tls_sock_t *s, void *buf, size_t len)
             {
                 return ret;
             }
+            continue;  /* data may have been received and buffered during the handshake */
         }
         else if (num == GNUTLS_E_INTERRUPTED)
         {
-- 
2.43.0


From 37d3f2a0af0c1f719ab769bdf2b8c82dc3742c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:18 +0000
Subject: [PATCH 43/44] fix: release GnuTLS when the TLS priority cache cannot
 be created

---
 proxy/common/src/tls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index 19ec24c..e85cc98 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -53,6 +53,7 @@ int tls_init(void)
         ret = gnutls_priority_init(&_tls_priority_cache, "NORMAL", NULL);
         if (ret != GNUTLS_E_SUCCESS)
         {
+            gnutls_global_deinit();
             return SOCK_TLS_INIT_ERROR;
         }
         _tls_init = 1;
-- 
2.43.0


From b871335ca61b9a69ed6661da1744dc7c5fa913ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:18 +0000
Subject: [PATCH 44/44] fix: replace a stored TLS session instead of keeping a
 stale copy

---
 proxy/common/src/tls.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index e85cc98..1334dd0 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -313,19 +313,34 @@ static void tls_server_cache_destroy(tls_server_cache_t *cache)
 
 static int tls_server_cache_set(tls_server_cache_t *cache, gnutls_datum_t key, gnutls_datum_t data)
 {
+    unsigned i = 0;
+    int found = 0;
+
     if ((key.size > TLS_SERVER_MAX_SESSION_ID_SIZE) || (data.size > TLS_SERVER_MAX_SESSION_DATA_SIZE))
     {
         return SOCK_TLS_CACHE_ERROR;
     }
 
-    memcpy(cache->element[cache->index].session_id, key.data, key.size);
-    cache->element[cache->index].session_id_size = key.size;
+    for (i = 0; i < cache->size; i++)
+    {
+        if ((key.size == cache->element[i].session_id_size)
+         && (memcmp(key.data, cache->element[i].session_id, key.size) == 0))
+        {
+            found = 1;
+            break;
+        }
+    }
+    if (!found)
+    {
+        i = cache->index++;
+        cache->index %= cache->size;
+    }
 
-    memcpy(cache->element[cache->index].session_data, data.data, data.size);
-    cache->element[cache->index].session_data_size = data.size;
+    memcpy(cache->element[i].session_id, key.data, key.size);
+    cache->element[i].session_id_size = key.size;
 
-    cache->index++;
-    cache->index %= cache->size;
+    memcpy(cache->element[i].session_data, data.data, data.size);
+    cache->element[i].session_data_size = data.size;
 
     return SOCK_OK;
 }
-- 
2.43.0

