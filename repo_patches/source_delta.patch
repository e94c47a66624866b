From 7cc732163903506a02163342705fecfc38397c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:26 +0000
Subject: [PATCH 01/60] Add VERIF_HOOKS guard: bypass object pools so
 sanitizers see stale references

---
 ircd/IPcheck.c |  8 ++++++++
 ircd/channel.c | 10 ++++++++++
 ircd/dbuf.c    |  5 +++++
 ircd/list.c    | 18 ++++++++++++++++++
 ircd/msgq.c    | 12 ++++++++++++
 5 files changed, 53 insertions(+)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index a81246d..64f5b48 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -217,6 +217,10 @@ static void ip_registry_delete_entry(struct IPRegistryEntry* entry)
 {
   if (entry->target)
     MyFree(entry->target);
+#ifdef VERIF_HOOKS
+  MyFree(entry);
+  return;
+#endif
   entry->next = freeList;
   freeList = entry;
 }
@@ -343,6 +347,10 @@ static void ip_registry_expire(struct Event* ev)
     for (prev_p = &hashTable48[i]; (entry = *prev_p); ) {
       if (CONNECTED_SINCE(entry->last_connect) > 600) {
         *prev_p = entry->next;
+#ifdef VERIF_HOOKS
+        MyFree(entry);
+        continue;
+#endif
         entry->next = freeList48;
         freeList48 = entry;
       } else
diff --git a/ircd/channel.c b/ircd/channel.c
index fb58324..6533991 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -202,6 +202,12 @@ make_ban(const char *banstr)
 void
 free_ban(struct Ban *ban)
 {
+#ifdef VERIF_HOOKS
+  bans_inuse--;
+  bans_alloc--;
+  MyFree(ban);
+  return;
+#endif
   ban->next = free_bans;
   free_bans = ban;
   bans_inuse--;
@@ -614,6 +620,10 @@ static int remove_member_from_channel(struct Membership* member)
   /* Check if the channel needs to be updated for TLS */
   CheckChannelTLS(chptr);
 
+#ifdef VERIF_HOOKS
+  MyFree(member);
+  return sub1_from_channel(chptr);
+#endif
   member->next_member = membershipFreeList;
   membershipFreeList = member;
 
diff --git a/ircd/dbuf.c b/ircd/dbuf.c
index a7abe5b..5d73977 100644
--- a/ircd/dbuf.c
+++ b/ircd/dbuf.c
@@ -105,6 +105,11 @@ static void dbuf_free(struct DBufBuffer *db)
 {
   assert(0 != db);
   --DBufUsedCount;
+#ifdef VERIF_HOOKS
+  --DBufAllocCount;
+  MyFree(db);
+  return;
+#endif
   db->next = dbufFreeList;
   dbufFreeList = db;
 }
diff --git a/ircd/list.c b/ircd/list.c
index a4ae97a..a7cad62 100644
--- a/ircd/list.c
+++ b/ircd/list.c
@@ -122,6 +122,12 @@ static void dealloc_client(struct Client* cptr)
 
   --clients.inuse;
 
+#ifdef VERIF_HOOKS
+  cli_magic(cptr) = 0;
+  clients.alloc--;
+  MyFree(cptr);
+  return;
+#endif
   cli_next(cptr) = clientFreeList;
   clientFreeList = cptr;
 
@@ -175,6 +181,12 @@ static void dealloc_connection(struct Connection* con)
 
   --connections.inuse;
 
+#ifdef VERIF_HOOKS
+  con_magic(con) = 0;
+  connections.alloc--;
+  MyFree(con);
+  return;
+#endif
   con_next(con) = connectionFreeList;
   connectionFreeList = con;
 
@@ -448,6 +460,12 @@ struct SLink* make_link(void)
 void free_link(struct SLink* lp)
 {
   if (lp) {
+#ifdef VERIF_HOOKS
+    links.alloc--;
+    links.inuse--;
+    MyFree(lp);
+    return;
+#endif
     lp->next = slinkFreeList;
     slinkFreeList = lp;
     links.inuse--;
diff --git a/ircd/msgq.c b/ircd/msgq.c
index 44e911d..f1d76f6 100644
--- a/ircd/msgq.c
+++ b/ircd/msgq.c
@@ -125,6 +125,11 @@ msgq_delmsg(struct MsgQ *mq, struct MsgQList *qlist, unsigned int *length_p)
 
     MQData.msgs.used--; /* struct Msg is not in use anymore */
 
+#ifdef VERIF_HOOKS
+    MQData.msgs.alloc--;
+    MyFree(m);
+    return;
+#endif
     m->next = MQData.msgs.free; /* throw it onto the free list */
     MQData.msgs.free = m;
   } else {
@@ -517,6 +522,13 @@ msgq_clean(struct MsgBuf *mb)
     if (mb->real && mb->real != mb) /* clean up the real buffer */
       msgq_clean(mb->real);
 
+#ifdef VERIF_HOOKS
+    MQData.msgBufs[mb->power - MB_BASE_SHIFT].used--;
+    MQData.msgBufs[mb->power - MB_BASE_SHIFT].alloc--;
+    MQData.tot_bufsize -= 1 << mb->power;
+    MyFree(mb);
+    return;
+#endif
     mb->next = MQData.msgBufs[mb->power - MB_BASE_SHIFT].free;
     MQData.msgBufs[mb->power - MB_BASE_SHIFT].free = mb;
     MQData.msgBufs[mb->power - MB_BASE_SHIFT].used--;
-- 
2.43.0


From 3100aefc3f0296ffd27412ad14c8c5a62e73c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 02/60] fix: do not read past the lexer buffer when reporting
 an unknown configuration token

---
 ircd/ircd_lexer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/ircd_lexer.c b/ircd/ircd_lexer.c
index d99c6da..5bb7355 100644
--- a/ircd/ircd_lexer.c
+++ b/ircd/ircd_lexer.c
@@ -377,12 +377,14 @@ int yylex(void)
       save = *pos;
       *pos = '\0';
       nbr = find_token(start);
+      /* Report before restoring: the buffer is not otherwise terminated. */
+      if (!nbr)
+        log_write(LS_CONFIG, L_CRIT, 0, "unhandled token %s at line %d of %s",
+          start, yy_in->lineno, yy_in->name);
       *pos = save;
       yy_in->tok_ofs = pos - yy_in->buf;
       if (nbr)
         return nbr;
-      log_write(LS_CONFIG, L_CRIT, 0, "unhandled token %s at line %d of %s",
-        start, yy_in->lineno, yy_in->name);
     }
 
     /* Otherwise we are looking at a meaningful character. */
-- 
2.43.0


From 3ce3ed3b56cb27a217c5c1b4fe262d42111036c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 03/60] fix: do not look at a client that its own socket event
 destroyed

---
 ircd/s_bsd.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 15036f2..9d175e3 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -1208,7 +1208,8 @@ static void client_sock_callback(struct Event* ev)
     break;
   }
 
-  assert(0 == cptr || 0 == cli_connect(cptr) || con == cli_connect(cptr));
+  /* cptr is gone if the event made it exit; con_client() says so. */
+  assert(0 == cptr || 0 == con_client(con) || con == cli_connect(cptr));
 
   if (fallback) {
     const char* msg = (cli_error(cptr)) ? strerror(cli_error(cptr)) : fallback;
@@ -1256,5 +1257,6 @@ static void client_timer_callback(struct Event* ev)
     read_packet(cptr, 0); /* read_packet will re-add timer if needed */
   }
 
-  assert(0 == cptr || 0 == cli_connect(cptr) || con == cli_connect(cptr));
+  /* cptr is gone if the event made it exit; con_client() says so. */
+  assert(0 == cptr || 0 == con_client(con) || con == cli_connect(cptr));
 }
-- 
2.43.0


From 761a487a51b6204cbf93c918b6ef1a63bc727319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 04/60] fix: do not read a freed silence entry when one update
 overlaps another

---
 ircd/m_silence.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ircd/m_silence.c b/ircd/m_silence.c
index ce9d4dc..4e641ce 100644
--- a/ircd/m_silence.c
+++ b/ircd/m_silence.c
@@ -243,6 +243,16 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
     }
   }
 
+  /* Free any silence-deleting updates.  This has to come before the
+   * list is cleaned up, since an accepted addition that was overlapped
+   * by a later one is freed there.
+   */
+  for (ii = 0; ii < ac_count; ++ii) {
+    if ((accepted[ii]->flags & (BAN_ADD | BAN_DEL)) == BAN_DEL) {
+      free_ban(accepted[ii]);
+    }
+  }
+
   /* Remove overlapped and deleted silences from the user's silence
    * list.  Clear BAN_ADD since we're walking the list anyway.
    */
@@ -256,13 +266,6 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
       plast = &sile->next;
     }
   }
-
-  /* Free any silence-deleting updates. */
-  for (ii = 0; ii < ac_count; ++ii) {
-    if ((accepted[ii]->flags & (BAN_ADD | BAN_DEL)) == BAN_DEL) {
-      free_ban(accepted[ii]);
-    }
-  }
 }
 
 /** Handle a SILENCE command from a local user.
-- 
2.43.0


From 4962f363dd8b17fcbcc3a5c6a0a410cb22299f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:05 +0000
Subject: [PATCH 05/60] fix: compare nick timestamps before the colliding
 client is freed

---
 ircd/m_nick.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/m_nick.c b/ircd/m_nick.c
index 8b62235..4c91a20 100644
--- a/ircd/m_nick.c
+++ b/ircd/m_nick.c
@@ -286,6 +286,7 @@ int ms_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   char nick[NICKLEN + 2];
   time_t lastnick = 0;
   int differ = 1;
+  int same_ts;
   const char *type;
 
   assert(0 != cptr);
@@ -490,9 +491,10 @@ int ms_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   sendcmdto_serv_butone(&me, CMD_KILL, NULL, "%C :%s (%s)",
                         acptr, feature_str(FEAT_HIS_SERVERNAME),
                         type);
+  same_ts = (lastnick == cli_lastnick(acptr));
   exit_client_msg(cptr, acptr, &me, "Killed (%s (%s))",
                   feature_str(FEAT_HIS_SERVERNAME), type);
-  if (lastnick == cli_lastnick(acptr))
+  if (same_ts)
     return 0;
   return set_nick_name(cptr, sptr, nick, parc, parv);
 }
-- 
2.43.0


From a349fc532c936306bc8f10d6fff3c9be56cde8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:42 +0000
Subject: [PATCH 06/60] fix: do not release an authorization request twice when
 nothing is pending

---
 ircd/s_auth.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 20ec3b3..809ddc8 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1297,8 +1297,10 @@ void start_auth(struct Client* client)
   /* Add client to GlobalClientList. */
   add_client_to_list(client);
 
-  /* Check which auth events remain pending. */
-  check_auth_finished(auth, 0);
+  /* Check which auth events remain pending, unless start_dns_ident()
+   * already found that there were none and released the request. */
+  if (cli_auth(client))
+    check_auth_finished(auth, 0);
 }
 
 /** Start DNS and ident queries for a client, if appropriate.
-- 
2.43.0


From a0fb070f5623abb45e38b7f06fa7bb1c179bcfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:42 +0000
Subject: [PATCH 07/60] fix: do not read past the end of an empty numeric

---
 ircd/numnicks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 01dc2ee..1a7265c 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -135,7 +135,7 @@ static const unsigned int convert2n[] = {
  */
 unsigned int base64toint(const char* s)
 {
-  unsigned int i = convert2n[(unsigned char) *s++];
+  unsigned int i = 0;
   while (*s) {
     i <<= NUMNICKLOG;
     i += convert2n[(unsigned char) *s++];
-- 
2.43.0


From f6749085a74ce31ed91b9af585e692e5f92e8ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:42 +0000
Subject: [PATCH 08/60] fix: keep the whowas list consistent when its last
 record is reclaimed

---
 ircd/whowas.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/whowas.c b/ircd/whowas.c
index b3cc224..b4b77a1 100644
--- a/ircd/whowas.c
+++ b/ircd/whowas.c
@@ -172,6 +172,8 @@ whowas_clean(struct Whowas *ww)
 
   if (wwList.ww_tail == ww) /* update tail pointer appropriately */
     wwList.ww_tail = ww->wprev;
+  if (wwList.ww_list == ww) /* this was the only record */
+    wwList.ww_list = ww->wnext;
 
   /* Free old info */
   if (ww->name)
@@ -220,7 +222,8 @@ whowas_alloc(void)
 {
   struct Whowas *ww;
 
-  if (wwList.ww_alloc >= feature_int(FEAT_NICKNAMEHISTORYLENGTH)) {
+  if (wwList.ww_alloc >= feature_int(FEAT_NICKNAMEHISTORYLENGTH)
+      && wwList.ww_tail) {
     /* reclaim the oldest whowas entry */
     ww = whowas_clean(wwList.ww_tail);
   } else {
-- 
2.43.0


From 3322f512958cfff73fdec81d707f5bd51d89daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 09/60] fix: do not leave unprocessed bans of an ignored mode
 change on the channel

---
 ircd/channel.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index 6533991..4e25b0e 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3023,6 +3023,24 @@ mode_parse_ban(struct ParseState *state, int *flag_p)
   apply_ban(&state->chptr->banlist, newban, 0);
 }
 
+/*
+ * Drop the changes mode_parse_ban() made to the channel's ban list when
+ * they will not be processed; the new entries live in \a state.
+ */
+static void
+mode_discard_bans(struct ParseState *state)
+{
+  struct Ban **ban_p;
+
+  for (ban_p = &state->chptr->banlist; *ban_p; ban_p = &(*ban_p)->next) {
+    if ((*ban_p)->flags & BAN_ADD) { /* the rest of the list is ours */
+      *ban_p = 0;
+      break;
+    }
+    (*ban_p)->flags &= ~(BAN_DEL | BAN_OVERLAPPED);
+  }
+}
+
 /*
  * This is the bottom half of the ban processor
  */
@@ -3541,6 +3559,8 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
             state.mbuf->mb_add = 0;
             state.mbuf->mb_rem = 0;
             state.mbuf->mb_count = 0;
+            if (state.done & DONE_BANCLEAN)
+              mode_discard_bans(&state);
             return state.args_used;
           } else {
             /* Server is desynced; bounce the mode and deop the source
-- 
2.43.0


From 74a4561957ad7da465d44c44f02b795c174cf647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 10/60] fix: do not match past the end of both strings after a
 trailing escape

---
 ircd/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/match.c b/ircd/match.c
index cb3db43..acbb935 100644
--- a/ircd/match.c
+++ b/ircd/match.c
@@ -207,7 +207,7 @@ int match(const char *mask, const char *name)
   case '\\':
     m++;
     /* allow escaping to force capitalization */
-    if (*m++ != *n++)
+    if (!*m || *m++ != *n++)
       goto backtrack;
     break;
   case '*': case '?':
-- 
2.43.0


From 7138540f4f142301ac6178e394169ff4c28e409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 11/60] fix: tolerate missing parameters when checking burst
 modes for a netride

---
 ircd/m_burst.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index b4f4b40..cd29a68 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -121,11 +121,12 @@ netride_modes(int parc, char **parv, const char *curr_key)
       result |= MODE_INVITEONLY;
       break;
     case 'k':
-      if (strcmp(curr_key, *++parv))
+      if (*parv && *++parv && strcmp(curr_key, *parv))
         result |= MODE_KEY;
       break;
     case 'l':
-      ++parv;
+      if (*parv)
+        ++parv;
       break;
     case 'r':
       result |= MODE_REGONLY;
-- 
2.43.0


From 89669c6a145351c8872f6d68817e632e0a490fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:21 +0000
Subject: [PATCH 12/60] fix: unlink only the rejected entry when a silence list
 is full

Truncating the list at the last kept entry also dropped removals made by
the same command (the client was never told and the entries leaked) and
shorter entries accepted after the rejected one.
---
 ircd/m_silence.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ircd/m_silence.c b/ircd/m_silence.c
index 4e641ce..2d6d071 100644
--- a/ircd/m_silence.c
+++ b/ircd/m_silence.c
@@ -133,13 +133,11 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
     maxlength = maxsiles * feature_int(FEAT_AVBANLEN);
     siles = totlength = 0;
     /* Count number of current silences and their total length. */
-    plast = &cli_user(sptr)->silence;
     for (sile = cli_user(sptr)->silence; sile; sile = sile->next) {
       if (sile->flags & (BAN_OVERLAPPED | BAN_ADD | BAN_DEL))
         continue;
       siles++;
       totlength += strlen(sile->banstr);
-      plast = &sile->next;
     }
     for (ii = jj = 0; ii < ac_count; ++ii) {
       sile = accepted[ii];
@@ -149,7 +147,14 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
       if (!(sile->flags & (BAN_OVERLAPPED | BAN_DEL))) {
         slen = strlen(sile->banstr);
         if ((siles >= maxsiles) || (totlength + slen >= maxlength)) {
-          *plast = NULL;
+          /* Unlink only this entry; its neighbours may be removals that
+           * still have to be reported or updates that were accepted.
+           */
+          plast = &cli_user(sptr)->silence;
+          while (*plast && *plast != sile)
+            plast = &(*plast)->next;
+          if (*plast)
+            *plast = sile->next;
           if (MyUser(sptr))
             send_reply(sptr, ERR_SILELISTFULL, accepted[ii]->banstr);
           free_ban(accepted[ii]);
@@ -158,7 +163,6 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
         /* Update counts. */
         siles++;
         totlength += slen;
-        plast = &sile->next;
       }
       /* Store the update. */
       accepted[jj++] = sile;
-- 
2.43.0


From b52b1304693e13d008891190797349f8e1b4fdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:46 +0000
Subject: [PATCH 13/60] fix: forget a line's message tags once it has been
 handled

The current tags point into the sending connection's buffer, so they
dangled after that connection was freed and were consulted (and could be
attached) when later, unrelated messages were sent.
---
 ircd/parse.c | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/ircd/parse.c b/ircd/parse.c
index 8fd4472..c8b4556 100644
--- a/ircd/parse.c
+++ b/ircd/parse.c
@@ -880,17 +880,15 @@ int unregister_mapping(struct s_map *map)
   return 1;
 }
 
-/** Parse a line of data from a user.
- * NOTE: parse_*() should not be called recursively by any other
- * functions!
+/** Parse a line of data from a user (helper for parse_client()).
  * @param[in] cptr Client that sent the data.
  * @param[in] buffer Start of input line.
  * @param[in] bufend End of input line.
  * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
  * handler returns it.
  */
-int
-parse_client(struct Client *cptr, char *buffer, char *bufend)
+static int
+parse_client_line(struct Client *cptr, char *buffer, char *bufend)
 {
   struct Client*  from = cptr;
   char*           ch;
@@ -1048,14 +1046,35 @@ parse_client(struct Client *cptr, char *buffer, char *bufend)
   return (*handler) (cptr, from, i, para);
 }
 
-/** Parse a line of data from a server.
+/** Parse a line of data from a user.
+ * NOTE: parse_*() should not be called recursively by any other
+ * functions!
+ * The line's tags are forgotten afterwards: they point into \a buffer,
+ * which may be freed, and do not belong to any other message.
  * @param[in] cptr Client that sent the data.
  * @param[in] buffer Start of input line.
  * @param[in] bufend End of input line.
  * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
  * handler returns it.
  */
-int parse_server(struct Client *cptr, char *buffer, char *bufend)
+int
+parse_client(struct Client *cptr, char *buffer, char *bufend)
+{
+  int result = parse_client_line(cptr, buffer, bufend);
+
+  current_tags = NULL;
+  return result;
+}
+
+/** Parse a line of data from a server (helper for parse_server()).
+ * @param[in] cptr Client that sent the data.
+ * @param[in] buffer Start of input line.
+ * @param[in] bufend End of input line.
+ * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
+ * handler returns it.
+ */
+static int
+parse_server_line(struct Client *cptr, char *buffer, char *bufend)
 {
   struct Client*  from = cptr;
   char*           ch = buffer;
@@ -1355,3 +1374,21 @@ int parse_server(struct Client *cptr, char *buffer, char *bufend)
 
   return (*mptr->handlers[cli_handler(cptr)]) (cptr, from, i, para);
 }
+
+/** Parse a line of data from a server.
+ * The line's tags are forgotten afterwards: they point into \a buffer,
+ * which may be freed, and do not belong to any other message.
+ * @param[in] cptr Client that sent the data.
+ * @param[in] buffer Start of input line.
+ * @param[in] bufend End of input line.
+ * @return 0 on success, -1 on parse error, or CPTR_KILLED if message
+ * handler returns it.
+ */
+int
+parse_server(struct Client *cptr, char *buffer, char *bufend)
+{
+  int result = parse_server_line(cptr, buffer, bufend);
+
+  current_tags = NULL;
+  return result;
+}
-- 
2.43.0


From 31edc2edc6e49d71ca4459bd3b1179ba3e1f64af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:14 +0000
Subject: [PATCH 14/60] fix: wipe the limit and key of the younger channel when
 bursts merge

mode_parse() only reported the removal of +l/+k/+A/+U during a net burst
that brought an older channel; the values stayed set (and nothing was done
at all when the older channel had no modes), leaving the servers with
different channel modes.  It also reported a key just set by the burst as
removed.
---
 ircd/channel.c | 15 ---------------
 ircd/m_burst.c | 16 ++++++++++++++++
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 4e25b0e..072cc59 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3612,21 +3612,6 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
     state.chptr->mode.mode = t_mode;
   }
 
-  if (state.flags & MODE_PARSE_WIPEOUT) {
-    if (state.chptr->mode.limit && !(state.done & DONE_LIMIT))
-      modebuf_mode_uint(state.mbuf, MODE_DEL | MODE_LIMIT,
-			state.chptr->mode.limit);
-    if (*state.chptr->mode.key && !(state.done & DONE_KEY_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_KEY,
-			  state.chptr->mode.key, 0);
-    if (*state.chptr->mode.upass && !(state.done & DONE_UPASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_UPASS,
-			  state.chptr->mode.upass, 0);
-    if (*state.chptr->mode.apass && !(state.done & DONE_APASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_APASS,
-			  state.chptr->mode.apass, 0);
-  }
-
   if (state.done & DONE_BANCLEAN) /* process bans */
     mode_process_bans(&state);
 
diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index cd29a68..5cf042e 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -216,6 +216,7 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   unsigned int parse_flags = (MODE_PARSE_FORCE | MODE_PARSE_BURST);
   int param, nickpos = 0, banpos = 0;
   char modestr[BUFSIZE], nickstr[BUFSIZE], banstr[BUFSIZE];
+  struct Mode oldmode; /* modes before wipeout; must outlive mbuf */
 
   if (parc < 3)
     return protocol_violation(sptr,"Too few parameters for BURST");
@@ -345,6 +346,9 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
     chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
 
     /* wipeout any limit and keys that are set */
+    oldmode = chptr->mode;
+    chptr->mode.limit = 0;
+    *chptr->mode.key = *chptr->mode.upass = *chptr->mode.apass = '\0';
     parse_flags |= (MODE_PARSE_SET | MODE_PARSE_WIPEOUT);
 
     /* mark bans for wipeout */
@@ -586,6 +590,18 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   sendcmdto_serv_butone(sptr, CMD_BURST, cptr, "%H %Tu%s%s%s", chptr,
 			chptr->creationtime, modestr, nickstr, banstr);
 
+  if (parse_flags & MODE_PARSE_WIPEOUT) {
+    /* tell our users about any limit and keys that did not come back */
+    if (oldmode.limit && !chptr->mode.limit)
+      modebuf_mode_uint(mbuf, MODE_DEL | MODE_LIMIT, oldmode.limit);
+    if (*oldmode.key && !*chptr->mode.key)
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_KEY, oldmode.key, 0);
+    if (*oldmode.upass && !*chptr->mode.upass)
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_UPASS, oldmode.upass, 0);
+    if (*oldmode.apass && !*chptr->mode.apass)
+      modebuf_mode_string(mbuf, MODE_DEL | MODE_APASS, oldmode.apass, 0);
+  }
+
   if (parse_flags & MODE_PARSE_WIPEOUT || banpos)
     mode_ban_invalidate(chptr);
 
-- 
2.43.0


From 7e01dd641917b96b82e71fce755183e924696408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:27 +0000
Subject: [PATCH 15/60] fix: merge +p and +s the same way on both sides of a
 net join

When two servers link and one holds a channel +p and the other +s with
the same timestamp, each applied the other's mode, ending with swapped
modes.  Let +s win while parsing a burst.
---
 ircd/channel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index 072cc59..460f1b5 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3365,6 +3365,12 @@ mode_parse_mode(struct ParseState *state, int *flag_p)
       MyUser(state->sptr))
     return;
 
+  /* When bursts merge, +s wins over +p, so that both sides agree */
+  if (state->dir == MODE_ADD && (flag_p[0] & MODE_PRIVATE)
+      && (state->flags & MODE_PARSE_BURST)
+      && (state->chptr->mode.mode & MODE_SECRET))
+    return;
+
   if (state->dir == MODE_ADD) {
     state->add |= flag_p[0];
     state->del &= ~flag_p[0];
-- 
2.43.0


From cc0c2f83e30dd5a95885b34b061993d60171f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 16/60] fix: exit dead clients when their socket becomes ready

A client marked dead (sendq exceeded, write error) keeps its read and
write interest, but its events were ignored, so the main loop spun at
full speed until check_pings() reaped it up to PINGFREQUENCY seconds
later.
---
 ircd/s_bsd.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 9d175e3..f34b34c 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -1165,6 +1165,12 @@ static void client_sock_callback(struct Event* ev)
     break;
 
   case ET_WRITE: /* socket is writable */
+    if (IsDead(cptr)) {
+      /* It will not be read from or written to any more, so do not wait for
+       * check_pings() while the event engine reports it as ready. */
+      exit_client(cptr, cptr, &me, cli_info(cptr));
+      return;
+    }
     if (IsNegotiatingTLS(cptr)) {
       int res = tls_negotiate_client(cptr, &fmt, &fallback);
       if (res < 0)
@@ -1185,7 +1191,10 @@ static void client_sock_callback(struct Event* ev)
     break;
 
   case ET_READ: /* socket is readable */
-    if (!IsDead(cptr)) {
+    if (IsDead(cptr)) {
+      exit_client(cptr, cptr, &me, cli_info(cptr));
+      return;
+    } else {
       Debug((DEBUG_DEBUG, "Reading data from %C", cptr));
       if (IsNegotiatingTLS(cptr)) {
         int res = tls_negotiate_client(cptr, &fmt, &fallback);
-- 
2.43.0


From 7eb0869cd27f7910a555c8bf4b3a1358aabd1eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:57 +0000
Subject: [PATCH 17/60] fix: send an expired G-line's remaining time as a
 signed number

The offset to the expiry time was formatted with an unsigned conversion,
so a record that was kept past its expiry (for its lifetime) was sent as
a number near 2^64; the receiver's atoi() turned that into -1 and so
recorded another expiry time than the sender's.
---
 ircd/gline.c   | 10 +++++-----
 ircd/m_gline.c |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ircd/gline.c b/ircd/gline.c
index ec36e02..3853b7c 100644
--- a/ircd/gline.c
+++ b/ircd/gline.c
@@ -340,7 +340,7 @@ gline_propagate(struct Client *cptr, struct Client *sptr, struct Gline *gline)
 
   assert(gline->gl_lastmod);
 
-  sendcmdto_serv_butone(sptr, CMD_GLINE, cptr, "* %c%s%s%s %Tu %Tu %Tu :%s",
+  sendcmdto_serv_butone(sptr, CMD_GLINE, cptr, "* %c%s%s%s %Td %Tu %Tu :%s",
 			GlineIsRemActive(gline) ? '+' : '-', gline->gl_user,
 			gline->gl_host ? "@" : "",
 			gline->gl_host ? gline->gl_host : "",
@@ -883,7 +883,7 @@ gline_modify(struct Client *cptr, struct Client *sptr, struct Gline *gline,
    */
   if (action != GLINE_LOCAL_ACTIVATE && action != GLINE_LOCAL_DEACTIVATE)
     sendcmdto_serv_butone(sptr, CMD_GLINE, cptr,
-			  "* %s%s%s%s%s %Tu %Tu %Tu :%s",
+			  "* %s%s%s%s%s %Td %Tu %Tu :%s",
 			  flags & GLINE_OPERFORCE ? "!" : "", op,
 			  gline->gl_user, gline->gl_host ? "@" : "",
 			  gline->gl_host ? gline->gl_host : "",
@@ -1059,7 +1059,7 @@ gline_burst(struct Client *cptr)
 
   gliter(GlobalGlineList, gline, sgline) {
     if (!GlineIsLocal(gline) && gline->gl_lastmod)
-      sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s%s%s %Tu %Tu %Tu :%s",
+      sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s%s%s %Td %Tu %Tu :%s",
 		    GlineIsRemActive(gline) ? '+' : '-', gline->gl_user,
                     gline->gl_host ? "@" : "",
                     gline->gl_host ? gline->gl_host : "",
@@ -1069,7 +1069,7 @@ gline_burst(struct Client *cptr)
 
   gliter(BadChanGlineList, gline, sgline) {
     if (!GlineIsLocal(gline) && gline->gl_lastmod)
-      sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s %Tu %Tu %Tu :%s",
+      sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s %Td %Tu %Tu :%s",
 		    GlineIsRemActive(gline) ? '+' : '-', gline->gl_user,
 		    gline->gl_expire - TStime(), gline->gl_lastmod,
 		    gline->gl_lifetime, gline->gl_reason);
@@ -1087,7 +1087,7 @@ gline_resend(struct Client *cptr, struct Gline *gline)
   if (GlineIsLocal(gline) || !gline->gl_lastmod)
     return 0;
 
-  sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s%s%s %Tu %Tu %Tu :%s",
+  sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s%s%s %Td %Tu %Tu :%s",
 		GlineIsRemActive(gline) ? '+' : '-', gline->gl_user,
 		gline->gl_host ? "@" : "",
                 gline->gl_host ? gline->gl_host : "",
diff --git a/ircd/m_gline.c b/ircd/m_gline.c
index 1c4b544..dcf44d0 100644
--- a/ircd/m_gline.c
+++ b/ircd/m_gline.c
@@ -264,7 +264,7 @@ ms_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	   action == GLINE_ACTIVATE ? '+' :  '-', expire, TStime(),
 	   reason));
 
-    sendcmdto_one(sptr, CMD_GLINE, acptr, "%C %s%c%s %Tu %Tu :%s",
+    sendcmdto_one(sptr, CMD_GLINE, acptr, "%C %s%c%s %Td %Tu :%s",
 		  acptr, flags & GLINE_OPERFORCE ? "!" : "",
 		  action == GLINE_ACTIVATE ? '+' : '-', mask,
 		  expire - TStime(), TStime(), reason);
@@ -558,7 +558,7 @@ mo_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	     flags & GLINE_OPERFORCE ? "YES" : "NO",
 	     action == GLINE_ACTIVATE ? '+' : '-', expire, reason));
 
-      sendcmdto_one(sptr, CMD_GLINE, acptr, "%C %s%c%s %Tu %Tu :%s",
+      sendcmdto_one(sptr, CMD_GLINE, acptr, "%C %s%c%s %Td %Tu :%s",
 		    acptr, flags & GLINE_OPERFORCE ? "!" : "",
 		    action == GLINE_ACTIVATE ? '+' : '-', mask,
 		    expire - TStime(), TStime(), reason);
-- 
2.43.0


From 36de313da4997bb24211a7ab3fb4e33be5bbddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:22 +0000
Subject: [PATCH 18/60] fix: match host name G-lines against connecting clients

find_kill() runs before User.realhost is filled in, so a G-line on a host
name mask was compared with the empty string and never refused anybody.
Compare with the connection's host name, as do_gline() and the K-line
check do.
---
 ircd/gline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/gline.c b/ircd/gline.c
index 3853b7c..01076b9 100644
--- a/ircd/gline.c
+++ b/ircd/gline.c
@@ -1016,7 +1016,10 @@ gline_lookup(struct Client *cptr, unsigned int flags)
           continue;
       }
       else {
-        if (match(gline->gl_host, (cli_user(cptr))->realhost) != 0)
+        /* Not cli_user(cptr)->realhost: that is set only after this check
+         * was made for a client that is just registering.
+         */
+        if (match(gline->gl_host, cli_sockhost(cptr)) != 0)
           continue;
       }
     }
-- 
2.43.0


From 740298d3e297b931cbf7898bc508486ad10885c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 19/60] fix: require the local_jupe privilege for JUPE without
 a target

JUPE +server <expiration> :<reason> means the local server, but only the
forms that name a target checked the operator's privileges.
---
 ircd/m_jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_jupe.c b/ircd/m_jupe.c
index 51f219f..da83b84 100644
--- a/ircd/m_jupe.c
+++ b/ircd/m_jupe.c
@@ -239,7 +239,8 @@ int mo_jupe(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       flags |= JUPE_LOCAL;
     } else if (!HasPriv(sptr, PRIV_JUPE))
       return send_reply(sptr, ERR_NOPRIVILEGES);
-  }
+  } else if (!HasPriv(sptr, PRIV_LOCAL_JUPE))
+    return send_reply(sptr, ERR_NOPRIVILEGES);
 
   ajupe = jupe_find(server);
 
-- 
2.43.0


From bcb774f8544f3b40469edf10e6b7627512df1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 20/60] fix: propagate the deactivation of a jupe that is
 locally deactivated

jupe_deactivate() took a locally deactivated jupe for one that had been
inactive already and dropped the message, so the servers behind this one
kept the jupe active.
---
 ircd/jupe.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index 243ae62..a9d4b19 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -256,7 +256,11 @@ jupe_deactivate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
 	jupe->ju_lastmod = lastmod;
     }
 
-    if ((saveflags & JUPE_ACTMASK) != JUPE_ACTIVE)
+    /* A global change has to be propagated even if we were locally
+     * deactivated already.
+     */
+    if ((flags & JUPE_LOCAL) ? ((saveflags & JUPE_ACTMASK) != JUPE_ACTIVE)
+        : !(saveflags & JUPE_ACTIVE))
       return 0; /* was inactive to begin with */
   }
 
-- 
2.43.0


From 2a570c4375bda14c7d90cdea7178514e1fe5add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 21/60] fix: activate an inactive local jupe

jupe_activate() announced the activation of a local jupe that had been
created inactive, but left it inactive.
---
 ircd/jupe.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index a9d4b19..149caee 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -193,9 +193,11 @@ jupe_activate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
 
   saveflags = jupe->ju_flags;
 
-  if (flags & JUPE_LOCAL)
+  if (flags & JUPE_LOCAL) {
     jupe->ju_flags &= ~JUPE_LDEACT;
-  else {
+    if (JupeIsLocal(jupe))
+      jupe->ju_flags |= JUPE_ACTIVE;
+  } else {
     jupe->ju_flags |= JUPE_ACTIVE;
 
     if (jupe->ju_lastmod >= lastmod) /* force lastmod to increase */
-- 
2.43.0


From 9e8d5af149b1b1f71134158abad880033c7ee999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 22/60] fix: check the numeric of a new server also when its
 name ended the search

---
 ircd/m_server.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ircd/m_server.c b/ircd/m_server.c
index c2c469c..9071910 100644
--- a/ircd/m_server.c
+++ b/ircd/m_server.c
@@ -434,6 +434,19 @@ check_loop_and_lh(struct Client* cptr, struct Client *sptr, time_t *ghost, const
     }
   }
 
+  /* The loop above may have stopped at the name (our own handshake, a
+   * ghost) without ever looking at who has the numeric.
+   */
+  if (numnick && (acptr = FindNServer(numnick)))
+  {
+    sendcmdto_serv_butone(&me, CMD_WALLOPS, cptr,
+                          ":SERVER Numeric Collision: %s != %s",
+                          cli_name(acptr), host);
+    return exit_client_msg(cptr, cptr, &me,
+        "NUMERIC collision between %s and %s."
+        " Is your server numeric correct ?", host, cli_name(acptr));
+  }
+
   return 1;
 }
 
-- 
2.43.0


From 804e2628c89e2a1762ecfe5fd0b99fb1173b3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 23/60] fix: admit as many clients as a class has maxlinks

A class starts with one reference of its own, so the comparison refused
the last one (with maxlinks = 1, everyone).
---
 ircd/s_conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index e30651e..d4fec7a 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -672,8 +672,9 @@ enum AuthorizationCheckResult attach_conf(struct Client *cptr, struct ConfItem *
     return ACR_ALREADY_AUTHORIZED;
   if (IsIllegal(aconf))
     return ACR_NO_AUTHORIZATION;
+  /* The class itself holds one of the references counted by ConfLinks(). */
   if ((aconf->status & (CONF_OPERATOR | CONF_CLIENT)) &&
-      ConfLinks(aconf) >= ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
+      ConfLinks(aconf) > ConfMaxLinks(aconf) && ConfMaxLinks(aconf) > 0)
     return ACR_TOO_MANY_IN_CLASS;  /* Use this for printing error message */
   lp = make_link();
   lp->next = cli_confs(cptr);
-- 
2.43.0


From 5eb5d8b4169c269563e5276236f434bcae9c5a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 24/60] fix: do not let IPcheck's 16-bit clock run negative
 when it wraps

Addresses seen before the wrap (every 65536 seconds) stayed throttled,
and were not expired, until the clock had caught up again.
---
 ircd/IPcheck.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index 64f5b48..7d9a43f 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -70,7 +70,7 @@ struct IPRegistry48 {
 /** Report current time for tracking in IPRegistryEntry::last_connect. */
 #define NOW ((unsigned short)(CurrentTime & 0xffff))
 /** Time from \a x until now, in seconds. */
-#define CONNECTED_SINCE(x) (NOW - (x))
+#define CONNECTED_SINCE(x) ((unsigned short)(NOW - (x)))
 
 /** Macro for easy access to configured IPcheck clone limit. */
 #define IPCHECK_CLONE_LIMIT feature_int(FEAT_IPCHECK_CLONE_LIMIT)
-- 
2.43.0


From a906f34648b8864dc30f87583d73e7932cff6901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 25/60] fix: count all the subnets of a 6to4 prefix as one
 address

ip_registry_find() compares 48 bits of a 6to4 address but the hash used
64, so other subnets of the same IPv4 address were never found.
---
 ircd/IPcheck.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index 7d9a43f..d52f811 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -116,7 +116,8 @@ static void ip_registry_canonicalize(struct irc_in_addr *out, const struct irc_i
         out->in6_16[0] = in->in6_16[0];
         out->in6_16[1] = in->in6_16[1];
         out->in6_16[2] = in->in6_16[2];
-        out->in6_16[3] = in->in6_16[3];
+        /* 6to4 prefixes are compared (and so must hash) by 48 bits. */
+        out->in6_16[3] = (in->in6_16[0] == htons(0x2002)) ? 0 : in->in6_16[3];
     }
 
     out->in6_16[4] = out->in6_16[5] = 0;
-- 
2.43.0


From e6d6975aa94a1afbd660d97ea1736de63d3ec378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 26/60] fix: forget the IPCheck exceptions on a rehash

They were only dropped when the new configuration had an IPCheck block.
---
 ircd/s_conf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index d4fec7a..30892f7 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -1120,6 +1120,8 @@ int rehash(struct Client *cptr, int sig)
    */
   clearNickJupes();
 
+  IPcheck_clear_config();
+
   clear_quarantines();
 
   class_mark_delete();
-- 
2.43.0


From 02965681e3b8a44ae6bf0b8a95e67701c2403cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 27/60] fix: do not uncount clients that IPCheck did not count

A client admitted under an IPCheck exception was not counted, but when the
exception was gone by the time it left, another client's entry was
decremented for it, down to a wrapped counter.
---
 include/IPcheck.h |  3 +++
 ircd/IPcheck.c    | 25 ++++++++++++++++---------
 ircd/s_auth.c     |  7 +++++--
 ircd/s_bsd.c      |  6 ++++--
 ircd/websocket.c  |  7 +++++--
 5 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/include/IPcheck.h b/include/IPcheck.h
index 9a1d50f..23f99ac 100644
--- a/include/IPcheck.h
+++ b/include/IPcheck.h
@@ -16,6 +16,9 @@ struct irc_in_addr;
 /*
  * Prototypes
  */
+/** IPcheck_local_connect() permits the connection without counting it. */
+#define IPCHECK_EXEMPT 2
+
 extern void IPcheck_init(void);
 extern void IPcheck_clear_config(void);
 extern int IPcheck_except(const char *ip_mask);
diff --git a/ircd/IPcheck.c b/ircd/IPcheck.c
index d52f811..90f95b0 100644
--- a/ircd/IPcheck.c
+++ b/ircd/IPcheck.c
@@ -437,12 +437,15 @@ static int ip_registry_is_exempt(const struct irc_in_addr *addr)
 }
 
 /** Check whether a new connection from a local client should be allowed.
+ * An exempt address is permitted, but not counted: its client must not
+ * be marked as checked, or it would be uncounted when it disconnects.
  * A connection is rejected if someone from the "same" address (see
  * ip_registry_find()) connects IPCHECK_CLONE_LIMIT times, each time
  * separated by no more than IPCHECK_CLONE_PERIOD seconds.
  * @param[in] addr Address of client.
  * @param[out] next_target_out Receives time to grant another free target.
- * @return Non-zero if the connection is permitted, zero if denied.
+ * @return Zero if the connection is denied, IPCHECK_EXEMPT if it is
+ *   permitted without being counted, other non-zero if it is permitted.
  */
 static int ip_registry_check_local(const struct irc_in_addr *addr, time_t* next_target_out)
 {
@@ -450,7 +453,7 @@ static int ip_registry_check_local(const struct irc_in_addr *addr, time_t* next_
   unsigned int free_targets = STARTTARGETS;
 
   if (ip_registry_is_exempt(addr)) {
-    return 1;
+    return IPCHECK_EXEMPT;
   }
 
   entry = ip_registry_find(addr);
@@ -544,10 +547,6 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
 {
   struct IPRegistryEntry* entry;
 
-  /*
-   * Mark that we did add/update an IPregistry entry
-   */
-  SetIPChecked(cptr);
   if (!irc_in_addr_valid(&cli_ip(cptr))) {
     Debug((DEBUG_DNS, "IPcheck accepting remote connection from invalid %s.", ircd_ntoa(&cli_ip(cptr))));
     return 1;
@@ -557,6 +556,11 @@ static int ip_registry_check_remote(struct Client* cptr, int is_burst)
     return 1;
   }
 
+  /*
+   * Mark that we did add/update an IPregistry entry
+   */
+  SetIPChecked(cptr);
+
   if (!irc_in_addr_is_ipv4(&cli_ip(cptr))) {
     struct IPRegistry48* entry_48 = ip_48_find(&cli_ip(cptr));
     if (CONNECTED_SINCE(entry_48->last_connect) > IPCHECK_48_CLONE_PERIOD)
@@ -741,7 +745,8 @@ static int ip_registry_count(const struct irc_in_addr *addr)
 /** Check whether a client is allowed to connect locally.
  * @param[in] a Address of client.
  * @param[out] next_target_out Receives time to grant another free target.
- * @return Non-zero if the connection is permitted, zero if denied.
+ * @return Zero if the connection is denied, IPCHECK_EXEMPT if it is
+ *   permitted without being counted, other non-zero if it is permitted.
  */
 int IPcheck_local_connect(const struct irc_in_addr *a, time_t* next_target_out)
 {
@@ -769,7 +774,8 @@ int IPcheck_remote_connect(struct Client *cptr, int is_burst)
  */
 void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 {
-  assert(IsIPChecked(cptr));
+  if (!IsIPChecked(cptr))
+    return;
   ip_registry_connect_fail(&cli_ip(cptr), disconnect);
 }
 
@@ -782,7 +788,8 @@ void IPcheck_connect_fail(const struct Client *cptr, int disconnect)
 void IPcheck_connect_succeeded(struct Client *cptr)
 {
   assert(0 != cptr);
-  assert(IsIPChecked(cptr));
+  if (!IsIPChecked(cptr))
+    return;
   ip_registry_connect_succeeded(cptr);
 }
 
diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 809ddc8..b7250bf 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1469,16 +1469,19 @@ int auth_spoof_user(struct AuthRequest *auth, const char *username, const char *
 {
   struct Client *sptr = auth->client;
   time_t next_target = 0;
+  int allowed;
 
   if (!auth_verify_hostname(hostname, HOSTLEN))
     return 1;
   if (!ipmask_parse(ip, &cli_ip(sptr), NULL))
     return 2;
-  if (!IPcheck_local_connect(&cli_ip(sptr), &next_target)) {
+  allowed = IPcheck_local_connect(&cli_ip(sptr), &next_target);
+  if (!allowed) {
     ++ServerStats->is_throttled;
     return exit_client(sptr, sptr, &me, "Your host is trying to (re)connect too fast -- throttled");
   }
-  SetIPChecked(sptr);
+  if (allowed != IPCHECK_EXEMPT)
+    SetIPChecked(sptr);
 
   if (next_target)
     cli_nexttarget(sptr) = next_target;
diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index f34b34c..890a61a 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -579,14 +579,16 @@ void add_connection(struct Listener* listener, int fd) {
      * known at handshake; the socket peer is a Cloudflare edge node.
      */
     if (!(listener_websocket(listener) && listener_cloudflare(listener))) {
-      if (!IPcheck_local_connect(&addr.addr, &next_target))
+      int allowed = IPcheck_local_connect(&addr.addr, &next_target);
+      if (!allowed)
       {
         ++ServerStats->is_throttled;
         write(fd, throttle_message, strlen(throttle_message));
         close(fd);
         return;
       }
-      SetIPChecked(new_client);
+      if (allowed != IPCHECK_EXEMPT)
+        SetIPChecked(new_client);
     }
   }
 
diff --git a/ircd/websocket.c b/ircd/websocket.c
index 16e73f4..9a495ce 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -167,6 +167,7 @@ static int websocket_apply_client_ip(struct Client *cptr, const char *ip)
 {
   struct irc_in_addr addr;
   time_t next_target = 0;
+  int allowed;
 
   if (!ip || !*ip || !ipmask_parse(ip, &addr, NULL))
     return 0;
@@ -174,11 +175,13 @@ static int websocket_apply_client_ip(struct Client *cptr, const char *ip)
   if (IsIPChecked(cptr))
     IPcheck_connect_fail(cptr, 0);
 
-  if (!IPcheck_local_connect(&addr, &next_target)) {
+  allowed = IPcheck_local_connect(&addr, &next_target);
+  if (!allowed) {
     ++ServerStats->is_throttled;
     return 0;
   }
-  SetIPChecked(cptr);
+  if (allowed != IPCHECK_EXEMPT)
+    SetIPChecked(cptr);
 
   memcpy(&cli_ip(cptr), &addr, sizeof(cli_ip(cptr)));
   ircd_ntoa_r(cli_sock_ip(cptr), &cli_ip(cptr));
-- 
2.43.0


From ee0d9940ba0912bb45cd1999e33c3d1493cd715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:27 +0000
Subject: [PATCH 28/60] fix: ignore USER after the K- and G-line check

A second USER before the registration PONG replaced the user and real name
that had been checked, and removed the mark of an unconfirmed user name.
---
 ircd/s_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index b7250bf..d198253 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1364,7 +1364,10 @@ int auth_set_user(struct AuthRequest *auth, const char *username, const char *ho
   struct Client *cptr;
 
   assert(auth != NULL);
-  if (FlagHas(&auth->flags, AR_IAUTH_HURRY))
+  /* Once the user was checked for K- and G-lines, what they matched
+   * (and any prefix on the username) must not change any more. */
+  if (FlagHas(&auth->flags, AR_IAUTH_HURRY)
+      || FlagHas(&auth->flags, AR_GLINE_CHECKED))
     return 0;
   cptr = auth->client;
   ircd_strncpy(cli_info(cptr), userinfo, REALLEN);
-- 
2.43.0


From af92ecfad145799c887c7976c98675bccd01e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:00 +0000
Subject: [PATCH 29/60] fix: give every host of an Operator block its
 fingerprint

---
 ircd/ircd_parser.y | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ircd/ircd_parser.y b/ircd/ircd_parser.y
index 1c5491e..b40642d 100644
--- a/ircd/ircd_parser.y
+++ b/ircd/ircd_parser.y
@@ -745,16 +745,13 @@ operblock: OPER {
     memcpy(&aconf->privs, &privs, sizeof(aconf->privs));
     memcpy(&aconf->privs_dirty, &privs_dirty, sizeof(aconf->privs_dirty));
     if (tls_fingerprint)
-    {
-      aconf->tls_fingerprint = tls_fingerprint;
-      tls_fingerprint = NULL;
-    }
+      DupString(aconf->tls_fingerprint, tls_fingerprint);
   }
   MyFree(name);
   MyFree(pass);
   MyFree(tls_fingerprint);
   free_slist(&hosts);
-  name = pass = NULL;
+  name = pass = tls_fingerprint = NULL;
   c_class = NULL;
   memset(&privs, 0, sizeof(privs));
   memset(&privs_dirty, 0, sizeof(privs_dirty));
-- 
2.43.0


From 427c77afcc83996e2a90ae419c9f210cc8ab913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:00 +0000
Subject: [PATCH 30/60] fix: OPMODE +o replaces local operator status

---
 ircd/m_opmode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/m_opmode.c b/ircd/m_opmode.c
index 609c8cf..5ea03d2 100644
--- a/ircd/m_opmode.c
+++ b/ircd/m_opmode.c
@@ -106,6 +106,7 @@ static void make_oper(struct Client *sptr, struct Client *dptr)
 
   ++UserStats.opers;
   SetOper(dptr);
+  ClearLocOp(dptr);
 
   if (MyConnect(dptr))
   {
-- 
2.43.0


From 2f3076ea04f52a1e946a1964084a10520fb2bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:02 +0000
Subject: [PATCH 31/60] fix: OPMODE -o takes away the operators' server notices

---
 ircd/m_opmode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/m_opmode.c b/ircd/m_opmode.c
index 5ea03d2..6f67d20 100644
--- a/ircd/m_opmode.c
+++ b/ircd/m_opmode.c
@@ -150,6 +150,8 @@ static void de_oper(struct Client *dptr)
       ClearServNotice(dptr);
       set_snomask(dptr, 0, SNO_SET);
     }
+    else
+      set_snomask(dptr, SNO_OPER, SNO_DEL);
     det_confs_butmask(dptr, CONF_CLIENT & ~CONF_OPERATOR);
     cli_max_sendq(dptr) = 0;
     cli_max_flood(dptr) = 0;
-- 
2.43.0


From 0c541e374eff6fac3aa8ceff1e7fa393945eb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:48 +0000
Subject: [PATCH 32/60] fix: account ids and flags are 64 bits wide

---
 ircd/m_account.c | 4 ++--
 ircd/s_user.c    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ircd/m_account.c b/ircd/m_account.c
index 07c4f89..548f7ea 100644
--- a/ircd/m_account.c
+++ b/ircd/m_account.c
@@ -127,10 +127,10 @@ int ms_account(struct Client* cptr, struct Client* sptr, int parc,
     return 0; /* Ignore ACCOUNT for a user that QUIT; probably crossed */
 
   if (parc > 3)
-    acc_id = atoi(parv[3]);
+    acc_id = strtoull(parv[3], NULL, 10);
 
   if (parc > 4)
-    acc_flags = atoi(parv[4]);
+    acc_flags = strtoull(parv[4], NULL, 10);
 
   /* If the client already has an account, we do not accept changes to the account or acc_id. */
   if (IsAccount(acptr)) {
diff --git a/ircd/s_user.c b/ircd/s_user.c
index 2bdce11..a954155 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1227,7 +1227,7 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
       char *id, *flags;
       if ((id = strchr(account, ':'))) {
         len = (id++) - account;
-	      cli_user(sptr)->acc_id = atoi(id);
+	      cli_user(sptr)->acc_id = strtoull(id, NULL, 10);
 	      Debug((DEBUG_DEBUG, "Received account id in user mode; "
 	        "account \"%s\", id %qu", account,
 	        cli_user(sptr)->acc_id));
@@ -1235,7 +1235,7 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
         /* Check for account flags */
         if ((flags = strchr(id, ':'))) {
             // Parse the flags after the second colon.
-            cli_user(sptr)->acc_flags = atoi(flags + 1);
+            cli_user(sptr)->acc_flags = strtoull(flags + 1, NULL, 10);
             // Null-terminate the account string before flags.
             *flags = '\0';
             Debug((DEBUG_DEBUG, "Received account flags; account \"%s\", flags %qu",
-- 
2.43.0


From 6a7273732a499a9abf8284031577f7cc495f8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:48 +0000
Subject: [PATCH 33/60] fix: CAP NEW and DEL skipped the last client

---
 ircd/m_cap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 4f48c7b..07428d0 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -389,7 +389,7 @@ void cap_new(enum Capab cap)
     return;
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
@@ -431,7 +431,7 @@ void cap_del(enum Capab cap)
   }
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
-- 
2.43.0


From 06289b1ad5709bed773f0bcd30238007dee5f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:48 +0000
Subject: [PATCH 34/60] fix: CAP LIST no longer shows a deleted capability

---
 ircd/m_cap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 07428d0..bc3cea7 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -444,6 +444,7 @@ void cap_del(enum Capab cap)
 
     /* Disable the capability for this client. */
     CapClr(cli_active(acptr), capab_list[cap_index].cap);
+    CapClr(cli_capab(acptr), capab_list[cap_index].cap);
   }
 }
 
-- 
2.43.0


From 0e65440613ed30851259aa245df6fc0a59033f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:27 +0000
Subject: [PATCH 35/60] fix: forget a SASL session that was aborted or timed
 out

---
 ircd/m_sasl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/m_sasl.c b/ircd/m_sasl.c
index 4bf054d..bdf5544 100644
--- a/ircd/m_sasl.c
+++ b/ircd/m_sasl.c
@@ -124,6 +124,7 @@ static void sasl_timeout_callback(struct Event* ev)
     
     /* Clear SASL session */
     sasl_stop_timeout(cptr);
+    sasl_session_remove(cli_sasl(cptr));
     cli_sasl(cptr) = 0;
   }
 }
@@ -177,6 +178,7 @@ int m_sasl(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     /* SASL abort - stop timeout and clear session */
     if (cli_sasl(cptr)) {
       sasl_stop_timeout(cptr);
+      sasl_session_remove(cli_sasl(cptr));
       cli_sasl(cptr) = 0;
     }
     send_reply(cptr, ERR_SASLABORTED);
-- 
2.43.0


From 6894ffc3741c90fcc2203cb398c1fd1e3a1950a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 36/60] fix: addresses with several runs of zeros were printed
 and encoded wrongly

---
 ircd/ircd_string.c | 8 +++++---
 ircd/numnicks.c    | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index cbcedc5..ccfc4ad 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -413,9 +413,11 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
       for (max_start = ii = 1, max_zeros = curr_zeros = 0; ii < 8; ++ii) {
         if (!in->in6_16[ii])
           curr_zeros++;
-        else if (curr_zeros > max_zeros) {
-          max_start = ii - curr_zeros;
-          max_zeros = curr_zeros;
+        else {
+          if (curr_zeros > max_zeros) {
+            max_start = ii - curr_zeros;
+            max_zeros = curr_zeros;
+          }
           curr_zeros = 0;
         }
       }
diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 1a7265c..3e3a1c9 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -466,9 +466,11 @@ const char* iptobase64(char* buf, const struct irc_in_addr* addr, unsigned int c
     for (max_start = zero = ii, max_zeros = curr_zeros = 0; ii < 8; ++ii) {
       if (!addr->in6_16[ii])
         curr_zeros++;
-      else if (curr_zeros > max_zeros) {
-        max_start = ii - curr_zeros;
-        max_zeros = curr_zeros;
+      else {
+        if (curr_zeros > max_zeros) {
+          max_start = ii - curr_zeros;
+          max_zeros = curr_zeros;
+        }
         curr_zeros = 0;
       }
     }
-- 
2.43.0


From 8403c88aec083394b962991e0bed8c61dc7f48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 37/60] fix: matchexec read the byte before the string

---
 ircd/match.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/match.c b/ircd/match.c
index acbb935..51ca615 100644
--- a/ircd/match.c
+++ b/ircd/match.c
@@ -513,8 +513,8 @@ tryhead:
     return 2;
 
 trytail:
-  while ((ToLower(*--s) == *++b) && *b && (ToLower(*--s) == *++b) && *b
-      && (ToLower(*--s) == *++b) && *b && (ToLower(*--s) == *++b) && *b);
+  while (*++b && (*b != 'Z') && (ToLower(*--s) == *b))
+    ;
   if (*b != 'Z')
   {
     if (*b == 'A')
-- 
2.43.0


From 0ab95c0a74909a2fddf0a02fecc89ea23c223249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 38/60] fix: an escaped wildcard after * was taken as a
 wildcard when backtracking

---
 ircd/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/match.c b/ircd/match.c
index 51ca615..a80c9ad 100644
--- a/ircd/match.c
+++ b/ircd/match.c
@@ -223,7 +223,7 @@ int match(const char *mask, const char *name)
       if (!*m)
         return 0;
       else if (*m == '\\') {
-        m_tmp = ++m;
+        m_tmp = m++; /* backtrack to the backslash, not past it */
         if (!*m)
           return 1;
         for (n_tmp = n; *n && *n != *m; n++) ;
-- 
2.43.0


From 73a626c82c4a3a64bbbd09d82f54f5de0d7e6ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 39/60] fix: prefix lengths of 2^32 and more were taken modulo
 2^32

---
 ircd/ircd_string.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index ccfc4ad..e99ac64 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -502,10 +502,11 @@ ircd_aton_ip4(const char *input, unsigned int *output, unsigned char *pbits)
   case '/':
     if (!pbits || !IsDigit(input[pos + 1]))
       return 0;
-    for (bits = 0; IsDigit(input[++pos]); )
+    for (bits = 0; IsDigit(input[++pos]); ) {
       bits = bits * 10 + input[pos] - '0';
-    if (bits > 32)
-      return 0;
+      if (bits > 32)
+        return 0;
+    }
     goto out;
   case '0': case '1': case '2': case '3': case '4':
   case '5': case '6': case '7': case '8': case '9':
@@ -603,10 +604,11 @@ ipmask_parse(const char *input, struct irc_in_addr *ip, unsigned char *pbits)
       if (!pbits || !IsDigit(input[pos + 1]))
         return 0;
       ip->in6_16[ii++] = htons(part);
-      for (part = 0; IsDigit(input[++pos]); )
+      for (part = 0; IsDigit(input[++pos]); ) {
         part = part * 10 + input[pos] - '0';
-      if (part > 128)
-        return 0;
+        if (part > 128)
+          return 0;
+      }
       *pbits = part;
       goto finish;
     case '*':
-- 
2.43.0


From 9d4a04319136ad2539e9c56e8dcb889f4f75881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 40/60] fix: an IPv4 tail after :: was refused

---
 ircd/ircd_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index e99ac64..ec4e74b 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -584,7 +584,7 @@ ipmask_parse(const char *input, struct irc_in_addr *ip, unsigned char *pbits)
         if (ii == 8)
             return 0;
         colon = ii;
-        pos++;
+        part_start = input + ++pos;
       }
       break;
     case '.': {
-- 
2.43.0


From c7118cb49d08dff573e2947732a99a20804aa1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 41/60] fix: a ninth part in an IPv6 address left the prefix
 length unset

---
 ircd/ircd_string.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index ec4e74b..5491ef0 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -630,8 +630,7 @@ ipmask_parse(const char *input, struct irc_in_addr *ip, unsigned char *pbits)
     default:
       return 0;
     }
-    if (input[pos] != '\0')
-      return 0;
+    return 0; /* there is a ':' after the eighth part */
   finish:
     if (colon < 8) {
       unsigned int jj;
-- 
2.43.0


From db88d1b9f9555e0b78f79c4ae676bb9ff0ed16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 42/60] fix: TAGMSG from clients without message-tags was
 relayed after the 421

---
 ircd/m_tagmsg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/m_tagmsg.c b/ircd/m_tagmsg.c
index 2ad177a..f35f286 100644
--- a/ircd/m_tagmsg.c
+++ b/ircd/m_tagmsg.c
@@ -30,8 +30,10 @@
 static int
 tagmsg_check_cap(struct Client *sptr)
 {
-  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS))
-    return send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS)) {
+    send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 609dbc24efbf8684489dd5ee75fb147cce483fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 43/60] fix: TAGMSG was delivered to clients without
 message-tags

---
 ircd/send.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ircd/send.c b/ircd/send.c
index b2715d4..b1a8dfc 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -302,6 +302,20 @@ tagsendcache_init_cmd(struct TagSendCache *cache, const char *tok)
   cache->profile = (unsigned int)-1;
   cache->prefix_len = 0;
 }
+/** Check whether a local client cannot take a command at all.
+ * TAGMSG carries nothing but tags and must not be sent to clients that
+ * have not negotiated message-tags.
+ * @param[in] to Local client or server the command would be sent to.
+ * @param[in] tok Short name of command.
+ * @return Non-zero if \a to must not be sent the command.
+ */
+static int
+cannot_take_cmd(struct Client *to, const char *tok)
+{
+  return MyUser(to) && !CapHas(cli_active(to), CAP_MESSAGE_TAGS)
+    && !strcmp(tok, TOK_TAGMSG);
+}
+
 static struct MsgBuf *
 make_wire_msgbuf(struct Client *to, struct MsgBuf *body,
                  const char *prefix, unsigned int prefix_len)
@@ -512,6 +526,9 @@ void sendcmdto_one(struct Client *from, const char *cmd, const char *tok,
 
   to = cli_from(to);
 
+  if (cannot_take_cmd(to, tok))
+    return;
+
   vd.vd_format = pattern; /* set up the struct VarData for %v */
   va_start(vd.vd_args, pattern);
 
@@ -994,7 +1011,8 @@ void sendcmdto_channel_butone(struct Client *from, const char *cmd,
         (skip & SKIP_NONVOICES && !IsChanOp(member) && !HasVoice(member)) ||
         (skip & SKIP_BURST && IsBurstOrBurstAck(cli_from(member->user))) ||
         cli_fd(cli_from(member->user)) < 0 ||
-        cli_sentalong(member->user) == sentalong_marker)
+        cli_sentalong(member->user) == sentalong_marker ||
+        cannot_take_cmd(member->user, tok))
       continue;
     cli_sentalong(member->user) = sentalong_marker;
 
@@ -1122,7 +1140,7 @@ void sendcmdto_match_butone(struct Client *from, const char *cmd,
   for (cptr = GlobalClientList; cptr; cptr = cli_next(cptr)) {
     if (!IsRegistered(cptr) || IsServer(cptr) || cli_fd(cli_from(cptr)) < 0 ||
         cli_sentalong(cptr) == sentalong_marker ||
-        !match_it(from, cptr, to, who))
+        !match_it(from, cptr, to, who) || cannot_take_cmd(cptr, tok))
       continue; /* skip it */
     cli_sentalong(cptr) = sentalong_marker;
 
-- 
2.43.0


From 7558c2c780671dd1d8ad2e453222ea3e16d108f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 44/60] fix: masked TAGMSG ignored host masks, skipped the
 top-level check and was not echoed

---
 ircd/ircd_relay.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 57f02b0..06f0fb5 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -927,18 +927,31 @@ relay_masked_tagmsg(struct Client *sptr, const char *mask)
   if (!IsOper(sptr))
     return;
 
+  if (0 == (s = strrchr(mask, '.'))) {
+    send_reply(sptr, ERR_NOTOPLEVEL, mask);
+    return;
+  }
+  while (*++s) {
+    if (*s == '.' || *s == '*' || *s == '?')
+       break;
+  }
+  if (*s == '*' || *s == '?') {
+    send_reply(sptr, ERR_WILDTOPLEVEL, mask);
+    return;
+  }
   s = mask;
-  if (*s == '$')
-    ++s;
-  if (*s == '#')
-    ++s;
-  if (*s == '~')
+  if ('@' == *++s) {
     host_mask = 1;
+    ++s;
+  }
 
   sendcmdto_match_butone(sptr, CMD_TAGMSG, s,
 			 IsServer(cli_from(sptr)) ? cli_from(sptr) : 0,
 			 host_mask ? MATCH_HOST : MATCH_SERVER,
 			 "%s", mask);
+
+  if (CapHas(cli_active(sptr), CAP_ECHOMESSAGE))
+    sendcmdto_one(sptr, CMD_TAGMSG, cli_from(sptr), "%s", mask);
 }
 
 /** Relay a server-originated TAGMSG to a channel. */
@@ -997,12 +1010,10 @@ server_relay_masked_tagmsg(struct Client *sptr, const char *mask)
   assert(0 != mask);
 
   s = mask;
-  if (*s == '$')
-    ++s;
-  if (*s == '#')
-    ++s;
-  if (*s == '~')
+  if ('@' == *++s) {
     host_mask = 1;
+    ++s;
+  }
 
   sendcmdto_match_butone(sptr, CMD_TAGMSG, s,
 			 IsServer(cli_from(sptr)) ? cli_from(sptr) : 0,
-- 
2.43.0


From f5fd30d3834056d9d16484073bfc88fb176fe51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 45/60] fix: CAP REQ without a list acknowledged every
 capability

---
 ircd/m_cap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index bc3cea7..3cfd791 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -294,6 +294,9 @@ cap_req(struct Client *sptr, const char *caplist)
   if (IsUserPort(sptr) || IsWebsocketPort(sptr)) /* registration hasn't completed; suspend it... */
     auth_cap_start(cli_auth(sptr));
 
+  if (!caplist) /* nothing was requested */
+    return need_more_params(sptr, MSG_CAP);
+
   while (cl) { /* walk through the capabilities list... */
     if (!(cap = find_cap(&cl, &neg)) /* look up capability... */
         || (cap->config != 0 && !feature_bool(cap->config)) /* is it deactivated in config? */
-- 
2.43.0


From 71ccb64911b6724790a8cff3b44b4be26f247ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 46/60] fix: away-notify clients were not told of users of
 other servers

---
 ircd/m_away.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ircd/m_away.c b/ircd/m_away.c
index a4a7865..ae6108d 100644
--- a/ircd/m_away.c
+++ b/ircd/m_away.c
@@ -187,6 +187,7 @@ int m_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 int ms_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 {
   char* away_message = parv[1];
+  int was_away;
 
   assert(0 != cptr);
   assert(0 != sptr);
@@ -196,10 +197,19 @@ int ms_away(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   if (IsServer(sptr))
     return protocol_violation(sptr,"Server trying to set itself away");
 
+  was_away = cli_user(sptr)->away != 0;
   if (user_set_away(cli_user(sptr), away_message))
+  {
     sendcmdto_serv_butone(sptr, CMD_AWAY, cptr, ":%s", away_message);
+    if (!was_away)
+      sendcmdto_capflag_common_channels_butone(sptr, CMD_AWAY, cptr, CAP_AWAYNOTIFY, 0, ":%s", away_message);
+  }
   else
+  {
     sendcmdto_serv_butone(sptr, CMD_AWAY, cptr, "");
+    if (was_away)
+      sendcmdto_capflag_common_channels_butone(sptr, CMD_AWAY, cptr, CAP_AWAYNOTIFY, 0, "");
+  }
   return 0;
 }
 
-- 
2.43.0


From d8f61edd0848a5008aad5f4eb56e15d9d4661123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 47/60] fix: WebSocket control frames could be written into the
 middle of a data frame

---
 ircd/send.c      |  2 +-
 ircd/websocket.c | 28 +++++++++++-----------------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/ircd/send.c b/ircd/send.c
index b1a8dfc..3de05ff 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -217,7 +217,7 @@ void send_queued(struct Client *to)
 
 /** Queue raw octets on a client's sendq without IRC or WebSocket framing.
  *
- * Used for TLS wire writes (HTTP 101, RFC6455 ping/pong) where send_buffer()
+ * Used for raw wire writes (HTTP 101, RFC6455 ping/pong) where send_buffer()
  * must not run websocket_frame_msgbuf().
  *
  * The caller retains ownership of \a mb and must msgq_clean() it afterward,
diff --git a/ircd/websocket.c b/ircd/websocket.c
index 9a495ce..dc7e274 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -65,32 +65,26 @@ static int websocket_send_handshake(struct Client *cptr, const char *accept_key,
 static void trim_http_field(char *str);
 static int websocket_apply_client_ip(struct Client *cptr, const char *ip);
 
-/** Write raw octets to a WebSocket client (TLS-aware, no IRC/WS framing). */
+/** Write raw octets to a WebSocket client (TLS-aware, no IRC/WS framing).
+ * The octets go through the client's sendQ: the start of a frame may already
+ * have been written, and the rest of it has to be sent first. */
 static int websocket_write_raw(struct Client *cptr, const void *data, size_t len)
 {
   struct MsgBuf *mb;
-  unsigned int count;
 
   if (!cptr || len == 0 || len > UINT_MAX)
     return -1;
   if (IsNegotiatingTLS(cptr))
     return -1;
 
-  if (IsTLS(cptr) && s_tls(&cli_socket(cptr))) {
-    mb = msgq_raw_alloc(cptr, (unsigned int)len);
-    if (!mb)
-      return -1;
-    memcpy(mb->msg, data, len);
-    mb->length = (unsigned int)len;
-    send_raw_buffer(cptr, mb, 0);
-    msgq_clean(mb);
-    if (IsDead(cptr))
-      return -1;
-    return 0;
-  }
-
-  if (os_send_nonb(cli_fd(cptr), data, (unsigned int)len, &count) != IO_SUCCESS
-      || count != len)
+  mb = msgq_raw_alloc(cptr, (unsigned int)len);
+  if (!mb)
+    return -1;
+  memcpy(mb->msg, data, len);
+  mb->length = (unsigned int)len;
+  send_raw_buffer(cptr, mb, 0);
+  msgq_clean(mb);
+  if (IsDead(cptr))
     return -1;
   return 0;
 }
-- 
2.43.0


From 3a6e5a21271f2bafefde4c19851273aa63e06a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:16 +0000
Subject: [PATCH 48/60] fix: a long line of invalid UTF-8 disconnected the
 WebSocket client it was for

---
 ircd/msgq.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ircd/msgq.c b/ircd/msgq.c
index f1d76f6..9519035 100644
--- a/ircd/msgq.c
+++ b/ircd/msgq.c
@@ -42,15 +42,17 @@
 #include <sys/uio.h>	/* struct iovec */
 
 #define MB_BASE_SHIFT	5 /**< Log2 of smallest message body to allocate. */
-#define MB_MAX_SHIFT	13 /**< Log2 of largest message body to allocate. */
+#define MB_MAX_SHIFT	14 /**< Log2 of largest message body to allocate. */
 
 /* The largest wire line we ever build is one message body (BUFSIZE) with an
  * outbound message-tags prefix (OUTBOUND_TAG_MAX) in front, plus a NUL.  The
  * pool's largest bucket must cover it, or make_wire_msgbuf() would drive
- * msgq_alloc() past msgBufs[] and corrupt memory.  This is a compile-time
+ * msgq_alloc() past msgBufs[] and corrupt memory.  A WebSocket text frame
+ * can take three times that, plus its header (see WS_FRAME_BUF_MAX in
+ * websocket.c), when none of the line is valid UTF-8.  This is a compile-time
  * guard so the invariant can never silently regress. */
 typedef char msgq_pool_covers_tagged_wire[
-    (1 << MB_MAX_SHIFT) >= (OUTBOUND_TAG_MAX + BUFSIZE + 1) ? 1 : -1];
+    (1 << MB_MAX_SHIFT) >= ((OUTBOUND_TAG_MAX + BUFSIZE + 2) * 3 + 10) ? 1 : -1];
 
 /** Return allocated length of the buffer of \a buf. */
 #define bufsize(buf)	(1 << (buf)->power)
-- 
2.43.0


From f1e720a9c1f9a0f5c9f5bfb44dacd3c384355d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 49/60] fix: WebSocket frame lengths of 2^31 and more were cut
 short

---
 ircd/websocket.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ircd/websocket.c b/ircd/websocket.c
index dc7e274..24ec638 100644
--- a/ircd/websocket.c
+++ b/ircd/websocket.c
@@ -16,6 +16,7 @@
  * along with this program; if not, write to the Free Software
  * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
  */
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -538,12 +539,18 @@ int websocket_parse_frame(struct Client *cptr, const char *buf, size_t buflen) {
         header_len = 4;
     } else if (payload_len == 127) {
         if (buflen < 10) return 0;
-        /* Only support up to 32-bit length for simplicity (buf[2..5] ignored);
-         * cast to unsigned char before shifting to avoid sign extension. */
+        /* Only lengths that fit our return value are supported; anything
+         * longer fails the connection, so that its payload can not be taken
+         * for frames.  Cast to unsigned char before shifting to avoid sign
+         * extension. */
+        if (buf[2] || buf[3] || buf[4] || buf[5] || (buf[6] & 0x80))
+            return -2;
         payload_len = ((size_t)(unsigned char)buf[6] << 24)
                     | ((size_t)(unsigned char)buf[7] << 16)
                     | ((size_t)(unsigned char)buf[8] << 8)
                     | (size_t)(unsigned char)buf[9];
+        if (payload_len > INT_MAX - 14)
+            return -2;
         header_len = 10;
     }
     if (mask) {
-- 
2.43.0


From 34b121c8bfe7e2f388e29d5b34096bc5be20443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 50/60] fix: classes without sendq or maxflood kept the
 defaults of before the Features block

---
 ircd/class.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ircd/class.c b/ircd/class.c
index 927cc88..b783766 100644
--- a/ircd/class.c
+++ b/ircd/class.c
@@ -104,8 +104,8 @@ void init_class(void)
   ConClass(connClassList) = "default";
   PingFreq(connClassList) = feature_int(FEAT_PINGFREQUENCY);
   ConFreq(connClassList)  = feature_int(FEAT_CONNECTFREQUENCY);
-  MaxSendq(connClassList) = feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
-  MaxFlood(connClassList) = feature_int(FEAT_CLIENT_FLOOD);
+  MaxSendq(connClassList) = 0;
+  MaxFlood(connClassList) = 0;
   MaxLinks(connClassList) = 1;
   connClassList->valid    = 1;
   Links(connClassList)    = 1;
@@ -230,10 +230,9 @@ void add_class(char *name, unsigned int ping, unsigned int confreq,
   ConFreq(p) = confreq;
   PingFreq(p) = ping;
   MaxLinks(p) = maxli;
-  MaxSendq(p) = (sendq > 0) ?
-     sendq : feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
-  MaxFlood(p) = (maxfl > 0) ?
-     maxfl : feature_int(FEAT_CLIENT_FLOOD);
+  /* Zero means the feature's value, which may not have been read yet. */
+  MaxSendq(p) = sendq;
+  MaxFlood(p) = maxfl;
   p->valid = 1;
 }
 
@@ -269,7 +268,11 @@ report_classes(struct Client *sptr, const struct StatDesc *sd,
   for (cltmp = connClassList; cltmp; cltmp = cltmp->next)
     send_reply(sptr, RPL_STATSYLINE, (cltmp->valid ? 'Y' : 'y'),
                ConClass(cltmp), PingFreq(cltmp), ConFreq(cltmp),
-               MaxLinks(cltmp), MaxSendq(cltmp), MaxFlood(cltmp),
+               MaxLinks(cltmp),
+               MaxSendq(cltmp) ? MaxSendq(cltmp)
+               : (unsigned int)feature_int(FEAT_DEFAULTMAXSENDQLENGTH),
+               MaxFlood(cltmp) ? MaxFlood(cltmp)
+               : (unsigned int)feature_int(FEAT_CLIENT_FLOOD),
                Links(cltmp) - 1, CCUmode(cltmp) ? CCUmode(cltmp) : "+");
 }
 
@@ -334,13 +337,13 @@ get_sendq(struct Client *cptr)
   if (cli_max_sendq(cptr))
     return cli_max_sendq(cptr);
 
-  if ((cl = class_resolve(cptr))) {
+  if ((cl = class_resolve(cptr)) && MaxSendq(cl)) {
     cli_max_sendq(cptr) = MaxSendq(cl);
     return cli_max_sendq(cptr);
   }
-  /* No class resolved: fall back to the feature default WITHOUT caching
-   * it, so a runtime /SET change applies to classless clients immediately
-   * and a value read before the client's conf is attached cannot stick.
+  /* No class resolved, or it sets no limit: fall back to the feature default
+   * WITHOUT caching it, so a runtime /SET change applies immediately and a
+   * value read before the client's conf is attached cannot stick.
    */
   return feature_int(FEAT_DEFAULTMAXSENDQLENGTH);
 }
@@ -360,7 +363,7 @@ find_max_flood(struct Client *cptr)
   if (cli_max_flood(cptr))
     return cli_max_flood(cptr);
 
-  if ((cl = class_resolve(cptr))) {
+  if ((cl = class_resolve(cptr)) && MaxFlood(cl)) {
     cli_max_flood(cptr) = MaxFlood(cl);
     return cli_max_flood(cptr);
   }
-- 
2.43.0


From fcf5002d185b7d0390f5b5f190c260bdbb3e61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 51/60] fix: a connection not looked at for twice its ping
 frequency was closed without a PING

---
 ircd/ircd.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ircd/ircd.c b/ircd/ircd.c
index ef6a577..c2627c4 100644
--- a/ircd/ircd.c
+++ b/ircd/ircd.c
@@ -331,6 +331,7 @@ static void check_pings(struct Event* ev) {
   int expire     = 0;
   int next_check = CurrentTime;
   int max_ping   = 0;
+  int was_pinged;
   int i;
 
   assert(ET_EXPIRE == ev_type(ev));
@@ -409,6 +410,8 @@ static void check_pings(struct Event* ev) {
       }
     }
 
+    was_pinged = IsPingSent(cptr);
+
     /* If it's a server and we have not sent an AsLL lately, do so. */
     if (IsServer(cptr)) {
       if (CurrentTime - cli_serv(cptr)->asll_last >= max_ping) {
@@ -443,8 +446,10 @@ static void check_pings(struct Event* ev) {
       continue;
     }
 
-    /* Quit the client after max_ping*2 - they should have answered by now */
-    if (CurrentTime-cli_lasttime(cptr) >= (max_ping*2) )
+    /* Quit the client after max_ping*2 - they should have answered by now,
+     * if an earlier pass asked them.
+     */
+    if (was_pinged && CurrentTime-cli_lasttime(cptr) >= (max_ping*2))
     {
       /* If it was a server, then tell ops about it. */
       if (IsServer(cptr) || IsConnecting(cptr) || IsHandshake(cptr))
@@ -455,6 +460,10 @@ static void check_pings(struct Event* ev) {
       continue;
     }
     
+    /* If we're late in noticing don't hold it against them :) */
+    if (!was_pinged)
+      cli_lasttime(cptr) = CurrentTime - max_ping;
+
     if (!IsPingSent(cptr))
     {
       /* If we haven't PINGed the connection and we haven't heard from it in a
@@ -462,9 +471,6 @@ static void check_pings(struct Event* ev) {
        */
       SetPingSent(cptr);
 
-      /* If we're late in noticing don't hold it against them :) */
-      cli_lasttime(cptr) = CurrentTime - max_ping;
-      
       if (IsUser(cptr))
         sendrawto_one(cptr, MSG_PING " :%s", cli_name(&me));
       else
-- 
2.43.0


From 19e10aa586aee191f728d71a5439ace4800d3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 52/60] fix: bans both sides of a merge had were lost on the
 servers behind the younger side

---
 ircd/m_burst.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 5cf042e..4bb79ff 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -385,6 +385,8 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 
 	for (ban = ircd_strtok(&p, banlist, " "); ban;
 	     ban = ircd_strtok(&p, 0, " ")) {
+	  int known = 0; /* ban exists, but was to be wiped out */
+
 	  ban = collapse(pretty_mask(ban));
 
 	    /*
@@ -397,9 +399,12 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	     */
 	  for (lp = chptr->banlist; lp; lp = lp->next) {
 	    if (!ircd_strcmp(lp->banstr, ban)) {
-	      ban = 0; /* don't add ban */
+	      if (lp->flags & BAN_BURST_WIPEOUT)
+		known = 1; /* servers behind us wipe theirs out; repropagate */
+	      else
+		ban = 0; /* new ban already existed; don't repropagate */
 	      lp->flags &= ~BAN_BURST_WIPEOUT; /* not wiping out */
-	      break; /* new ban already existed; don't even repropagate */
+	      break; /* don't add ban */
 	    } else if (!(lp->flags & BAN_BURST_WIPEOUT) &&
 		       !mmatch(lp->banstr, ban)) {
 	      ban = 0; /* don't add ban unless wiping out bans */
@@ -422,6 +427,9 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 	    for (ptr = ban; *ptr; ptr++) /* add ban to buffer */
 	      banstr[banpos++] = *ptr;
 
+	    if (known)
+	      continue;
+
 	    newban = make_ban(ban); /* create new ban */
             strcpy(newban->who, "*");
 	    newban->when = TStime();
-- 
2.43.0


From 6bccbec0ebc917b404d49381315bb87bd03f7a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:46 +0000
Subject: [PATCH 53/60] fix: a kicked user stayed a zombie on servers behind
 one that had dropped the emptied channel

---
 ircd/m_part.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ircd/m_part.c b/ircd/m_part.c
index 9577d21..eab9865 100644
--- a/ircd/m_part.c
+++ b/ircd/m_part.c
@@ -88,6 +88,7 @@
 #include "ircd_log.h"
 #include "ircd_reply.h"
 #include "ircd_string.h"
+#include "msg.h"
 #include "numeric.h"
 #include "numnicks.h"
 #include "send.h"
@@ -211,10 +212,17 @@ int ms_part(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 
     chptr = get_channel(sptr, name, CGT_NO_CREATE); /* look up channel */
 
-    if (!chptr || IsLocalChannel(name) ||
-	!(member = find_member_link(chptr, sptr)))
+    if (IsLocalChannel(name))
       continue; /* ignore from remote clients */
 
+    if (!chptr || !(member = find_member_link(chptr, sptr))) {
+      /* A kicked user's zombie is gone already where the channel was left
+       * empty, but servers behind us may still wait for this PART.
+       */
+      sendcmdto_serv_butone(sptr, CMD_PART, cptr, "%s", name);
+      continue;
+    }
+
     if (IsZombie(member)) /* figure out special flags... */
       flags |= CHFL_ZOMBIE;
 
-- 
2.43.0


From 396f1ba87375fbeea56df6cf0736043f6a02f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:59 +0000
Subject: [PATCH 54/60] fix: a PINGFREQUENCY or CONNECTFREQUENCY of zero made
 the server loop in its timers forever

---
 ircd/ircd.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ircd/ircd.c b/ircd/ircd.c
index c2627c4..bcafa2c 100644
--- a/ircd/ircd.c
+++ b/ircd/ircd.c
@@ -318,6 +318,10 @@ static void try_connections(struct Event* ev) {
     done = 1;
   }
 
+  /* Never for right now: with a frequency of zero we would be called forever */
+  if (next <= CurrentTime)
+    next = CurrentTime + 1;
+
   Debug((DEBUG_NOTICE, "Next connection check : %s", myctime(next)));
   timer_add(&connect_timer, try_connections, 0, TT_ABSOLUTE, next);
 }
@@ -482,8 +486,12 @@ static void check_pings(struct Event* ev) {
       next_check=expire;
   }
   
+  /* Never for right now: with a frequency of zero we would be called forever */
+  if (next_check <= CurrentTime)
+    next_check = CurrentTime + 1;
+
   assert(next_check >= CurrentTime);
-  
+
   Debug((DEBUG_DEBUG, "[%i] check_pings() again in %is",
 	 CurrentTime, next_check-CurrentTime));
   
-- 
2.43.0


From b95781dc216930264cb5e0900ad0d209412f7556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:25 +0000
Subject: [PATCH 55/60] fix: a negative NICKLEN or CHANNELLEN let clients
 overrun buffers with their names

---
 ircd/m_join.c | 2 +-
 ircd/m_nick.c | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ircd/m_join.c b/ircd/m_join.c
index 7a925e6..6d02381 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -176,7 +176,7 @@ int m_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 
     if (!(chptr = FindChannel(name))) {
       if (((name[0] == '&') && !feature_bool(FEAT_LOCAL_CHANNELS))
-          || strlen(name) > IRCD_MIN(CHANNELLEN, feature_int(FEAT_CHANNELLEN))) {
+          || strlen(name) > IRCD_MIN((size_t)CHANNELLEN, (size_t)feature_int(FEAT_CHANNELLEN))) {
         send_reply(sptr, ERR_NOSUCHCHANNEL, name);
         continue;
       }
diff --git a/ircd/m_nick.c b/ircd/m_nick.c
index 4c91a20..dd51bc2 100644
--- a/ircd/m_nick.c
+++ b/ircd/m_nick.c
@@ -146,6 +146,7 @@ int m_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   char           nick[NICKLEN + 2];
   char*          arg;
   char*          s;
+  size_t         nick_len;
 
   assert(0 != cptr);
   assert(cptr == sptr);
@@ -165,8 +166,9 @@ int m_nick(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
    * garbage
    */
   arg = parv[1];
-  if (strlen(arg) > IRCD_MIN(NICKLEN, feature_int(FEAT_NICKLEN)))
-    arg[IRCD_MIN(NICKLEN, feature_int(FEAT_NICKLEN))] = '\0';
+  nick_len = IRCD_MIN((size_t)NICKLEN, (size_t)feature_int(FEAT_NICKLEN));
+  if (strlen(arg) > nick_len)
+    arg[nick_len] = '\0';
 
   if ((s = strchr(arg, '~')))
     *s = '\0';
-- 
2.43.0


From 6c3d9a48fda149a0d663606b2eed975798a6b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:25 +0000
Subject: [PATCH 56/60] fix: an INVITE crashed the server when
 MAXCHANNELSPERUSER was zero

---
 ircd/channel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 460f1b5..514679e 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -1400,7 +1400,8 @@ void add_invite(struct Client *cptr, struct Channel *chptr)
    * Delete last link in chain if the list is max length
    */
   assert(list_length((cli_user(cptr))->invited) == (cli_user(cptr))->invites);
-  if ((cli_user(cptr))->invites >= feature_int(FEAT_MAXCHANNELSPERUSER))
+  if ((cli_user(cptr))->invited &&
+      (cli_user(cptr))->invites >= feature_int(FEAT_MAXCHANNELSPERUSER))
     del_invite(cptr, (cli_user(cptr))->invited->value.chptr);
   /*
    * Add client to channel invite list
-- 
2.43.0


From c1aba526b348f987850e88af7b038279495078ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:36 +0000
Subject: [PATCH 57/60] fix: LIST showed channels twice when it paused for a
 full queue

---
 ircd/hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/hash.c b/ircd/hash.c
index 72f908c..bdac3d4 100644
--- a/ircd/hash.c
+++ b/ircd/hash.c
@@ -469,7 +469,11 @@ void list_next_channels(struct Client *cptr)
     /* If, at the end of the bucket, client sendq is more than half
      * full, stop. */
     if (MsgQLength(&cli_sendQ(cptr)) > get_sendq(cptr) / 2)
+    {
+      /* This bucket is done: continue with the next one. */
+      args->bucket++;
       break;
+    }
   }
 
   /* If we did all buckets, clean the client and send RPL_LISTEND. */
-- 
2.43.0


From f066e119dafe7d349910b256ca5cfc4fd97d50b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:36 +0000
Subject: [PATCH 58/60] fix: LIST ignored or misread the conditions after an
 age condition

---
 ircd/m_list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ircd/m_list.c b/ircd/m_list.c
index b43ab15..1ce5989 100644
--- a/ircd/m_list.c
+++ b/ircd/m_list.c
@@ -196,6 +196,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
     return LPARAM_SUCCESS;
 
   while (1) {
+    is_time = 0;
     switch (*param) {
     case 'T':
     case 't':
-- 
2.43.0


From 570708b71c6951462d65c2637cac36d32a229d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:12 +0000
Subject: [PATCH 59/60] fix: a dead link's error message replaced the user's
 real name

---
 include/client.h | 7 +++++++
 ircd/ircd.c      | 2 +-
 ircd/packet.c    | 6 +++---
 ircd/s_bsd.c     | 8 ++++----
 ircd/send.c      | 6 +++---
 5 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/client.h b/include/client.h
index 3a8b605..eb22bae 100644
--- a/include/client.h
+++ b/include/client.h
@@ -207,6 +207,7 @@ struct Connection
   unsigned int        con_count;     /**< Amount of data in buffer */
   int                 con_freeflag;  /**< indicates if connection can be freed */
   int                 con_error;     /**< last socket level error for client */
+  char                con_deadmsg[REALLEN + 1]; /**< why the link was marked dead */
   int                 con_sentalong; /**< sentalong marker for connection */
   unsigned int        con_snomask;   /**< mask for server messages */
   enum ws_mode_t {
@@ -367,6 +368,10 @@ struct Client {
 #define cli_freeflag(cli)	con_freeflag(cli_connect(cli))
 /** Get last error code for the client's connection. */
 #define cli_error(cli)		con_error(cli_connect(cli))
+/** Get the reason why a client's link was marked dead. */
+#define cli_deadmsg(cli)	con_deadmsg(cli_connect(cli))
+/** Get the comment for the exit of a client whose link is dead. */
+#define cli_exitmsg(cli)	(*cli_deadmsg(cli) ? cli_deadmsg(cli) : cli_info(cli))
 /** Get server notice mask for the client. */
 #define cli_snomask(cli)	con_snomask(cli_connect(cli))
 /** Get next time a nick change is allowed for the client. */
@@ -446,6 +451,8 @@ struct Client {
 #define con_freeflag(con)	((con)->con_freeflag)
 /** Get last error code on connection. */
 #define con_error(con)		((con)->con_error)
+/** Get the reason why the connection was marked dead. */
+#define con_deadmsg(con)	((con)->con_deadmsg)
 /** Get sentalong marker for connection. */
 #define con_sentalong(con)      ((con)->con_sentalong)
 /** Get server notice mask for connection. */
diff --git a/ircd/ircd.c b/ircd/ircd.c
index bcafa2c..37555a2 100644
--- a/ircd/ircd.c
+++ b/ircd/ircd.c
@@ -355,7 +355,7 @@ static void check_pings(struct Event* ev) {
 
     /* Remove dead clients. */
     if (IsDead(cptr)) {
-      exit_client(cptr, cptr, &me, cli_info(cptr));
+      exit_client(cptr, cptr, &me, cli_exitmsg(cptr));
       continue;
     }
 
diff --git a/ircd/packet.c b/ircd/packet.c
index 7757fe7..0f7a341 100644
--- a/ircd/packet.c
+++ b/ircd/packet.c
@@ -122,7 +122,7 @@ int server_dopacket(struct Client* cptr, const char* buffer, int length)
        *  Socket is dead so exit
        */
       if (IsDead(cptr))
-        return exit_client(cptr, cptr, &me, cli_info(cptr));
+        return exit_client(cptr, cptr, &me, cli_exitmsg(cptr));
       endp = client_buffer;
       body = 0;
     }
@@ -223,7 +223,7 @@ int connect_dopacket(struct Client *cptr, const char *buffer, int length)
         return CPTR_KILLED;
       /* Socket is dead so exit */
       if (IsDead(cptr))
-        return exit_client(cptr, cptr, &me, cli_info(cptr));
+        return exit_client(cptr, cptr, &me, cli_exitmsg(cptr));
       else if (IsServer(cptr))
       {
         cli_count(cptr) = 0;
@@ -280,7 +280,7 @@ int client_dopacket(struct Client *cptr, unsigned int length)
   if (CPTR_KILLED == parse_client(cptr, cli_buffer(cptr), cli_buffer(cptr) + length))
     return CPTR_KILLED;
   else if (IsDead(cptr))
-    return exit_client(cptr, cptr, &me, cli_info(cptr));
+    return exit_client(cptr, cptr, &me, cli_exitmsg(cptr));
 
   return 1;
 }
diff --git a/ircd/s_bsd.c b/ircd/s_bsd.c
index 890a61a..0041615 100644
--- a/ircd/s_bsd.c
+++ b/ircd/s_bsd.c
@@ -1131,11 +1131,11 @@ static void client_sock_callback(struct Event* ev)
 
   case ET_CONNECT: /* socket connection completed */
     if (!completed_connection(cptr) || IsDead(cptr))
-      fallback = cli_info(cptr);
+      fallback = cli_exitmsg(cptr);
     break;
 
   case ET_ERROR: /* an error occurred */
-    fallback = cli_info(cptr);
+    fallback = cli_exitmsg(cptr);
     cli_error(cptr) = ev_data(ev);
     /* If the OS told us we have a bad file descriptor, we should
      * record that for future reference.
@@ -1170,7 +1170,7 @@ static void client_sock_callback(struct Event* ev)
     if (IsDead(cptr)) {
       /* It will not be read from or written to any more, so do not wait for
        * check_pings() while the event engine reports it as ready. */
-      exit_client(cptr, cptr, &me, cli_info(cptr));
+      exit_client(cptr, cptr, &me, cli_exitmsg(cptr));
       return;
     }
     if (IsNegotiatingTLS(cptr)) {
@@ -1194,7 +1194,7 @@ static void client_sock_callback(struct Event* ev)
 
   case ET_READ: /* socket is readable */
     if (IsDead(cptr)) {
-      exit_client(cptr, cptr, &me, cli_info(cptr));
+      exit_client(cptr, cptr, &me, cli_exitmsg(cptr));
       return;
     } else {
       Debug((DEBUG_DEBUG, "Reading data from %C", cptr));
diff --git a/ircd/send.c b/ircd/send.c
index 3de05ff..1098615 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -95,11 +95,11 @@ static void dead_link(struct Client *to, char *notice)
   /*
    * Keep a copy of the last comment, for later use...
    */
-  ircd_strncpy(cli_info(to), notice, REALLEN);
+  ircd_strncpy(cli_deadmsg(to), notice, REALLEN);
 
   if (!IsUser(to) && !IsUnknown(to) && !HasFlag(to, FLAG_CLOSING))
-    sendto_opmask_butone(0, SNO_OLDSNO, "%s for %s", cli_info(to), cli_name(to));
-  Debug((DEBUG_ERROR, cli_info(to)));
+    sendto_opmask_butone(0, SNO_OLDSNO, "%s for %s", cli_deadmsg(to), cli_name(to));
+  Debug((DEBUG_ERROR, "%s", cli_deadmsg(to)));
 }
 
 /** Test whether we can send to a client.
-- 
2.43.0


From a70981508b319ec5a80a2c6a2edd7980e664873e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:38 +0000
Subject: [PATCH 60/60] fix: tell other servers about silences displaced by an
 update that is refused

A SILENCE addition that does not fit the list has already marked the
entries it overlaps, and they are removed although the addition itself
is dropped.  Other servers were told nothing and went on stopping
messages for the removed silence.  Report the refused addition as a
removal of what it covers.
---
 ircd/m_silence.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ircd/m_silence.c b/ircd/m_silence.c
index 2d6d071..61d40ea 100644
--- a/ircd/m_silence.c
+++ b/ircd/m_silence.c
@@ -126,14 +126,16 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
   }
 
   if (MyUser(sptr)) {
-    size_t siles, maxsiles, totlength, maxlength, jj;
+    size_t siles, maxsiles, totlength, maxlength, overlapped, jj;
 
     /* Check that silence count and total length are permitted. */
     maxsiles = feature_int(FEAT_MAXSILES);
     maxlength = maxsiles * feature_int(FEAT_AVBANLEN);
-    siles = totlength = 0;
+    siles = totlength = overlapped = 0;
     /* Count number of current silences and their total length. */
     for (sile = cli_user(sptr)->silence; sile; sile = sile->next) {
+      if (sile->flags & BAN_OVERLAPPED)
+        overlapped++;
       if (sile->flags & (BAN_OVERLAPPED | BAN_ADD | BAN_DEL))
         continue;
       siles++;
@@ -157,7 +159,14 @@ forward_silences(struct Client *sptr, char *silences, struct Client *dest)
             *plast = sile->next;
           if (MyUser(sptr))
             send_reply(sptr, ERR_SILELISTFULL, accepted[ii]->banstr);
-          free_ban(accepted[ii]);
+          /* It already displaced the entries it overlaps, so if there
+           * may be any, report it to other servers as their removal.
+           */
+          if (overlapped) {
+            sile->flags = (sile->flags & ~BAN_ADD) | BAN_DEL;
+            accepted[jj++] = sile;
+          } else
+            free_ban(sile);
           continue;
         }
         /* Update counts. */
-- 
2.43.0

