From 93b9dcbc7d6be361ca86922d0988c71ab96f577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 01/78] fix: do not count end-of-file as a character in stream
 positions

A peeked or pushed back end-of-file advanced line_position and was deducted
from the offset of stream_position.
---
 src/BipsPl/stream_supp.c | 25 +++++++++++++++++--------
 src/BipsPl/stream_supp.h |  6 ++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 9d062bf..14f4ccd 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1255,14 +1255,16 @@ TTY_Clearerr(void *unused)
 
 #define Update_Counters(pstm, c)		\
   if (c != EOF)                   		\
-    pstm->char_count++;       			\
-  if (c == '\n')              			\
     {                      			\
-      pstm->line_count++;   			\
-      pstm->line_pos = 0;     			\
-    }                      			\
-  else                     			\
-    pstm->line_pos++
+      pstm->char_count++;       		\
+      if (c == '\n')              		\
+	{                      			\
+	  pstm->line_count++;   		\
+	  pstm->line_pos = 0;     		\
+	}                      			\
+      else                     			\
+	pstm->line_pos++;			\
+    }
 
 
 
@@ -1439,6 +1441,9 @@ Pl_Stream_Ungetc(int c, StmInf *pstm)
   PB_Push(pstm->pb_char, c);
   pstm->eof_reached = FALSE;
 
+  if (c == EOF)			/* EOF is not counted (see Update_Counters) */
+    return;
+
   if (pstm->char_count > 0)	/* test should be useless */
     pstm->char_count--;
 
@@ -1684,6 +1689,8 @@ void
 Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count,
 		       PlLong *line_count, PlLong *line_pos)
 {
+  int i;
+
   *offset = 0;
   if (pstm->prop.reposition && pstm->fct_tell != STREAM_FCT_UNDEFINED)
     {
@@ -1691,7 +1698,9 @@ Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count,
 	*offset = 0;
       else
 	{
-	  *offset = *offset - pstm->pb_char.nb_elems;
+	  for (i = 1; i <= pstm->pb_char.nb_elems; i++) /* a pushed back EOF is not a char */
+	    if (PB_Elem(pstm->pb_char, i) != EOF)
+	      (*offset)--;
 	  if (*offset < 0)
 	    *offset = 0;
 	}
diff --git a/src/BipsPl/stream_supp.h b/src/BipsPl/stream_supp.h
index fd50a0e..86e6223 100644
--- a/src/BipsPl/stream_supp.h
+++ b/src/BipsPl/stream_supp.h
@@ -535,3 +535,9 @@ void Pl_Close_Stm(int stm, Bool force); /* from close_c.c */
     }						\
   while (0)
 
+
+
+
+				/* i-th elem from the top (i in 1..nb_elems) */
+#define PB_Elem(pb, i)       (pb.buff[(pb.ptr - pb.buff - (i) + STREAM_PB_SIZE) % STREAM_PB_SIZE])
+
-- 
2.43.0


From 33d4a40f7ffbbe41d5b5b712f4b9c59558404562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 02/78] fix: do not take a read error for an end-of-file

A failing read (EIO, EISDIR,...) or one interrupted by a signal (EINTR)
was silently seen as the end of the stream: the rest of the data was lost.
---
 src/BipsPl/stream_supp.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 14f4ccd..3c1441e 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1286,7 +1286,22 @@ Basic_Call_Fct_Getc(StmInf *pstm)
       fflush(stdout);
     }
 #endif
-  c = CALL_GETC(pstm);
+  for (;;)
+    {
+      c = CALL_GETC(pstm);
+#ifndef FOR_EXTERNAL_USE
+      if (c == EOF && pstm->fct_getc == (StmFct) fgetc && ferror((FILE *) pstm->file))
+	{			/* a read error is not an end-of-file */
+	  int err_no = errno;
+	  clearerr((FILE *) pstm->file);
+	  if (err_no == EINTR)
+	    continue;
+	  if (pstm->file != stdin) /* else the top-level would never end */
+	    Pl_Os_Error(err_no);
+	}
+#endif
+      break;
+    }
 
   if (c != EOF)
     for (m = pstm->mirror; m ; m = m->next)
-- 
2.43.0


From 0ccbd5ac808b0c101436889db7686ac180ec1697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 03/78] fix: report write errors in flush_output and close

Data which cannot be written (disk full, I/O error) were silently lost. Also
forget a stream whose close failed since its FILE no longer exists.
---
 src/BipsPl/stream_c.c | 54 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 560224f..c3f0a6b 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -490,6 +490,34 @@ Pl_Set_Stream_Buffering_2(WamWord sora_word, WamWord buff_mode_word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * FLUSH_AND_GET_ERROR                                                     *
+ *                                                                         *
+ * Flush a stream and return 0 or the errno of a write error which occurred*
+ * during this flush or since the last call (in that case data are lost).  *
+ *-------------------------------------------------------------------------*/
+static int
+Flush_And_Get_Error(StmInf *pstm)
+{
+  FILE *f;
+
+  errno = 0;
+  Pl_Stream_Flush(pstm);
+
+  if (!pstm->prop.output || pstm->fct_putc != (StmFct) fputc)
+    return 0;
+
+  f = (FILE *) pstm->file;
+  if (!ferror(f))
+    return 0;
+
+  clearerr(f);
+  return (errno) ? errno : EIO;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_CLOSE_1                                                              *
  *                                                                         *
@@ -511,12 +539,15 @@ Pl_Close_Stm(int stm, Bool force)
 {
   StmInf *pstm = pl_stm_tbl[stm];
   int fd;
+  int err_no;
   Bool keep_stream;
 
   if (pstm->prop.special_close)
     Pl_Err_System(Pl_Create_Atom(ERR_NEEDS_SPECIAL_CLOSE));
 
-  Pl_Stream_Flush(pstm);
+  err_no = Flush_And_Get_Error(pstm);
+  if (err_no && !force)		/* some data is lost: the stream remains open */
+    Pl_Os_Error(err_no);
 
   if (stm == pl_stm_stdin || stm == pl_stm_stdout || stm == pl_stm_stderr)
     keep_stream = TRUE;
@@ -528,7 +559,10 @@ Pl_Close_Stm(int stm, Bool force)
       if (Pl_Stream_Close(pstm) != 0)
 	{
 	  if (force == 0)
-	    Pl_Err_System(Pl_Create_Atom(ERR_CANNOT_CLOSE_STREAM));
+	    {			/* the FILE no longer exists: forget the stream */
+	      Pl_Delete_Stream(stm, FALSE);
+	      Pl_Err_System(Pl_Create_Atom(ERR_CANNOT_CLOSE_STREAM));
+	    }
 
 	  /* else force close */
 	  if (fd > 2)
@@ -565,14 +599,28 @@ Pl_PB_Empty_Buffer_1(WamWord sora_word)
 void
 Pl_Flush_Output_1(WamWord sora_word)
 {
+  WamWord word, tag_mask;
   int stm;
+  int err_no;
 
   stm = (sora_word == NOT_A_WAM_WORD)
     ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);
 
   pl_last_output_sora = sora_word;
 
-  Pl_Stream_Flush(pl_stm_tbl[stm]);
+  err_no = Flush_And_Get_Error(pl_stm_tbl[stm]);
+
+  if (err_no == 0)
+    return;
+
+  if (sora_word != NOT_A_WAM_WORD)
+    {				/* else the top-level/debugger would loop on it */
+      DEREF(sora_word, word, tag_mask);
+      if (word == Tag_ATM(pl_atom_top_level_output) || word == Tag_ATM(pl_atom_debugger_output))
+	return;
+    }
+
+  Pl_Os_Error(err_no);
 }
 
 
-- 
2.43.0


From dba3c012bf6db461a7a55e5da24325864c05b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 04/78] fix: do not keep a dangling stream when open/4 refuses
 reposition(true)

---
 src/BipsPl/stream_c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index c3f0a6b..76d9ceb 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -267,6 +267,7 @@ Pl_Open_3(WamWord source_sink_word, WamWord mode_word, WamWord stm_word)
       if (reposition && !prop.reposition)
 	{
 	  fclose(f);
+	  Pl_Delete_Stream(stm, FALSE);
 	  word = Pl_Put_Structure(pl_atom_reposition, 1);
 	  Pl_Unify_Atom(pl_atom_true);
 	  Pl_Err_Permission(pl_permission_operation_open,
-- 
2.43.0


From 2fb5ddf5141c6c3cce3b10b1bae52ed9d14cfbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 05/78] fix: read the characters of a constant term stream as
 unsigned

---
 src/BipsPl/stream_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 3c1441e..0f83b1d 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -2005,7 +2005,7 @@ Str_Stream_Getc(void *a_str_stream)
   StrSInf *str_stream = a_str_stream;
   int c;
 
-  c = *(str_stream->ptr);
+  c = *(unsigned char *) (str_stream->ptr);
   if (c == '\0')
     return EOF;
 
-- 
2.43.0


From 271641993b8391e1b34cf92d5c3842485e184b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 06/78] fix: Pl_Stream_Gets overflow by one and prompt used as
 a format

---
 src/BipsPl/stream_supp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 0f83b1d..383ea09 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1516,7 +1516,7 @@ Pl_Stream_Gets(char *str, int size, StmInf *pstm)
 
   for (;;)
     {
-      if (p - str >= size)
+      if (p - str >= size - 1)	/* -1 for the last '\0' */
 	break;
 
       c = Pl_Stream_Getc(pstm);
@@ -1558,7 +1558,7 @@ Pl_Stream_Gets_Prompt(char *prompt, StmInf *pstm_o,
 
   if (pstm_i->fct_getc != (StmFct) TTY_Getc)
 #endif
-    Pl_Stream_Printf(pstm_o, prompt);
+    Pl_Stream_Puts(prompt, pstm_o);
 
   str = Pl_Stream_Gets(str, size, pstm_i);
 
-- 
2.43.0


From 6069c003d1c04cd740c3a23754c6bef2c66fa65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 07/78] fix: seek/4 relative to the current position or to eof

A peeked byte was ignored by seek(S, current,...) and the offset (instead of
the resulting location, e.g. -2) was stored as the character count.
---
 src/BipsPl/stream_c.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index 76d9ceb..ba3f134 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -1311,10 +1311,18 @@ Pl_Seek_4(WamWord sora_word, WamWord whence_word, WamWord offset_word,
   offset = Pl_Rd_Integer_Check(offset_word);
   Pl_Check_For_Un_Integer(new_loc_word);
 
+  if (whence == SEEK_CUR)	/* take into account pushed back bytes */
+    {
+      Pl_Stream_Get_Position(pstm, p, p + 1, p + 2, p + 3);
+      offset += p[0];
+      whence = SEEK_SET;
+    }
+
   if (Pl_Stream_Set_Position(pstm, whence, offset, offset, 0, 0) != 0)
     return FALSE;
 
   Pl_Stream_Get_Position(pstm, &offset, p + 1, p + 2, p + 3);
+  pstm->char_count = offset;	/* the new location (whence can be eof) */
 
   return Pl_Get_Integer(offset, new_loc_word);
 }
-- 
2.43.0


From 392c432ec688958605f7f042b2cd2ff7786486f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 08/78] fix: set_stream_line_column/3 no longer echoes the
 re-read chars to mirrors

and keeps the pushed back line positions when it fails.
---
 src/BipsPl/stream_supp.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 383ea09..716714c 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -1821,18 +1821,23 @@ Pl_Stream_Set_Position_LC(StmInf *pstm, PlLong line_count, PlLong line_pos)
 
   p = &(pstm->line_count);
 
+				/* do not echo the chars to the mirrors */
   while (*p < line_count)
-    if (Pl_Stream_Getc(pstm) == EOF)
-      goto err;
+    {
+      if ((c = CALL_GETC(pstm)) == EOF)
+	goto err;
+      Update_Counters(pstm, c);
+    }
 
   p = &(pstm->line_pos);
 
   while (*p < line_pos)
     {
-      if ((c = Pl_Stream_Getc(pstm)) == EOF)
+      if ((c = CALL_GETC(pstm)) == EOF)
 	goto err;
       if (c == '\n')
 	goto err;
+      Update_Counters(pstm, c);
     }
 
 
-- 
2.43.0


From 632a2eee37c86cbacc722eb02552c03f337ee78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 09/78] fix: current_alias/2 and current_mirror/2 use freed
 memory on backtracking

when the alias, the mirror or the stream is removed between two solutions.
---
 src/BipsPl/stream_c.c | 149 +++++++++++++++++++-----------------------
 1 file changed, 69 insertions(+), 80 deletions(-)

diff --git a/src/BipsPl/stream_c.c b/src/BipsPl/stream_c.c
index ba3f134..a1e4be9 100644
--- a/src/BipsPl/stream_c.c
+++ b/src/BipsPl/stream_c.c
@@ -1002,6 +1002,29 @@ Pl_At_End_Of_Stream_0(void)
 
 
 
+/*-------------------------------------------------------------------------*
+ * NEXT_ALIAS_OF_STREAM                                                    *
+ *                                                                         *
+ * Returns the smallest alias (atom) of stm which is > atom, -1 if none.   *
+ *-------------------------------------------------------------------------*/
+static int
+Next_Alias_Of_Stream(int stm, int atom)
+{
+  HashScan scan;
+  AliasInf *alias;
+  int next = -1;
+
+  for (alias = (AliasInf *) Pl_HTBL_First(pl_alias_htbl, &scan); alias;
+       alias = (AliasInf *) Pl_HTBL_Next(&scan))
+    if (alias->stm == stm && alias->atom > atom && (next < 0 || alias->atom < next))
+      next = (int) alias->atom;
+
+  return next;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_CURRENT_ALIAS_2                                                      *
  *                                                                         *
@@ -1011,9 +1034,7 @@ Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
 {
   WamWord word, tag_mask;
   int stm;
-  HashScan scan;
-  AliasInf *alias;
-  AliasInf *save_alias;
+  int atom;
 
   stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
 
@@ -1021,37 +1042,18 @@ Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
   if (tag_mask != TAG_REF_MASK)
     return Pl_Find_Stream_By_Alias(Pl_Rd_Atom_Check(word)) == stm;
 
-  for (alias = (AliasInf *) Pl_HTBL_First(pl_alias_htbl, &scan); alias;
-       alias = (AliasInf *) Pl_HTBL_Next(&scan))
-    if (alias->stm == stm)
-      break;
-
-  if (alias == NULL)
+  if ((atom = Next_Alias_Of_Stream(stm, -1)) < 0)
     return FALSE;
 
-  save_alias = alias;
-
-  for (;;)
-    {
-      alias = (AliasInf *) Pl_HTBL_Next(&scan);
-      if (alias == NULL || alias->stm == stm)
-	break;
-    }
-
-
-  if (alias)			/* non deterministic case */
+  if (Next_Alias_Of_Stream(stm, atom) >= 0) /* non deterministic case */
     {
       A(0) = stm;
       A(1) = alias_word;
-      A(2) = (WamWord) scan.end_t;
-      A(3) = (WamWord) scan.cur_t;
-      A(4) = (WamWord) scan.cur_p;
-      A(5) = (WamWord) alias;
-      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 6);
+      A(2) = atom;
+      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 3);
     }
 
-  Pl_Get_Atom((int) save_alias->atom, alias_word);
-  return TRUE;
+  return Pl_Get_Atom(atom, alias_word);
 }
 
 
@@ -1066,47 +1068,43 @@ Pl_Current_Alias_Alt_0(void)
 {
   int stm;
   WamWord alias_word;
-  HashScan scan;
-  AliasInf *alias;
-  AliasInf *save_alias;
-
+  int atom;
 
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 0);
 
   stm = (int) AB(B, 0);
   alias_word = AB(B, 1);
-  scan.end_t = (HashNode *) AB(B, 2);
-  scan.cur_t = (HashNode *) AB(B, 3);
-  scan.cur_p = (HashNode)   AB(B, 4);
-  alias      = (AliasInf *) AB(B, 5);
+				/* an alias can be removed between 2 solutions */
+  atom = Next_Alias_Of_Stream(stm, (int) AB(B, 2));
 
+  if (atom >= 0 && Next_Alias_Of_Stream(stm, atom) >= 0) /* non deterministic case */
+    AB(B, 2) = atom;
+  else
+    Delete_Last_Choice_Point();
 
-  save_alias = alias;
+  return atom >= 0 && Pl_Get_Atom(atom, alias_word);
+}
 
-  for (;;)
-    {
-      alias = (AliasInf *) Pl_HTBL_Next(&scan);
-      if (alias == NULL || alias->stm == stm)
-	break;
-    }
 
 
-  if (alias)			/* non deterministic case */
-    {
-#if 0 /* the following data is unchanged */
-      AB(B, 0) = stm;
-      AB(B, 1) = alias_word;
-      AB(B, 2) = (WamWord) scan.end_t;
-#endif
-      AB(B, 3) = (WamWord) scan.cur_t;
-      AB(B, 4) = (WamWord) scan.cur_p;
-      AB(B, 5) = (WamWord) alias;
-    }
-  else
-    Delete_Last_Choice_Point();
 
-  Pl_Get_Atom((int) save_alias->atom, alias_word);
-  return TRUE;
+/*-------------------------------------------------------------------------*
+ * NEXT_MIRROR_OF_STREAM                                                   *
+ *                                                                         *
+ * Returns the smallest mirror (stream) of stm which is > m_stm, -1 if none*
+ *-------------------------------------------------------------------------*/
+static int
+Next_Mirror_Of_Stream(int stm, int m_stm)
+{
+  StmLst *m;
+  int next = -1;
+
+  if (pl_stm_tbl[stm] != NULL)	/* can be closed between 2 solutions */
+    for (m = pl_stm_tbl[stm]->mirror; m; m = m->next)
+      if (m->stm > m_stm && (next < 0 || m->stm < next))
+	next = m->stm;
+
+  return next;
 }
 
 
@@ -1120,24 +1118,20 @@ Bool
 Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word)
 {
   int stm = Pl_Rd_C_Int_Check(stm_word);	/* stm is a valid stream entry */
-  StmInf *pstm = pl_stm_tbl[stm];
-  StmLst *m = pstm->mirror;
+  int m_stm;
 
-				/* From here, the code also works with     */
-				/* m = m_pstm->mirror_of. Could be used    */
-				/* if m_stm_word is given and not stm_word */
-  if (m == NULL)
+  if ((m_stm = Next_Mirror_Of_Stream(stm, -1)) < 0)
     return FALSE;
 
-  if (m->next != NULL) /* non deterministic case */
+  if (Next_Mirror_Of_Stream(stm, m_stm) >= 0) /* non deterministic case */
     {
-      A(0) = stm;		/* useless in fact */
+      A(0) = stm;
       A(1) = m_stm_word;
-      A(2) = (WamWord) m->next;
+      A(2) = m_stm;
       Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 3);
     }
 
-  return Pl_Get_Integer(m->stm, m_stm_word);
+  return Pl_Get_Integer(m_stm, m_stm_word);
 }
 
 
@@ -1150,28 +1144,23 @@ Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word)
 Bool
 Pl_Current_Mirror_Alt_0(void)
 {
-  /*  int stm; */
+  int stm;
   WamWord m_stm_word;
-  StmLst *m;
+  int m_stm;
 
   Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 0);
 
-  /*  stm = AB(B, 0); */
+  stm = (int) AB(B, 0);
   m_stm_word = AB(B, 1);
-  m = (StmLst *) AB(B, 2);
+				/* a mirror can be removed between 2 solutions */
+  m_stm = Next_Mirror_Of_Stream(stm, (int) AB(B, 2));
 
-  if (m->next)			/* non deterministic case */
-    {
-#if 0				/* the following data is unchanged */
-      AB(B, 0) = stm;
-      AB(B, 1) = m_stm_word;
-#endif
-      AB(B, 2) = (WamWord) m->next;
-    }
+  if (m_stm >= 0 && Next_Mirror_Of_Stream(stm, m_stm) >= 0) /* non deterministic case */
+    AB(B, 2) = m_stm;
   else
     Delete_Last_Choice_Point();
 
-  return Pl_Get_Integer(m->stm, m_stm_word);
+  return m_stm >= 0 && Pl_Get_Integer(m_stm, m_stm_word);
 }
 
 
-- 
2.43.0


From bd1cf65eb98e5b348debeb26b44eecaad49c3dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 10/78] fix: circular mirrors recurse forever

---
 src/BipsPl/stream_supp.c | 9 ++++++++-
 src/BipsPl/stream_supp.h | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 716714c..4a62b69 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -422,6 +422,7 @@ Init_Stream_Struct(int atom_file_name, void *file, int fileno, StmProp prop,
   pstm->prop = prop;
   pstm->mirror = NULL;
   pstm->mirror_of = NULL;
+  pstm->in_mirror = FALSE;
 
 #define INIT_FCT(f, d) pstm->f = (f) ? f : (StmFct) d
 
@@ -1324,8 +1325,14 @@ Basic_Call_Fct_Putc(int c, StmInf *pstm)
 
   CALL_PUTC(c, pstm);
 
+  if (pstm->mirror == NULL)
+    return;
+
+  pstm->in_mirror = TRUE;	/* to detect circular mirrors */
   for (m = pstm->mirror; m ; m = m->next)
-    Pl_Stream_Putc(c, pl_stm_tbl[m->stm]);
+    if (!pl_stm_tbl[m->stm]->in_mirror)
+      Pl_Stream_Putc(c, pl_stm_tbl[m->stm]);
+  pstm->in_mirror = FALSE;
 }
 
 
diff --git a/src/BipsPl/stream_supp.h b/src/BipsPl/stream_supp.h
index 86e6223..c7cef65 100644
--- a/src/BipsPl/stream_supp.h
+++ b/src/BipsPl/stream_supp.h
@@ -146,6 +146,7 @@ typedef struct stm_inf		/* Stream information             */
   StmProp prop;			/* assoctiated properties         */
   StmLst *mirror;		/* mirror streams                 */
   StmLst *mirror_of;            /* streams this stream as mirror  */
+  Bool in_mirror;		/* is being echoed to its mirrors */
 				/* ----- Basic I/O functions ---- */
   StmFct fct_getc;		/* get char function (mandatory)  */
   StmFct fct_putc;		/* put char function (mandatory)  */
-- 
2.43.0


From 24b95fb3dc1c53dd3bef9631c056062861a51835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 11/78] fix: set_stream_buffering/2 loses what is in the
 current buffer

---
 src/BipsPl/stream_supp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/stream_supp.c b/src/BipsPl/stream_supp.c
index 4a62b69..2f39896 100644
--- a/src/BipsPl/stream_supp.c
+++ b/src/BipsPl/stream_supp.c
@@ -808,7 +808,14 @@ Pl_Set_Stream_Buffering(int stm)
     (*pl_le_hook_set_line_buffering)(pstm->prop.buffering != STREAM_BUFFERING_NONE);
   else
 #endif
-    Pl_Stdio_Set_Buffering(f, pstm->prop.buffering);
+    {				/* do not lose what is in the current buffer */
+      if (pstm->prop.output)
+	fflush(f);
+      else if (fseek(f, 0, SEEK_CUR) != 0 && (pstm->char_count > 0 || !PB_Is_Empty(pstm->pb_char)))
+	return;			/* already read and cannot be re-read */
+
+      Pl_Stdio_Set_Buffering(f, pstm->prop.buffering);
+    }
 }
 
 
-- 
2.43.0


From 93520acc8d6339788fa03504e9bca3e2fd5ae77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 12/78] fix: get/1 and skip/1 loop forever at end-of-file

---
 src/BipsPl/dec10io.pl  |  6 ++++--
 src/BipsPl/dec10io.wam | 31 +++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/BipsPl/dec10io.pl b/src/BipsPl/dec10io.pl
index 8628fba..a1c5e4b 100644
--- a/src/BipsPl/dec10io.pl
+++ b/src/BipsPl/dec10io.pl
@@ -162,7 +162,7 @@ get(X) :-
 	set_bip_name(get, 1),
 	'$check_in_character_code'(X),
 	'$call_c_test'('Pl_Get_Code_1'(X0)),
-	(   X0 =< 32 ->
+	(   X0 =< 32, X0 \== -1 ->         % stop at end-of-file
 	    get(X)
 	;   X = X0
 	).
@@ -177,7 +177,9 @@ skip(X) :-
 	'$check_in_character_code'(X),
 	repeat,
 	'$call_c_test'('Pl_Get_Code_1'(X0)),
-	X0 = X, !.
+	(   X0 = X
+	;   X0 == -1                        % stop at end-of-file
+	), !.
 
 
 
diff --git a/src/BipsPl/dec10io.wam b/src/BipsPl/dec10io.wam
index 23120f0..272dc2b 100644
--- a/src/BipsPl/dec10io.wam
+++ b/src/BipsPl/dec10io.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: dec10io.pl
-% hash: 13d3db2d3c6651c8214114f367c706a25fac9f2c  dec10io.pl
+% hash: 060dc86a54aaec96d0b35de5ef6d187f5a5cea60  dec10io.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/dec10io.pl').
@@ -388,9 +388,11 @@ predicate('$get/1_$aux1'/2,161,static,private,monofile,local,[
     get_current_choice(x(2)),
     try_me_else(1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[=<,2]),
-    math_load_value(x(0),0),
-    put_integer(32,3),
-    call_c('Pl_Blt_Lte',[fast_call,boolean],[x(0),x(3)]),
+    math_load_value(x(0),3),
+    put_integer(32,4),
+    call_c('Pl_Blt_Lte',[fast_call,boolean],[x(3),x(4)]),
+    put_integer(-1,3),
+    call_c('Pl_Blt_Term_Neq',[fast_call,boolean],[x(0),x(3)]),
     cut(x(2)),
     put_value(x(1),0),
     execute(get/1),
@@ -419,13 +421,26 @@ predicate(skip/1,175,static,private,monofile,built_in,[
     call(repeat/0),
     put_variable(x(0),1),
     call_c('Pl_Get_Code_1',[boolean],[x(1)]),
-    get_value(y(0),0),
+    put_value(y(0),1),
+    call('$skip/1_$aux1'/2),
     cut(y(1)),
     deallocate,
     proceed]).
 
 
-predicate('$check_in_character_code'/1,185,static,private,monofile,built_in,[
+predicate('$skip/1_$aux1'/2,175,static,private,monofile,local,[
+    try_me_else(1),
+    get_value(x(1),0),
+    proceed,
+
+label(1),
+    trust_me_else_fail,
+    put_integer(-1,1),
+    call_c('Pl_Blt_Term_Eq',[fast_call,boolean],[x(0),x(1)]),
+    proceed]).
+
+
+predicate('$check_in_character_code'/1,187,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -446,7 +461,7 @@ label(2),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$$check_in_character_code/1_$aux1'/1,188,static,private,monofile,local,[
+predicate('$$check_in_character_code/1_$aux1'/1,190,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -467,7 +482,7 @@ label(1),
     execute('$pl_err_representation'/1)]).
 
 
-predicate(tab/1,200,static,private,monofile,built_in,[
+predicate(tab/1,202,static,private,monofile,built_in,[
     try_me_else(1),
     allocate(1),
     call_c('Pl_Set_Bip_Name_Untagged_2',[],[tab,1]),
-- 
2.43.0


From 589092af906ef2b0e620583122520d6091bc5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 13/78] fix: a retract suspended over retractall/abolish
 corrupts the erased clause list

Erase_All marks the dyn info (ALL_MUST_BE_ERASED). A suspended retract/1 then
deletes one more clause: this overwrote the mark and linked the mark as a clause,
so that the next GC of clauses crashed.
---
 src/BipsPl/dynam_supp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index d5412f1..d8b9822 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -709,6 +709,13 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
 
   MPROBE_PTR("dyn", dyn);
 
+  /*
+   * Same if all clauses are already erased (see Erase_All) while a scan-point
+   * is still active. The mark in first_erased_cl must not be lost.
+   */
+  if (dyn->first_erased_cl == ALL_MUST_BE_ERASED)
+    return;
+
 #if DEBUG_LEVEL >= 1
   Print_Dynamic_Clause("Delete clause", clause);
 #endif
-- 
2.43.0


From 596a16cbfa45fe1b9fa986537d769d2b5cb7664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 14/78] fix: consult of a multifile predicate with many clauses
 frees the clauses it is erasing

Erase_All_Clauses_Of_File followed the chain from a clause that the GC of clauses
(called by Pl_Delete_Dynamic_Clause) may just have freed.
---
 src/BipsPl/dynam_supp.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index d8b9822..beaedf5 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -150,6 +150,8 @@ static void Free_Clause(DynCInf *clause);
 
 static void Unlink_And_Free_Clause(DynCInf *clause);
 
+static void Erase_Clause(DynCInf *clause);
+
 static void Erase_All(DynPInf *dyn);
 
 static void Erase_All_Clauses_Of_File(DynPInf *dyn, int pl_file);
@@ -683,12 +685,12 @@ Unlink_And_Free_Clause(DynCInf *clause)
 
 
 /*-------------------------------------------------------------------------*
- * PL_DELETE_DYNAMIC_CLAUSE                                                *
+ * ERASE_CLAUSE                                                            *
  *                                                                         *
- * This comes down to erase the clause, ie. set it to current erase stamp  *
+ * Erase a clause, ie. set it to current erase stamp (without GC-clause)   *
  *-------------------------------------------------------------------------*/
-void
-Pl_Delete_Dynamic_Clause(DynCInf *clause)
+static void
+Erase_Clause(DynCInf *clause)
 {
   DynPInf *dyn;
 
@@ -740,6 +742,23 @@ Pl_Delete_Dynamic_Clause(DynCInf *clause)
       clause->p_ind_hdr->first_for_scan == clause && clause->ind_chain.next)
       clause->p_ind_hdr->first_for_scan = clause->ind_chain.next;
 #endif
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_DELETE_DYNAMIC_CLAUSE                                                *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+void
+Pl_Delete_Dynamic_Clause(DynCInf *clause)
+{
+#if DEBUG_LEVEL >= 5
+  DynPInf *dyn = clause->dyn;
+#endif
+
+  Erase_Clause(clause);
 
   GC_Clause();
 
@@ -772,7 +791,7 @@ Erase_All_Clauses_Of_File(DynPInf *dyn, int pl_file)
       MPROBE_PTR("clause", clause);
 
       if (clause->pl_file == pl_file)
-	Pl_Delete_Dynamic_Clause(clause);
+	Erase_Clause(clause);	/* no GC now: would free clauses of this chain */
     }
 
   GC_Clause();
-- 
2.43.0


From 0cdd07288fc827cd13b2e82640b5cb840c292a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 15/78] fix: variable goals and non-callable bodies inside
 (*->)/2 given to call/1

---
 src/BipsPl/utils.pl  |  5 +++++
 src/BipsPl/utils.wam | 52 +++++++++++++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/BipsPl/utils.pl b/src/BipsPl/utils.pl
index 2c9f213..f1fcb28 100644
--- a/src/BipsPl/utils.pl
+++ b/src/BipsPl/utils.pl
@@ -70,6 +70,11 @@
 	'$term_to_goal2'(P, P1),
 	'$term_to_goal2'(Q, Q1).
 
+'$term_to_goal2'((P *-> Q), (P1 *-> Q1)) :-
+	!,
+	'$term_to_goal2'(P, P1),
+	'$term_to_goal2'(Q, Q1).
+
 '$term_to_goal2'((P, Q), (P1, Q1)) :-
 	!,
 	'$term_to_goal2'(P, P1),
diff --git a/src/BipsPl/utils.wam b/src/BipsPl/utils.wam
index 34b5138..086ae9c 100644
--- a/src/BipsPl/utils.wam
+++ b/src/BipsPl/utils.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: utils.pl
-% hash: 01de49572bcd6fe75b31fbf4ef2a1717bd527361  utils.pl
+% hash: c56a23910d46b91b49a5dd76d731f25f1b045987  utils.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/utils.pl').
@@ -67,11 +67,11 @@ predicate('$term_to_goal2'/2,59,static,private,monofile,built_in,[
     execute('$$term_to_goal2/2_$aux1'/3),
 
 label(1),
-    retry_me_else(9),
+    retry_me_else(11),
     switch_on_term(3,fail,fail,fail,2),
 
 label(2),
-    switch_on_structure([((->)/2,4),((',')/2,6),((;)/2,8)]),
+    switch_on_structure([((->)/2,4),((*->)/2,6),((',')/2,8),((;)/2,10)]),
 
 label(3),
     try_me_else(5),
@@ -95,6 +95,24 @@ label(5),
     retry_me_else(7),
 
 label(6),
+    allocate(2),
+    get_structure((*->)/2,0),
+    unify_variable(x(0)),
+    unify_variable(y(0)),
+    get_structure((*->)/2,1),
+    unify_variable(x(1)),
+    unify_variable(y(1)),
+    cut(x(2)),
+    call('$term_to_goal2'/2),
+    put_value(y(0),0),
+    put_value(y(1),1),
+    deallocate,
+    execute('$term_to_goal2'/2),
+
+label(7),
+    retry_me_else(9),
+
+label(8),
     allocate(2),
     get_structure((',')/2,0),
     unify_variable(x(0)),
@@ -109,10 +127,10 @@ label(6),
     deallocate,
     execute('$term_to_goal2'/2),
 
-label(7),
+label(9),
     trust_me_else_fail,
 
-label(8),
+label(10),
     allocate(2),
     get_structure((;)/2,0),
     unify_variable(x(0)),
@@ -127,7 +145,7 @@ label(8),
     deallocate,
     execute('$term_to_goal2'/2),
 
-label(9),
+label(11),
     trust_me_else_fail,
     get_value(x(1),0),
     call_c('Pl_Blt_Callable',[fast_call,boolean],[x(1)]),
@@ -152,7 +170,7 @@ label(1),
     proceed]).
 
 
-predicate('$check_list'/1,93,static,private,monofile,built_in,[
+predicate('$check_list'/1,98,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -173,7 +191,7 @@ label(2),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_list_or_partial_list'/1,106,static,private,monofile,built_in,[
+predicate('$check_list_or_partial_list'/1,111,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -188,7 +206,7 @@ label(1),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_atom_or_atom_list'/1,115,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list'/1,120,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -206,7 +224,7 @@ label(1),
     proceed]).
 
 
-predicate('$check_atom_or_atom_list1'/1,122,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list1'/1,127,static,private,monofile,built_in,[
     try_me_else(1),
     call_c('Pl_Blt_Var',[fast_call,boolean],[x(0)]),
     execute('$pl_err_instantiation'/0),
@@ -242,7 +260,7 @@ label(6),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_atom_or_atom_list2'/1,136,static,private,monofile,built_in,[
+predicate('$check_atom_or_atom_list2'/1,141,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -263,7 +281,7 @@ label(2),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$get_head_and_body'/3,149,static,private,monofile,built_in,[
+predicate('$get_head_and_body'/3,154,static,private,monofile,built_in,[
     pragma_arity(4),
     get_current_choice(x(3)),
     try_me_else(1),
@@ -282,7 +300,7 @@ label(1),
     execute('$check_head'/1)]).
 
 
-predicate('$check_head'/1,159,static,private,monofile,built_in,[
+predicate('$check_head'/1,164,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -295,7 +313,7 @@ label(1),
     execute('$$check_head/1_$aux1'/1)]).
 
 
-predicate('$$check_head/1_$aux1'/1,163,static,private,monofile,local,[
+predicate('$$check_head/1_$aux1'/1,168,static,private,monofile,local,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -310,7 +328,7 @@ label(1),
     execute('$pl_err_type'/2)]).
 
 
-predicate('$check_nonvar'/1,172,static,private,monofile,built_in,[
+predicate('$check_nonvar'/1,177,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -323,7 +341,7 @@ label(1),
     execute('$pl_err_instantiation'/0)]).
 
 
-predicate('$check_ground'/1,181,static,private,monofile,built_in,[
+predicate('$check_ground'/1,186,static,private,monofile,built_in,[
     pragma_arity(2),
     get_current_choice(x(1)),
     try_me_else(1),
@@ -336,6 +354,6 @@ label(1),
     execute('$pl_err_instantiation'/0)]).
 
 
-predicate('$get_pred_indic'/3,190,static,private,monofile,built_in,[
+predicate('$get_pred_indic'/3,195,static,private,monofile,built_in,[
     call_c('Pl_Get_Pred_Indic_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
-- 
2.43.0


From 8e3c7c1335e01a1bd26bf3f4db1e2a57b19b3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 16/78] fix: a cut local to the test of a soft-cut revives the
 else branch

---
 src/EnginePl/wam_inst.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/EnginePl/wam_inst.c b/src/EnginePl/wam_inst.c
index e54c22d..5e636b9 100644
--- a/src/EnginePl/wam_inst.c
+++ b/src/EnginePl/wam_inst.c
@@ -49,6 +49,11 @@
  * Constants                       *
  *---------------------------------*/
 
+#define SOFT_CUT_KILLED            ((CodePtr) Pl_Soft_Cut)
+
+
+
+
 /*---------------------------------*
  * Type Definitions                *
  *---------------------------------*/
@@ -1303,7 +1308,12 @@ Pl_Get_Current_Choice(void)
 void FC
 Pl_Cut(WamWord b_word)
 {
-  Assign_B(From_WamWord_To_B(b_word));
+  WamWord *b = From_WamWord_To_B(b_word);
+
+  while (ALTB(b) == SOFT_CUT_KILLED)	/* unchained by a soft cut: do not revive it */
+    b = BB(b);
+
+  Assign_B(b);
 }
 
 
@@ -1336,6 +1346,7 @@ Pl_Soft_Cut(WamWord b_word)
       if (prev_B == kill_B)	/* found */
 	{
 	  BB(cur_B) = BB(kill_B);
+	  ALTB(kill_B) = SOFT_CUT_KILLED; /* known as the cut level of the test: see Pl_Cut */
 	  break;
 	}
 
-- 
2.43.0


From 6b56df6f36847d3cbacaf218f0f05b850911b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 17/78] fix: setof/3 without free variables unifies the result
 before sorting it

---
 src/BipsPl/all_solut.pl  |  9 +++++----
 src/BipsPl/all_solut.wam | 25 ++++++++++++++-----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index 6ccf423..90873f4 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -90,12 +90,13 @@ bagof(Template, Generator, Instances) :-
 
 '$bagof'(Template, _, Instances, BipFunc, BipArity) :-
 	'$call_c'('Pl_Recover_Generator_1'(Generator)),
-	'$findall'(Template, Generator, Instances, [], BipFunc, BipArity),
-	Instances \== [],
+	'$findall'(Template, Generator, AllInstances, [], BipFunc, BipArity),
+	AllInstances \== [],
 	(   BipFunc = bagof ->
 	    true
-	;   sort(Instances)
-	).
+	;   sort(AllInstances)
+	),
+	Instances = AllInstances.	% after sort/1 (in-place)
 
 
 
diff --git a/src/BipsPl/all_solut.wam b/src/BipsPl/all_solut.wam
index a68d0ed..f4484ad 100644
--- a/src/BipsPl/all_solut.wam
+++ b/src/BipsPl/all_solut.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: all_solut.pl
-% hash: 7d0ee7eaf19ee8e6ecfa0b993f204ab7e8376ae8  all_solut.pl
+% hash: 26051623fa3fd1ecee2e71e221c6480f4f37039b  all_solut.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/all_solut.pl').
@@ -130,23 +130,26 @@ predicate('$bagof'/5,80,static,private,monofile,built_in,[
 
 label(1),
     trust_me_else_fail,
-    allocate(2),
+    allocate(3),
     get_variable(y(0),2),
     get_variable(y(1),3),
     put_variable(x(1),2),
     call_c('Pl_Recover_Generator_1',[],[x(2)]),
     put_value(x(4),5),
-    put_value(y(0),2),
+    put_variable(y(2),2),
     put_nil(3),
     put_value(y(1),4),
     call('$findall'/6),
-    put_value(y(0),0),
+    put_value(y(2),0),
     put_nil(1),
     call_c('Pl_Blt_Term_Neq',[fast_call,boolean],[x(0),x(1)]),
     put_value(y(1),0),
-    put_value(y(0),1),
+    put_value(y(2),1),
+    call('$$bagof/5_$aux2'/2),
+    put_value(y(0),0),
+    get_value(y(2),0),
     deallocate,
-    execute('$$bagof/5_$aux2'/2)]).
+    proceed]).
 
 
 predicate('$$bagof/5_$aux2'/2,91,static,private,monofile,local,[
@@ -178,7 +181,7 @@ label(1),
     execute(sort/1)]).
 
 
-predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
+predicate('$store_solutions'/5,104,static,private,monofile,built_in,[
     get_variable(x(5),3),
     get_variable(x(3),0),
     call_c('Pl_Stop_Mark_1',[],[x(2)]),
@@ -188,7 +191,7 @@ predicate('$store_solutions'/5,103,static,private,monofile,built_in,[
     execute('$$store_solutions/5_$aux1'/4)]).
 
 
-predicate('$$store_solutions/5_$aux1'/4,103,static,private,monofile,local,[
+predicate('$$store_solutions/5_$aux1'/4,104,static,private,monofile,local,[
     try_me_else(1),
     allocate(1),
     get_variable(y(0),3),
@@ -203,17 +206,17 @@ label(1),
     proceed]).
 
 
-predicate('$group_solutions'/3,114,static,private,monofile,built_in,[
+predicate('$group_solutions'/3,115,static,private,monofile,built_in,[
     call_c('Pl_Group_Solutions_3',[boolean],[x(0),x(1),x(2)]),
     proceed]).
 
 
-predicate('$group_solutions_alt'/0,117,static,private,monofile,built_in,[
+predicate('$group_solutions_alt'/0,118,static,private,monofile,built_in,[
     call_c('Pl_Group_Solutions_Alt_0',[boolean],[]),
     proceed]).
 
 
-predicate('$check_list_arg'/3,125,static,private,monofile,built_in,[
+predicate('$check_list_arg'/3,126,static,private,monofile,built_in,[
     call_c('Pl_Set_Bip_Name_2',[],[x(1),x(2)]),
     execute('$check_list_or_partial_list'/1)]).
 
-- 
2.43.0


From da922c0a788a97e510dacecc79f2ba7c981d3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 18/78] fix: solutions of an abandoned findall are picked up by
 an enclosing collection

---
 src/BipsPl/all_solut.pl  |  2 +-
 src/BipsPl/all_solut.wam | 22 +++++++++-------
 src/BipsPl/all_solut_c.c | 57 +++++++++++++++++++++++++++++++---------
 3 files changed, 59 insertions(+), 22 deletions(-)

diff --git a/src/BipsPl/all_solut.pl b/src/BipsPl/all_solut.pl
index 90873f4..daa0668 100644
--- a/src/BipsPl/all_solut.pl
+++ b/src/BipsPl/all_solut.pl
@@ -104,7 +104,7 @@ bagof(Template, Generator, Instances) :-
 '$store_solutions'(Template, Generator, Stop, BipFunc, BipArity) :-
 	'$call_c'('Pl_Stop_Mark_1'(Stop)),
 	(   '$call'(Generator, BipFunc, BipArity, true),
-	    '$call_c'('Pl_Store_Solution_1'(Template)),
+	    '$call_c'('Pl_Store_Solution_2'(Template, Stop)),
 	    fail
 	;   true
 	).
diff --git a/src/BipsPl/all_solut.wam b/src/BipsPl/all_solut.wam
index f4484ad..fbf4d93 100644
--- a/src/BipsPl/all_solut.wam
+++ b/src/BipsPl/all_solut.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: all_solut.pl
-% hash: 26051623fa3fd1ecee2e71e221c6480f4f37039b  all_solut.pl
+% hash: 7fee56f26b861fa234e267ce43f3638bb29e4f4e  all_solut.pl
 
 
 file_name('/home/diaz/GP/src/BipsPl/all_solut.pl').
@@ -182,23 +182,27 @@ label(1),
 
 
 predicate('$store_solutions'/5,104,static,private,monofile,built_in,[
-    get_variable(x(5),3),
+    get_variable(x(5),4),
+    get_variable(x(6),3),
+    get_variable(x(4),2),
     get_variable(x(3),0),
-    call_c('Pl_Stop_Mark_1',[],[x(2)]),
+    call_c('Pl_Stop_Mark_1',[],[x(4)]),
     put_value(x(1),0),
-    put_value(x(5),1),
-    put_value(x(4),2),
-    execute('$$store_solutions/5_$aux1'/4)]).
+    put_value(x(6),1),
+    put_value(x(5),2),
+    execute('$$store_solutions/5_$aux1'/5)]).
 
 
-predicate('$$store_solutions/5_$aux1'/4,104,static,private,monofile,local,[
+predicate('$$store_solutions/5_$aux1'/5,104,static,private,monofile,local,[
     try_me_else(1),
-    allocate(1),
+    allocate(2),
     get_variable(y(0),3),
+    get_variable(y(1),4),
     put_atom(true,3),
     call('$call'/4),
     put_value(y(0),0),
-    call_c('Pl_Store_Solution_1',[],[x(0)]),
+    put_value(y(1),1),
+    call_c('Pl_Store_Solution_2',[],[x(0),x(1)]),
     fail,
 
 label(1),
diff --git a/src/BipsPl/all_solut_c.c b/src/BipsPl/all_solut_c.c
index f8e534e..25bcd37 100644
--- a/src/BipsPl/all_solut_c.c
+++ b/src/BipsPl/all_solut_c.c
@@ -63,7 +63,8 @@ typedef struct onesol *OneSolP;
 typedef struct onesol
 {
   OneSolP prev;
-  int sol_no;
+  PlLong coll_no;		/* collection it belongs to */
+  int sol_no;			/* number in this collection */
   int term_size;
   WamWord term_word;
 }
@@ -87,8 +88,9 @@ static WamWord *free_var_base;
 
 
 
-static OneSol dummy = { NULL, 0, 0, NOT_A_WAM_WORD };
+static OneSol dummy = { NULL, 0, 0, 0, NOT_A_WAM_WORD };
 static OneSol *sol = &dummy;
+static PlLong last_coll_no = 0;
 
 static WamWord *key_var_ptr;
 static WamWord *save_key_var_ptr;
@@ -115,6 +117,10 @@ static Bool Link_Key_Var(WamWord *adr, WamWord var_word);
 
 
 
+static void Remove_Abandoned_Solutions(PlLong coll_no);
+
+
+
 static WamWord Group(WamWord all_sol_word, WamWord gl_key_word, WamWord *key_adr);
 
 
@@ -291,9 +297,11 @@ Free_Var(WamWord *adr, WamWord var_word)
 /*-------------------------------------------------------------------------*
  * This part saves and restores all solutions found. A stack of solutions  *
  * is used (each solution is copied to a Mallocated memory area). To handle*
- * nested findall and al, each solution receive a sequential number. At the*
- * start, the number of the solution on the top of the stack serves as a   *
- * stop mark.                                                              *
+ * nested findall and al, each collection has a number (the stop mark)     *
+ * and each solution records the collection it belongs to. The solutions of*
+ * a collection abandoned by an exception remain on the stack: they are    *
+ * removed as soon as an enclosing collection uses the stack (collections  *
+ * started later have a greater number).                                   *
  *                                                                         *
  * Recovering the solutions: a space for the list of (nb_sol) solutions is *
  * reserved on the top of the heap (nb_sol*2 WamWords) then each term is   *
@@ -344,19 +352,40 @@ Free_Var(WamWord *adr, WamWord var_word)
 void
 Pl_Stop_Mark_1(WamWord stop_word)
 {
-  Pl_Get_Integer(sol->sol_no, stop_word);
+  Pl_Get_Integer(++last_coll_no, stop_word);
 }
 
 
 
 
 /*-------------------------------------------------------------------------*
- * PL_STORE_SOLUTION_1                                                     *
+ * REMOVE_ABANDONED_SOLUTIONS                                              *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Remove_Abandoned_Solutions(PlLong coll_no)
+{
+  OneSol *s;
+
+  while (sol->coll_no > coll_no)
+    {
+      s = sol;
+      sol = sol->prev;
+      Free(s);
+    }
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * PL_STORE_SOLUTION_2                                                     *
  *                                                                         *
  *-------------------------------------------------------------------------*/
 void
-Pl_Store_Solution_1(WamWord term_word)
+Pl_Store_Solution_2(WamWord term_word, WamWord stop_word)
 {
+  PlLong coll_no = Pl_Rd_Integer(stop_word);
   OneSol *s;
   int size;
 /* fix_bug is because when gcc sees &xxx where xxx is a fct argument variable
@@ -364,11 +393,14 @@ Pl_Store_Solution_1(WamWord term_word)
  * This corrupts ebp on ix86 */
   static WamWord fix_bug;
 
+  Remove_Abandoned_Solutions(coll_no);
+
   size = Pl_Term_Size(term_word);
 
   s = (OneSol *) Malloc(sizeof(OneSol) - sizeof(WamWord) + size * sizeof(WamWord));
   s->prev = sol;
-  s->sol_no = sol->sol_no + 1;
+  s->coll_no = coll_no;
+  s->sol_no = (sol->coll_no == coll_no) ? sol->sol_no + 1 : 1;
   s->term_size = size;
   fix_bug = term_word;
   Pl_Copy_Term(&s->term_word, &fix_bug);
@@ -386,14 +418,15 @@ Bool
 Pl_Recover_Solutions_4(WamWord stop_word, WamWord handle_key_word,
 		       WamWord list_word, WamWord tail_word)
 {
-  int stop;
+  PlLong coll_no;
   int nb_sol;
   WamWord *p, *q;
   OneSol *s;
   Bool handle_key;
 
-  stop = Pl_Rd_C_Int(stop_word);
-  nb_sol = sol->sol_no - stop;
+  coll_no = Pl_Rd_Integer(stop_word);
+  Remove_Abandoned_Solutions(coll_no);
+  nb_sol = (sol->coll_no == coll_no) ? sol->sol_no : 0;
 
   if (nb_sol == 0)
     return Pl_Unify(list_word, tail_word);
-- 
2.43.0


From aef90209d4628ce9d63b1147ceb06eca8b1b8bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:39 +0000
Subject: [PATCH 19/78] fix: a backtrackable array assignment over a longer or
 automatic array copies the old elements and overflows

---
 src/BipsPl/g_var_inl_c.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 90c40c2..6f1fe2d 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -693,10 +693,11 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
   if (array_op == G_ARRAY_EXTEND && g_elem->size >= 0)
     array_op = G_ARRAY;
 
-  if (array_op != G_ARRAY_EXTEND && !backtrack)
+  if (array_op != G_ARRAY_EXTEND)
     {
-      G_Free_Element(g_elem, TRUE);
-      g_elem->size = 0;
+      if (!backtrack)
+	G_Free_Element(g_elem, TRUE);
+      g_elem->size = 0;		/* (if backtrack the old value is in the undo record) */
     }
 
   size = -g_elem->size;
-- 
2.43.0


From 4d1b58c04fb44c828494c4008db5fefa6e31164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 20/78] fix: an invalid inner array definition leaves an array
 with uninitialized elements

---
 src/BipsPl/g_var_inl_c.c | 60 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 6f1fe2d..4bed869 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -125,6 +125,8 @@ static void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);
 static void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 			   Bool backtrack, Bool copy);
 
+static void G_Check_Value(WamWord gval_word, PlLong old_size);
+
 static GVarElt *G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack);
 
 static GTarget *Get_Target_From_Gvar(WamWord gvar_word);
@@ -532,7 +534,63 @@ G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy)
       G_Assign_Arg(g_elem, g_arg, gval_word);
     }
   else
-    G_Assign_Element(g_elem, gval_word, backtrack, copy);
+    {
+      G_Check_Value(gval_word, -g_elem->size);
+      G_Assign_Element(g_elem, gval_word, backtrack, copy);
+    }
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * G_CHECK_VALUE                                                           *
+ *                                                                         *
+ * Checks the array definitions of a value before anything is modified (an *
+ * error in an inner definition must not leave a partially built array).   *
+ * old_size is the size of the array to extend if any (else <= 0).         *
+ *-------------------------------------------------------------------------*/
+static void
+G_Check_Value(WamWord gval_word, PlLong old_size)
+{
+  WamWord word, tag_mask;
+  WamWord *stc_adr, *lst_adr;
+  int atom, arity;
+  PlLong size;
+
+  DEREF(gval_word, word, tag_mask);
+
+  if (tag_mask != TAG_STC_MASK)
+    return;
+
+  stc_adr = UnTag_STC(word);
+  atom = Functor(stc_adr);
+  arity = Arity(stc_adr);
+
+  if (atom != atom_g_array && atom != atom_g_array_auto && atom != atom_g_array_extend)
+    return;
+
+  if (atom != atom_g_array_extend)
+    old_size = 0;
+
+  DEREF(Arg(stc_adr, 0), word, tag_mask);
+  if (tag_mask == TAG_INT_MASK && arity <= 2 && UnTag_INT(word) > 0)
+    {
+      if (arity == 2)
+	G_Check_Value(Arg(stc_adr, 1), 0);
+      return;
+    }
+
+  if (tag_mask != TAG_LST_MASK || arity != 1 || (size = Pl_List_Length(word)) <= 0)
+    Pl_Err_Domain(pl_domain_g_array_index, Tag_STC(stc_adr));
+
+  while (size--)
+    {
+      lst_adr = UnTag_LST(word);
+      if (old_size-- <= 0)	/* else not used: existing element */
+	G_Check_Value(Car(lst_adr), 0);
+      DEREF(Cdr(lst_adr), word, tag_mask);
+    }
 }
 
 
-- 
2.43.0


From 4f5aac42710e3ff34eb2c111bdab3260a19b67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 21/78] fix: indirect indices that expand the array being
 accessed corrupt it

---
 src/BipsPl/g_var_inl_c.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 4bed869..8530db2 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -897,7 +897,7 @@ Get_Target_From_Gvar(WamWord gvar_word)
   GVarElt *p;
   PlLong i, j, size;
   int new_size;
-  PlLong index;
+  PlLong index, tbl_index[MAX_ARITY];
   GTarget *gt = &g_target;
 
   arg_adr = Pl_Rd_Callable_Check(gvar_word, &atom, &arity);
@@ -922,17 +922,21 @@ Get_Target_From_Gvar(WamWord gvar_word)
       Pl_Err_Domain(pl_domain_g_array_index, gvar_word);
     }
 
-  for (i = 0; i < arity; i++)
-    {
-      size = g_elem->size;
-
-      word1 = *arg_adr;
+  for (i = 0; i < arity; i++)	/* first evaluate all indices: an indirection */
+    {				/* can expand (move) the array visited below */
+      word1 = *arg_adr++;
       DEREF(word1, word, tag_mask);
 
       if (tag_mask != TAG_INT_MASK) /* follow the indirection */
 	word = *Get_Int_Addr_From_Gvar(word);
 
-      index = UnTag_INT(word);
+      tbl_index[i] = UnTag_INT(word);
+    }
+
+  for (i = 0; i < arity; i++)
+    {
+      size = g_elem->size;
+      index = tbl_index[i];
 
       if (size >= 0 || index < 0)
 	goto error;
@@ -961,7 +965,6 @@ Get_Target_From_Gvar(WamWord gvar_word)
 	}
 
       g_elem = (GVarElt *) (g_elem->val) + index;
-      arg_adr++;
     }
 
   gt->g_elem = g_elem;
@@ -984,8 +987,8 @@ Get_Target_From_Selector(WamWord *stc_adr)
   PlLong arg_no;
   GTarget *gt;
 
+  arg_no = Get_Int_From_Word(Arg(stc_adr, 1)); /* first: can move the target */
   gt = Get_Target_From_Gvar(Arg(stc_adr, 0));
-  arg_no = Get_Int_From_Word(Arg(stc_adr, 1));
   adr = Get_Term_Addr_From_Target(gt);
   if (adr == NULL)		/* an array */
     goto error;
-- 
2.43.0


From 8ae761ed7084919809535118b1333d2e1d5d56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 22/78] fix: g_array_extend with a smaller size corrupts memory

---
 src/BipsPl/g_var_inl_c.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 8530db2..b3d60fe 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -141,6 +141,8 @@ static PlLong Get_Int_From_Gvar(WamWord gvar_word);
 
 static PlLong Get_Int_From_Word(WamWord start_word);
 
+static void G_Invalidate_Undo(GVarElt *g_elem);
+
 static void G_Free_Element(GVarElt *g_elem, Bool reinit_undo);
 
 static void G_Copy_Element(GVarElt *dst_g_elem, GVarElt *src_g_elem);
@@ -760,6 +762,15 @@ G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
 
   size = -g_elem->size;
 
+  if (array_op == G_ARRAY_EXTEND)
+    {
+      if (new_size < size)	/* already longer: nothing to add */
+	{
+	  new_size = size;
+	  same_init_value = TRUE;
+	}
+    }
+
   p = G_Alloc_Array(g_elem, new_size, backtrack);
 
   if (array_op == G_ARRAY_EXTEND)
@@ -1114,6 +1125,23 @@ Get_Int_From_Word(WamWord start_word)
 
 
 
+/*-------------------------------------------------------------------------*
+ * G_INVALIDATE_UNDO                                                       *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+G_Invalidate_Undo(GVarElt *g_elem)
+{
+  GUndo *u;
+
+  for(u = g_elem->undo; u; u = u->next)
+    u->g_elem = NULL;		/* invalidate this entry */
+  g_elem->undo = NULL;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * G_FREE_ELEMENT                                                          *
  *                                                                         *
-- 
2.43.0


From b65092868c81bb6763d6390103d806b51b159230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 23/78] fix: g_assign on an argument of a link corrupts memory,
 and on a shared variable changes its other occurrences

---
 src/BipsPl/g_var_inl_c.c | 83 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 6 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index b3d60fe..1e39f2b 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -120,6 +120,10 @@ static void G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack,
 static void G_Assign_Element(GVarElt *g_elem, WamWord gval_word,
 			     Bool backtrack, Bool copy);
 
+static void G_Link_To_Copy(GVarElt *g_elem);
+
+static void G_Separate_Var(WamWord *adr, WamWord *g_arg, WamWord **new_var);
+
 static void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);
 
 static void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op,
@@ -533,6 +537,13 @@ G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy)
     {
       if (backtrack)
 	Pl_Err_Domain(pl_domain_g_argument_selector, gvar_word);
+
+      if (g_elem->size == 0)	/* a link: do not modify the linked term */
+	{
+	  G_Link_To_Copy(g_elem);
+	  g_arg = Get_Target_From_Gvar(gvar_word)->g_arg;
+	}
+
       G_Assign_Arg(g_elem, g_arg, gval_word);
     }
   else
@@ -672,6 +683,67 @@ G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy)
 
 
 
+/*-------------------------------------------------------------------------*
+ * G_LINK_TO_COPY                                                          *
+ *                                                                         *
+ * Replaces a link by a (non backtrackable) copy of the linked term.       *
+ *-------------------------------------------------------------------------*/
+static void
+G_Link_To_Copy(GVarElt *g_elem)
+{
+  PlLong size = Pl_Term_Size(g_elem->val);
+  WamWord *adr = (WamWord *) Malloc(size * sizeof(WamWord));
+
+  Pl_Copy_Term(adr, &g_elem->val);
+
+  G_Invalidate_Undo(g_elem);
+  g_elem->size = size;
+  g_elem->val = (WamWord) adr;
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * G_SEPARATE_VAR                                                          *
+ *                                                                         *
+ * g_arg is a variable of the copy whose first word is at adr. Makes its   *
+ * other occurrences share another variable (*new_var, initially NULL).    *
+ *-------------------------------------------------------------------------*/
+static void
+G_Separate_Var(WamWord *adr, WamWord *g_arg, WamWord **new_var)
+{
+  WamWord word = *adr;
+  int i;
+
+  switch (Tag_From_Tag_Mask(Tag_Mask_Of(word)))
+    {
+    case REF:
+      if (UnTag_REF(word) == g_arg && adr != g_arg)
+	{
+	  if (*new_var == NULL)
+	    *new_var = adr;
+	  *adr = Tag_REF(*new_var);
+	}
+      break;
+
+    case LST:
+      adr = UnTag_LST(word);
+      G_Separate_Var(&Car(adr), g_arg, new_var);
+      G_Separate_Var(&Cdr(adr), g_arg, new_var);
+      break;
+
+    case STC:
+      adr = UnTag_STC(word);
+      for (i = 0; i < Arity(adr); i++)
+	G_Separate_Var(&Arg(adr, i), g_arg, new_var);
+      break;
+    }
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * G_ASSIGN_ARG                                                            *
  *                                                                         *
@@ -681,16 +753,15 @@ G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
 {
   WamWord *adr;
   PlLong size;
-  GUndo *u;
+  WamWord *new_var = NULL;
+
+  if (*g_arg == Tag_REF(g_arg))
+    G_Separate_Var((WamWord *) g_elem->val, g_arg, &new_var);
 
   if (Pl_Term_Size(*g_arg) == 1 && Pl_Term_Size(word) == 1)
     {
       Pl_Copy_Term(g_arg, &word);
-				/* simulate the G_Free_Element */
-      for(u = g_elem->undo; u; u = u->next)
-	u->g_elem = NULL;	/* invalidate this entry */
-      g_elem->undo = NULL;
-
+      G_Invalidate_Undo(g_elem); /* simulate the G_Free_Element */
       return;
     }
 
-- 
2.43.0


From a336a47e6494a07779cd01f1ba545bd371e661a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 24/78] fix: g_inc and indirect indices through a link: bound
 variables are integers too, linked terms are not modified

---
 src/BipsPl/g_var_inl_c.c | 51 ++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/BipsPl/g_var_inl_c.c b/src/BipsPl/g_var_inl_c.c
index 1e39f2b..64bdd2a 100644
--- a/src/BipsPl/g_var_inl_c.c
+++ b/src/BipsPl/g_var_inl_c.c
@@ -1010,7 +1010,7 @@ Get_Target_From_Gvar(WamWord gvar_word)
       DEREF(word1, word, tag_mask);
 
       if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-	word = *Get_Int_Addr_From_Gvar(word);
+	word = Get_Int_From_Gvar(word);
 
       tbl_index[i] = UnTag_INT(word);
     }
@@ -1140,24 +1140,26 @@ Get_Term_Addr_From_Target(GTarget *gt)
 /*-------------------------------------------------------------------------*
  * GET_INT_ADDR_FROM_GVAR                                                  *
  *                                                                         *
+ * Returns the address of an integer to modify (not inside a linked term). *
  *-------------------------------------------------------------------------*/
 static WamWord *
 Get_Int_Addr_From_Gvar(WamWord gvar_word)
 {
-  GTarget save_g_target = g_target; /* save for cross-recursion */
+  WamWord word = Get_Int_From_Gvar(gvar_word); /* raises the errors if any */
   GTarget *gt = Get_Target_From_Gvar(gvar_word);
-  WamWord *adr = Get_Term_Addr_From_Target(gt);
-
-  g_target = save_g_target;
-				/* should be dereferenced */
-
-  if (adr == NULL)		/* an array */
-    Pl_Err_Type(pl_type_integer, Tag_ATM(atom_g_array));
 
-  if (Tag_Mask_Of(*adr) != TAG_INT_MASK)
-     Pl_Err_Type(pl_type_integer, *adr);
+  if (gt->g_elem->size == 0)	/* a link */
+    {
+      if (gt->g_arg == NULL)
+	gt->g_elem->val = word;
+      else
+	{
+	  G_Link_To_Copy(gt->g_elem);
+	  gt = Get_Target_From_Gvar(gvar_word);
+	}
+    }
 
-  return adr;
+  return Get_Term_Addr_From_Target(gt);
 }
 
 
@@ -1170,7 +1172,22 @@ Get_Int_Addr_From_Gvar(WamWord gvar_word)
 static PlLong
 Get_Int_From_Gvar(WamWord gvar_word)
 {
-  return *Get_Int_Addr_From_Gvar(gvar_word);
+  GTarget save_g_target = g_target; /* save for cross-recursion */
+  GTarget *gt = Get_Target_From_Gvar(gvar_word);
+  WamWord *adr = Get_Term_Addr_From_Target(gt);
+  WamWord word, tag_mask;
+
+  g_target = save_g_target;
+
+  if (adr == NULL)		/* an array */
+    Pl_Err_Type(pl_type_integer, Tag_ATM(atom_g_array));
+
+  DEREF(*adr, word, tag_mask);	/* can be a link to a bound variable */
+
+  if (tag_mask != TAG_INT_MASK)
+     Pl_Err_Type(pl_type_integer, word);
+
+  return word;
 }
 
 
@@ -1188,7 +1205,7 @@ Get_Int_From_Word(WamWord start_word)
   DEREF(start_word, word, tag_mask);
 
   if (tag_mask != TAG_INT_MASK) /* follow the indirection */
-    word = *Get_Int_Addr_From_Gvar(word);
+    word = Get_Int_From_Gvar(word);
 
   return UnTag_INT(word);
 }
@@ -1484,14 +1501,14 @@ G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
     Pl_Check_For_Un_Integer(new_word);
 
 
-  adr = Get_Int_Addr_From_Gvar(gvar_word);
-
-  old = UnTag_INT(*adr);
+  old = UnTag_INT(Get_Int_From_Gvar(gvar_word));
   new = old + inc;
 
   if (old_word != NOT_A_WAM_WORD && !Pl_Get_Integer(old, old_word))
     return FALSE;
 
+  adr = Get_Int_Addr_From_Gvar(gvar_word);
+
   *adr = Tag_INT(new);		/* increment now - cf specif in doc */
 
   if (new_word != NOT_A_WAM_WORD && !Pl_Get_Integer(new, new_word))
-- 
2.43.0


From 9207df0bcd36cf43519d9d20684804c34c1ec899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 25/78] fix: path names that do not fit in MAXPATHLEN overflow
 static buffers

---
 src/EnginePl/os_path.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/EnginePl/os_path.c b/src/EnginePl/os_path.c
index a927eb6..b9ae110 100644
--- a/src/EnginePl/os_path.c
+++ b/src/EnginePl/os_path.c
@@ -464,7 +464,8 @@ Pl_Set_Working_Dir(char *path)
  *                                                                         *
  * del_trail_slash: TRUE: remove ending / (usually wanted behavior)        *
  *                  FALSE: keep it (we can see the user wanted a directory)*
- * returns an absolute file name (in a static buffer: buff1 or buff2).     *
+ * returns an absolute file name (in a static buffer: buff1 or buff2) or   *
+ * NULL if the path is not valid or does not fit in MAXPATHLEN.            *
  *-------------------------------------------------------------------------*/
 #ifdef __GNUC__
 #pragma GCC diagnostic push
@@ -482,14 +483,19 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
   char *dst;
   char *p, *q;
   char c;
+  char *end;
   Bool add_slash = FALSE;
 
 #define SWAP_SRC_DST { char *tmp = src; src = dst; dst = tmp; }
 
+#define CHECK_FITS(cond) if (!(cond)) { errno = ENAMETOOLONG; return NULL; }
+
   /* --- Expand $VARNAME (and %VARNAME% under Windows) --- */
   dst = buff1;
+  end = buff1 + MAXPATHLEN - 1;	/* last position (for the final \0) */
   while ((*dst++ = *src))
     {
+      CHECK_FITS(dst <= end);
       c = *src++;
       if (c == '$'
 #if defined(_WIN32) || defined(__CYGWIN__)
@@ -499,7 +505,10 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
         {
           p = dst;
           while (isalnum(*src) || *src == '_')
-            *dst++ = *src++;
+	    {
+	      CHECK_FITS(dst < end);
+	      *dst++ = *src++;
+	    }
 #if defined(_WIN32) || defined(__CYGWIN__)
           if (c == '%' && *src != '%')
             continue;
@@ -509,6 +518,7 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
           if (q)
             {
               p--;
+	      CHECK_FITS(strlen(q) <= (size_t) (end - p));
               strcpy(p, q);
               dst = p + strlen(p);
 #if defined(_WIN32) || defined(__CYGWIN__)
@@ -518,11 +528,13 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
             }
 #if defined(_WIN32) || defined(__CYGWIN__)
           else if (c == '%')
-            *dst++ = *src++;
+	    {
+	      CHECK_FITS(dst < end);
+	      *dst++ = *src++;
+	    }
 #endif
         }
     }
-  *dst = '\0';
 
   src = buff1;
   dst = buff2;
@@ -546,7 +558,7 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 	      return NULL;
 #endif
 	    }
-          sprintf(dst, "%s%s/%s", q, p, src + 1);
+	  CHECK_FITS(snprintf(dst, MAXPATHLEN, "%s%s/%s", q, p, src + 1) < MAXPATHLEN);
 	  SWAP_SRC_DST;
         }
 #if defined(__unix__) || defined(__CYGWIN__)
@@ -565,7 +577,7 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 
           *p = src[0];
 
-          sprintf(dst, "%s/%s", pw->pw_dir, p);
+	  CHECK_FITS(snprintf(dst, MAXPATHLEN, "%s/%s", pw->pw_dir, p) < MAXPATHLEN);
 	  SWAP_SRC_DST;
         }
 #endif
@@ -587,7 +599,7 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
   p = Msys_Root_Prefix(src);
   if (p != NULL && *p != '\0')
     {
-      sprintf(dst, "%s%s", p, src);
+      CHECK_FITS(snprintf(dst, MAXPATHLEN, "%s%s", p, src) < MAXPATHLEN);
       SWAP_SRC_DST;
     }
 
@@ -610,8 +622,7 @@ Pl_Absolute_Path_Name0(char *path, Bool del_trail_slash)
 
   if (src[0] != '/')      /* add current directory */
     {
-      sprintf(dst, "%s/%.*s", Pl_Get_Working_Dir(),
-	      MAXPATHLEN, src); /* MAXPATHLEN is to avoid gcc warning */
+      CHECK_FITS(snprintf(dst, MAXPATHLEN, "%s/%s", Pl_Get_Working_Dir(), src) < MAXPATHLEN);
       SWAP_SRC_DST;
     }
 
-- 
2.43.0


From 8c8d18f684fc54f0d61187d2aeeeac573f191470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 26/78] fix: decompose_file_name/4 overflows static buffers on
 a long name

---
 src/EnginePl/os_path.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/EnginePl/os_path.c b/src/EnginePl/os_path.c
index b9ae110..7590f10 100644
--- a/src/EnginePl/os_path.c
+++ b/src/EnginePl/os_path.c
@@ -845,10 +845,25 @@ Pl_Is_Absolute_File_Name(char *path)
 char *
 Pl_Decompose_File_Name(char *path, Bool del_trail_slashes, char **base, char **suffix)
 {
-  static char buff_dir[MAXPATHLEN];
-  static char buff_base[MAXPATHLEN];
+  static char *buff_dir = NULL;
+  static char *buff_base = NULL;
+  static size_t buff_size = 0;
   size_t dir_start_pos = 0;	/* on _WIN32 maybe there is a drive specif */
 
+  size_t size = strlen(path) + MAXPATHLEN; /* + room to change the suffix */
+
+  if (size > buff_size)
+    {
+      free(buff_dir);
+      free(buff_base);
+      buff_size = size;
+      if ((buff_dir = malloc(size)) == NULL || (buff_base = malloc(size)) == NULL)
+	{
+	  fprintf(stderr, "Memory allocation fault\n");
+	  exit(1);
+	}
+    }
+
 #if 0 && defined(_WIN32)	/* uncomment to explicitely use _splitpath() on Windows */
 
   char direct[_MAX_DIR];
-- 
2.43.0


From 900d80d14d7f95bfc92d5e9659a9f65c28291513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 27/78] fix: change_directory/1 expands the variables of a path
 name twice

---
 src/BipsPl/os_interf_c.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 431b671..07b21f9 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -309,9 +309,8 @@ Pl_Change_Directory_1(WamWord path_name_word)
 
   path_name = Get_Path_Name(path_name_word);
 
-  errno = -1;
-  if (!Pl_Set_Working_Dir(path_name))
-    Os_Test_Error(-1);
+  Os_Test_Error(chdir(path_name));
+
   return TRUE;
 }
 
-- 
2.43.0


From f078cd8f0567fda772997f58ee183d702549445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 28/78] fix: directory_files/2 returns a part of the files when
 the directory cannot be read completely

---
 src/BipsPl/os_interf_c.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 07b21f9..a44b552 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -337,7 +337,7 @@ Pl_Directory_Files_2(WamWord path_name_word, WamWord list_word)
   dir = opendir(path_name);	/* on windows: see opendir in ../EnginePl/arch_dep.c */
   Os_Test_Error_Null(dir);
 
-  while ((cur_entry = readdir(dir)) != NULL)
+  while (errno = 0, (cur_entry = readdir(dir)) != NULL)
     {
       name = cur_entry->d_name;
       if (!Pl_Get_List(list_word) || !Pl_Unify_Atom(Pl_Create_Allocate_Atom(name)))
@@ -349,6 +349,15 @@ Pl_Directory_Files_2(WamWord path_name_word, WamWord list_word)
       list_word = Pl_Unify_Variable();
     }
 
+  if (errno != 0)
+    {
+      int err_no = errno;
+
+      closedir(dir);
+      errno = err_no;
+      Os_Test_Error(-1);
+    }
+
   res = Pl_Get_Nil(list_word);
 
 finish:
-- 
2.43.0


From e4ea37ac1c1eab954db3b7f0d30990f3c0f418cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 29/78] fix: file_property/2 size is wrong for a file of 2 GB
 or more

---
 src/BipsPl/os_interf_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index a44b552..d04bc5a 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -724,7 +724,7 @@ Pl_File_Prop_Size_2(WamWord size_word, WamWord path_name_word)
 
   Os_Test_Error(stat(path_name, &file_info));
 
-  return Pl_Un_Positive_Check((int) file_info.st_size, size_word);
+  return Pl_Un_Positive_Check((PlLong) file_info.st_size, size_word);
 }
 
 
-- 
2.43.0


From 068f6f25cd889eb6463568a203823021745081ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 30/78] fix: file_permission/2 with an empty list fails on an
 existing file

---
 src/BipsPl/os_interf_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index d04bc5a..7232336 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -586,7 +586,7 @@ Pl_File_Permission_2(WamWord path_name_word, WamWord perm_list_word)
 	}
     }
 
-  return (res == 0) && perm > 0 && ((mode | perm) == mode);
+  return (res == 0) && perm >= 0 && ((mode | perm) == mode);
 }
 
 
-- 
2.43.0


From f536f6e0e9d51fed5ace585a09368926f678a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 31/78] fix: copy_file/2 empties a file copied onto itself, and
 creates an empty file from a directory

---
 src/BipsPl/os_interf_c.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 7232336..6985aa7 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -408,6 +408,10 @@ Pl_Copy_File_2(WamWord path_name1_word, WamWord path_name2_word)
   char *base, *suffix;
   long size_rd;			/* not size_t to test < 0 on error */
   char buff[BUFSIZ];
+  struct stat info1;
+#if defined(__unix__) || defined(__CYGWIN__)
+  struct stat info2;
+#endif
 
   strcpy(path_name1, Get_Path_Name(path_name1_word));
   path_name2 = Get_Path_Name0(path_name2_word, FALSE);
@@ -425,15 +429,41 @@ Pl_Copy_File_2(WamWord path_name1_word, WamWord path_name2_word)
       Os_Test_Error(-1);
     }
 
+  if (fstat(fileno(f_in), &info1) < 0)
+    goto error;
+  if (S_ISDIR(info1.st_mode))
+    {
+      errno = EISDIR;
+      goto error;
+    }
+
   is_dir = Pl_Is_Dir_Name(path_name2, FALSE);
   if (is_dir < 0)
     goto error;
   if (is_dir)
     {
       Pl_Decompose_File_Name(path_name1, FALSE, &base, &suffix);
+      if (strlen(path_name2) + 1 + strlen(base) >= MAXPATHLEN)
+	{
+	  errno = ENAMETOOLONG;
+	  goto error;
+	}
       sprintf(path_name2 + strlen(path_name2), "/%s", base);
     }
 
+#if defined(__unix__) || defined(__CYGWIN__)
+  if (stat(path_name2, &info2) < 0)
+    {
+      if (errno != ENOENT)
+	goto error;
+    }
+  else if (info1.st_dev == info2.st_dev && info1.st_ino == info2.st_ino)
+    {
+      errno = EINVAL;		/* opening it for writing would empty it */
+      goto error;
+    }
+#endif
+
   if ((f_out = fopen(path_name2, "wb")) == NULL)
     goto error;
 
-- 
2.43.0


From f4c236cda64ed9f67fa40fb6baa56dd3bf2f7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 32/78] fix: copy_file/2 succeeds although the source cannot be
 read or the copy cannot be written

---
 src/BipsPl/os_interf_c.c | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 6985aa7..bcbdd1a 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -406,7 +406,8 @@ Pl_Copy_File_2(WamWord path_name1_word, WamWord path_name2_word)
   FILE *f_in = NULL, *f_out = NULL;
   int is_dir;
   char *base, *suffix;
-  long size_rd;			/* not size_t to test < 0 on error */
+  size_t size_rd;
+  int res;
   char buff[BUFSIZ];
   struct stat info1;
 #if defined(__unix__) || defined(__CYGWIN__)
@@ -467,34 +468,19 @@ Pl_Copy_File_2(WamWord path_name1_word, WamWord path_name2_word)
   if ((f_out = fopen(path_name2, "wb")) == NULL)
     goto error;
 
-  while((size_rd = (long) fread(buff, 1, BUFSIZ, f_in)) > 0)
-    {
-      size_t size_left = size_rd;
-      int try_wr = 0;
-      char *p = buff;
-      while(size_left > 0)
-	{
-	  size_t size_wr = fwrite(p, 1, size_left, f_out);
-	  if (size_wr > 0)
-	    {
-	      size_left -= size_wr;
-	      p += size_wr;
-	      continue;
-	    }
-	  
-	  if (size_wr == 0)
-	    errno = EAGAIN;
-
-	  if ((errno != EAGAIN && errno != EINTR) || ++try_wr >= 5)
-	    goto error;
-	}
-    }
+  while((size_rd = fread(buff, 1, BUFSIZ, f_in)) > 0)
+    if (fwrite(buff, 1, size_rd, f_out) != size_rd)
+      goto error;
+
+  if (ferror(f_in))
+    goto error;
 
-  if (size_rd < 0)
+  res = fclose(f_out);		/* can detect a write error */
+  f_out = NULL;
+  if (res != 0)
     goto error;
 
   fclose(f_in);
-  fclose(f_out);
   
   return TRUE;
 }
-- 
2.43.0


From f312609b9012fadf23f1a8f30003b5cd36617fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 33/78] fix: file_property/2 crashes on a file time beyond what
 the calendar represents

---
 src/BipsPl/os_interf_c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index bcbdd1a..4387259 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1571,7 +1571,7 @@ Date_Time_To_Prolog(time_t *t, WamWord date_time_word)
   int day, month, year;
   int hour, minute, second;
 
-  tm = localtime(t);
+  Os_Test_Error_Null(tm = localtime(t));
 
   year = tm->tm_year + 1900;
   month = tm->tm_mon + 1;
-- 
2.43.0


From 70375c5c59ae88679775a07bb5d2c14a47460679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 34/78] fix: sleep/1 returns early when interrupted or for more
 than about 4294 seconds

---
 src/BipsPl/os_interf_c.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 4387259..92e21fd 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -951,14 +951,22 @@ Pl_Sleep_1(WamWord seconds_word)
 
   Sleep((DWORD) ms);
 #else
-  PlLong us;
+  double seconds;
+  struct timespec delay;
 
-  us = (PlLong) (Pl_Rd_Number_Check(seconds_word) * 1000000);
+  seconds = Pl_Rd_Number_Check(seconds_word);
 
-  if (us < 0)
+  if (seconds < 0)
     Pl_Err_Domain(pl_domain_not_less_than_zero, seconds_word);
 
-  usleep(us);
+  if (seconds > 2147483647)	/* fits any time_t */
+    seconds = 2147483647;
+
+  delay.tv_sec = (time_t) seconds;
+  delay.tv_nsec = (long) ((seconds - delay.tv_sec) * 1e9);
+
+  while (nanosleep(&delay, &delay) < 0 && errno == EINTR)	/* sleep the rest */
+    ;
 #endif
 }
 
-- 
2.43.0


From 848bf59ca209c4ea55daab9a383fe0f094e9bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 35/78] fix: the status of a child is wrong when waiting for it
 is interrupted

---
 src/EnginePl/os_spawn.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 564d656..267e4d1 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -557,8 +557,9 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
   /* in the parent */
   if (detach)
     {
-      if (waitpid(pid, &status, 0) < 0)	/* wait child termination */
-	goto err;
+      while (waitpid(pid, &status, 0) < 0)	/* wait child termination */
+	if (errno != EINTR)
+	  goto err;
       pid = 0;
     }
 
@@ -759,8 +760,9 @@ Pl_Get_Status(int pid)
 
 #if defined(__unix__) || defined(__CYGWIN__)
 
-  if (waitpid(pid, &status, 0) < 0)
-    return -1;
+  while (waitpid(pid, &status, 0) < 0)
+    if (errno != EINTR)
+      return -1;
 
   if (WIFEXITED(status))
     {
-- 
2.43.0


From aeb154d2441933915ae009e03348d562961a84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 36/78] fix: a child that cannot run its command goes on as a
 second Prolog or flushes the buffers of its parent

---
 src/EnginePl/os_spawn.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 267e4d1..4bf8ee3 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -335,7 +335,7 @@ Pl_Spawn(char *arg[])
   if (pid == 0)			/* child process */
     {
       execvp(arg[0], arg);	/* only returns on error */
-      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
+      _exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
     }
 
   return Pl_Get_Status(pid);
@@ -529,12 +529,12 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 		  if ((fd_for_me != i &&
 		       (dup2(fd_for_me, i) == -1 || !Safe_Close(fd_for_me)))
 		      || !Safe_Close(fd_unused))
-		    goto err;
+		    _exit(127);
 		}
 	      else		/* here if redirect err on out */
 		{
 		  if (dup2(1, 2) == -1) 
-		    goto err;
+		    _exit(127);
 		}
 	    }
 	}
@@ -551,7 +551,7 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
       system(buff);
 #endif	
 #endif
-      exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
+      _exit((errno == ENOENT || errno == ENOTDIR) ? 126 : 127);
     }
 
   /* in the parent */
-- 
2.43.0


From 2a6f92b17582c6a530c9136bd7f278514aa1ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 37/78] fix: exec/5 connects a child to the wrong stream when
 given standard streams in another order

---
 src/EnginePl/os_spawn.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 4bf8ee3..6fcdb79 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -516,6 +516,16 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 	  exit(0);    /* terminate child (only remains parent and grandchild) */
       }
 #endif
+      for(i = 0; i < 3; i++) /* a fd to install must not be overwritten before */
+	{
+	  if (file3[i] && (i != 2 || !merge_out_err))
+	    {
+	      fd = pipe3[i][i != 0];
+	      if (fd < 3 && fd != i &&
+		  (pipe3[i][i != 0] = fcntl(fd, F_DUPFD, 3)) == -1)
+		_exit(127);
+	    }
+	}
       for(i = 0; i < 3; i++)
 	{
 	  if (file3[i])
-- 
2.43.0


From 3a721922f4ad602a203d1492407cdd135aef71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 38/78] fix: exec/5 leaves descriptors and a child behind when
 it fails

---
 src/EnginePl/os_spawn.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 6fcdb79..75ae58f 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -465,14 +465,15 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 #if defined(__unix__) || defined(__CYGWIN__)
 
   TypeFD pipe3[3][2];
+  FILE *f_new[3] = { NULL, NULL, NULL };
   TypeFD fd;
   int pid, status;
-  int i;
+  int i, nb_init, save_errno;
 
   if (arg[1] == (char *) 1)
     arg = Pl_Cmd_Line_To_Argv(arg[0], NULL);
 
-  for(i = 0; i < 3; i++)
+  for(nb_init = i = 0; i < 3; i++, nb_init = i)
     {
       if (file3[i] && (i != 2 || !merge_out_err))
 	{
@@ -480,6 +481,11 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 	    {
 	      if (pipe(pipe3[i]))
 		goto err;
+
+	      nb_init = i + 1;
+	      f_new[i] = fdopen(pipe3[i][i == 0], (i == 0) ? "wt" : "rt");
+	      if (f_new[i] == NULL)
+		goto err;
 	    }
 	  else
 	    {
@@ -578,19 +584,30 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
       if (file3[i] && *file3[i] == M_SPAWN_REDIRECT_CREATE &&
 	  (i != 2 || !merge_out_err))
 	{
-	  TypeFD fd_for_me = pipe3[i][i == 0];
 	  TypeFD fd_unused = pipe3[i][i != 0];
-	  char *mode = (i == 0) ? "wt" : "rt";
 
-	  if (!Safe_Close(fd_unused) ||
-	      (*file3[i] = fdopen(fd_for_me, mode)) == NULL)
-	    goto err;
+	  Safe_Close(fd_unused);
+	  *file3[i] = f_new[i];
 	}
     }
 
   return pid;			/* NB: if detach: pid = 0 */
 
- err:
+ err:				/* release the pipes created so far */
+  save_errno = errno;
+  for(i = 0; i < nb_init; i++)
+    {
+      if (file3[i] && *file3[i] == M_SPAWN_REDIRECT_CREATE &&
+	  (i != 2 || !merge_out_err))
+	{
+	  Safe_Close(pipe3[i][i != 0]);
+	  if (f_new[i])
+	    fclose(f_new[i]);
+	  else
+	    Safe_Close(pipe3[i][i == 0]);
+	}
+    }
+  errno = save_errno;
   return -1;
 
 #else  /* WINDOWS */
-- 
2.43.0


From 2f25e857c012155481bb49370bdb38069418e0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 39/78] fix: a child process inherits the pipes of the other
 streams, which then never reach end of file

---
 src/BipsPl/os_interf_c.c | 6 ++++++
 src/EnginePl/os_spawn.c  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 92e21fd..2a8766f 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -55,6 +55,7 @@
 #include <fcntl.h>
 #else
 #include <dirent.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <sys/param.h>
 #include <sys/time.h>
@@ -1117,6 +1118,9 @@ Pl_Popen_3(WamWord cmd_word, WamWord mode_word, WamWord stm_word)
   Pl_Flush_All_Streams();
   f = popen(cmd, open_str);
   Os_Test_Error_Null(f);
+#ifndef _WIN32
+  fcntl(fileno(f), F_SETFD, FD_CLOEXEC); /* not for children started later */
+#endif
 
   sprintf(pl_glob_buff, "popen_stream('%.1024s')", cmd);
   atom = Pl_Create_Allocate_Atom(pl_glob_buff);
@@ -1240,6 +1244,8 @@ Pl_Create_Pipe_2(WamWord stm_in_word, WamWord stm_out_word)
   Os_Test_Error(_pipe(p, 4096, O_TEXT));
 #else
   Os_Test_Error(pipe(p));
+  fcntl(p[0], F_SETFD, FD_CLOEXEC); /* not for children started later */
+  fcntl(p[1], F_SETFD, FD_CLOEXEC);
 #endif
 
   Os_Test_Error_Null((f_in = fdopen(p[0], "rt")));
diff --git a/src/EnginePl/os_spawn.c b/src/EnginePl/os_spawn.c
index 75ae58f..07b0f80 100644
--- a/src/EnginePl/os_spawn.c
+++ b/src/EnginePl/os_spawn.c
@@ -483,6 +483,7 @@ Pl_Spawn_Redirect(char *arg[], Bool detach, FILE **f_in, FILE **f_out,
 		goto err;
 
 	      nb_init = i + 1;
+	      fcntl(pipe3[i][i == 0], F_SETFD, FD_CLOEXEC); /* our end */
 	      f_new[i] = fdopen(pipe3[i][i == 0], (i == 0) ? "wt" : "rt");
 	      if (f_new[i] == NULL)
 		goto err;
-- 
2.43.0


From b73f271c66906a4b2a1ffc1c3bca9546cf19c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 40/78] fix: create_pipe/2 leaves descriptors and a stream
 behind when it fails

---
 src/BipsPl/os_interf_c.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 2a8766f..1047253 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1248,14 +1248,25 @@ Pl_Create_Pipe_2(WamWord stm_in_word, WamWord stm_out_word)
   fcntl(p[1], F_SETFD, FD_CLOEXEC);
 #endif
 
-  Os_Test_Error_Null((f_in = fdopen(p[0], "rt")));
+  if ((f_in = fdopen(p[0], "rt")) == NULL)
+    {
+      close(p[0]);
+      close(p[1]);
+      Os_Test_Error_Null(f_in);
+    }
+  if ((f_out = fdopen(p[1], "wt")) == NULL)
+    {
+      fclose(f_in);
+      close(p[1]);
+      Os_Test_Error_Null(f_out);
+    }
+
   sprintf(pl_glob_buff, "pipe_stream_in");
   atom = Pl_Create_Allocate_Atom(pl_glob_buff);
   stm = Pl_Add_Stream_For_Stdio_Desc(f_in, atom, STREAM_MODE_READ, TRUE, FALSE);
   pl_stm_tbl[stm]->prop.eof_action = STREAM_EOF_ACTION_RESET;
   Pl_Get_Integer(stm, stm_in_word);
 
-  Os_Test_Error_Null((f_out = fdopen(p[1], "wt")));
   sprintf(pl_glob_buff, "pipe_stream_out");
   atom = Pl_Create_Allocate_Atom(pl_glob_buff);
   stm = Pl_Add_Stream_For_Stdio_Desc(f_out, atom, STREAM_MODE_WRITE, TRUE, FALSE);
-- 
2.43.0


From de4f942059c160220b736a03d1ab08080cb8dd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 41/78] fix: spawn/3 and exec/5 overflow their buffers for many
 arguments or a long command

---
 src/BipsPl/os_interf_c.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 1047253..cfe11ef 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1034,17 +1034,24 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
   WamWord word, tag_mask;
   WamWord save_list_word;
   WamWord *lst_adr;
-  char *arg[MAX_SPAWN_ARGS];
-  char **p = arg;
-  char err[64];
+  static char **arg = NULL;
+  static int nb_arg = 0;
+  int n = 0;
   int status;
 
   save_list_word = list_word;
 
-  *p++ = Pl_Rd_String_Check(cmd_word);
-
   for (;;)
     {
+      if (n + 2 > nb_arg)
+	{
+	  nb_arg += MAX_SPAWN_ARGS;
+	  arg = (char **) Realloc((char *) arg, nb_arg * sizeof(char *));
+	}
+
+      if (n == 0)
+	arg[n++] = Pl_Rd_String_Check(cmd_word);
+
       DEREF(list_word, word, tag_mask);
 
       if (tag_mask == TAG_REF_MASK)
@@ -1058,12 +1065,12 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
 
       lst_adr = UnTag_LST(word);
 
-      *p++ = Pl_Rd_String_Check(Car(lst_adr));
+      arg[n++] = Pl_Rd_String_Check(Car(lst_adr));
 
       list_word = Cdr(lst_adr);
     }
 
-  *p = NULL;
+  arg[n] = NULL;
   Pl_Check_For_Un_Integer(status_word);
 
   Pl_Flush_All_Streams();
@@ -1073,8 +1080,8 @@ Pl_Spawn_3(WamWord cmd_word, WamWord list_word, WamWord status_word)
     Os_Test_Error(status);
   else if (status == -2)
     {
-      sprintf(err, "error trying to execute %s", arg[0]);
-      Pl_Err_System(Pl_Create_Allocate_Atom(err));
+      sprintf(pl_glob_buff, "error trying to execute %.1024s", arg[0]);
+      Pl_Err_System(Pl_Create_Allocate_Atom(pl_glob_buff));
       return FALSE;
     }
 
@@ -1156,7 +1163,6 @@ Pl_Exec_5(WamWord cmd_word, WamWord sora_in_word, WamWord sora_out_word,
   int pid;
   int mask = (int) SYS_VAR_OPTION_MASK;
   int atom;
-  char err[1024];
   Bool merge_var_out_err = FALSE;
 
   if (stm_err == -2 && stm_out == -2) /* check if both vars are the same (if yes merge out and err) */
@@ -1179,8 +1185,8 @@ Pl_Exec_5(WamWord cmd_word, WamWord sora_in_word, WamWord sora_out_word,
     Os_Test_Error(pid); /* ENOENT is for Windows */
   if (pid < 0)
     {
-      sprintf(err, "error trying to execute %s (maybe not found)", cmd);
-      Pl_Err_System(Pl_Create_Allocate_Atom(err));
+      sprintf(pl_glob_buff, "error trying to execute %.1024s (maybe not found)", cmd);
+      Pl_Err_System(Pl_Create_Allocate_Atom(pl_glob_buff));
       return FALSE;
     }
 
-- 
2.43.0


From 5fdc4e3af92d0351c1924516746e26b12ad87a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 42/78] fix: socket_bind/2 and socket_connect/4 overflow their
 buffers for a long path or host name

---
 src/BipsPl/sockets_c.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/sockets_c.c b/src/BipsPl/sockets_c.c
index 48cbbf0..a435c0e 100644
--- a/src/BipsPl/sockets_c.c
+++ b/src/BipsPl/sockets_c.c
@@ -277,6 +277,12 @@ Pl_Socket_Bind_2(WamWord socket_word, WamWord address_word)
       if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL)
 	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));
 
+      if (strlen(path_name) >= sizeof(adr_un.sun_path))
+	{
+	  errno = ENAMETOOLONG;
+	  Os_Test_Error(-1);
+	}
+
       adr_un.sun_family = AF_UNIX;
       strcpy(adr_un.sun_path, path_name);
       unlink(path_name);
@@ -369,10 +375,16 @@ Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word,
       if ((path_name = Pl_Absolute_Path_Name(path_name)) == NULL)
 	Pl_Err_Domain(pl_domain_os_path, Arg(stc_adr, 0));
 
+      if (strlen(path_name) >= sizeof(adr_un.sun_path))
+	{
+	  errno = ENAMETOOLONG;
+	  Os_Test_Error(-1);
+	}
+
       adr_un.sun_family = AF_UNIX;
       strcpy(adr_un.sun_path, path_name);
       Os_Test_Error(connect(sock, (struct sockaddr *) &adr_un, sizeof(adr_un)));
-      sprintf(stream_name, "socket_stream(connect('AF_UNIX'('%s')),%d)", path_name, sock);
+      snprintf(stream_name, sizeof(stream_name), "socket_stream(connect('AF_UNIX'('%s')),%d)", path_name, sock);
 #ifdef _WIN32
 	  /* Check for in-progress connection */
 	  Os_Test_Error( send(sock, "", 0, 0) );
@@ -396,7 +408,7 @@ Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word,
   memcpy(&adr_in.sin_addr, host_entry->h_addr_list[0], host_entry->h_length);
 
   Os_Test_Error(connect(sock, (struct sockaddr *) &adr_in, sizeof(adr_in)));
-  sprintf(stream_name, "socket_stream(connect('AF_INET'('%s',%d)),%d)",
+  snprintf(stream_name, sizeof(stream_name), "socket_stream(connect('AF_INET'('%s',%d)),%d)",
 	  host_name, port, sock);
 
 #ifdef SUPPORT_AF_UNIX
-- 
2.43.0


From fb69e62afca0e37e4d34b46338642f880a69447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 43/78] fix: socket_bind/2 and socket_connect/4 use another
 port when the given one is out of range

---
 src/BipsPl/sockets_c.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/sockets_c.c b/src/BipsPl/sockets_c.c
index a435c0e..49fdfc0 100644
--- a/src/BipsPl/sockets_c.c
+++ b/src/BipsPl/sockets_c.c
@@ -309,7 +309,11 @@ Pl_Socket_Bind_2(WamWord socket_word, WamWord address_word)
   port = 0;
   DEREF(Arg(stc_adr, 1), word, tag_mask);
   if (tag_mask != TAG_REF_MASK)
-    port = Pl_Rd_C_Int_Check(word);
+    {
+      port = Pl_Rd_C_Int_Check(word);
+      if (port < 0 || port > 65535)
+	Pl_Err_Domain(pl_domain_socket_address, address_word);
+    }
 
   adr_in.sin_port = htons((unsigned short) port);
   adr_in.sin_family = AF_INET;
@@ -398,6 +402,8 @@ Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word,
   /* case AF_INET */
   host_name = Pl_Rd_String_Check(Arg(stc_adr, 0));
   port = Pl_Rd_C_Int_Check(Arg(stc_adr, 1));
+  if (port < 0 || port > 65535)
+    Pl_Err_Domain(pl_domain_socket_address, address_word);
 
   host_entry = gethostbyname(host_name);
   if (host_entry == NULL)
-- 
2.43.0


From a6e65d7d334b5bbf9fc13bd7276272f118af0588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 44/78] fix: socket/2, socket_accept/3,4 and socket_connect/4
 leave a descriptor behind when they fail

---
 src/BipsPl/sockets_c.c | 70 ++++++++++++++++++++++++++++++++----------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/BipsPl/sockets_c.c b/src/BipsPl/sockets_c.c
index 49fdfc0..1ebb9d0 100644
--- a/src/BipsPl/sockets_c.c
+++ b/src/BipsPl/sockets_c.c
@@ -77,6 +77,12 @@
  * Constants                       *
  *---------------------------------*/
 
+#ifndef _WIN32
+#define Close_Socket(sock)         close(sock)
+#else
+#define Close_Socket(sock)         closesocket(sock)
+#endif
+
 /*---------------------------------*
  * Type Definitions                *
  *---------------------------------*/
@@ -193,7 +199,14 @@ Pl_Socket_2(WamWord domain_word, WamWord socket_word)
    */
 
   opt = 1;  
-  Os_Test_Error(setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, (const void *) &opt, sizeof(opt)));
+  if (setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, (const void *) &opt, sizeof(opt)) < 0)
+    {
+      int save_errno = errno;
+
+      Close_Socket(sock);
+      errno = save_errno;
+      Os_Test_Error(-1);
+    }
 
   return Pl_Get_Integer(sock, socket_word);
 }
@@ -221,11 +234,7 @@ Pl_Socket_Close_1(WamWord socket_word)
       Os_Test_Error(-1);
     }
   else
-#ifndef _WIN32
-    Os_Test_Error(close(sock));
-#else
-    Os_Test_Error(closesocket(sock));
-#endif
+    Os_Test_Error(Close_Socket(sock));
 
   return TRUE;
 }
@@ -421,7 +430,7 @@ Pl_Socket_Connect_4(WamWord socket_word, WamWord address_word,
 create_streams:
 #endif
   if (!Create_Socket_Streams(sock, stream_name, &stm_in, &stm_out))
-    return FALSE;
+    Os_Test_Error(-1);
 
   Pl_Get_Integer(stm_in, stm_in_word);
   Pl_Get_Integer(stm_out, stm_out_word);
@@ -485,7 +494,13 @@ Pl_Socket_Accept_4(WamWord socket_word, WamWord client_word,
   sprintf(stream_name, "socket_stream(accept('%s'),%d)", cli_ip_adr, cli_sock);
 
   if (!Create_Socket_Streams(cli_sock, stream_name, &stm_in, &stm_out))
-    return FALSE;
+    {
+      int save_errno = errno;
+
+      Close_Socket(cli_sock);
+      errno = save_errno;
+      Os_Test_Error(-1);
+    }
 
   Pl_Get_Integer(stm_in, stm_in_word);
   Pl_Get_Integer(stm_out, stm_out_word);
@@ -510,7 +525,7 @@ Pl_Assoc_Socket_Streams_3(WamWord socket_word,
 
   sprintf(stream_name, "socket_stream(assoc(%d))", sock);
   if (!Create_Socket_Streams(sock, stream_name, &stm_in, &stm_out))
-    return FALSE;
+    Os_Test_Error(-1);
 
   Pl_Get_Integer(stm_in, stm_in_word);
   Pl_Get_Integer(stm_out, stm_out_word);
@@ -523,6 +538,7 @@ Pl_Assoc_Socket_Streams_3(WamWord socket_word,
 /*-------------------------------------------------------------------------*
  * CREATE_SOCKET_STREAMS                                                   *
  *                                                                         *
+ * Returns FALSE on error (see errno), the socket then remains open.       *
  *-------------------------------------------------------------------------*/
 static Bool
 Create_Socket_Streams(int sock, char *stream_name, int *stm_in, int *stm_out)
@@ -531,18 +547,38 @@ Create_Socket_Streams(int sock, char *stream_name, int *stm_in, int *stm_out)
   FILE *f_in, *f_out;
   int atom;
   int stm;
-
 #ifdef _WIN32
   int r;
+#else
+  int save_errno;
+#endif
+
+#ifdef _WIN32
 
-  Os_Test_Error((fd = _open_osfhandle(sock, _O_BINARY | _O_RDWR | _O_BINARY)));
-  Os_Test_Error((r = dup(fd)));
-  Os_Test_Error_Null((f_out = fdopen(fd, "w")));
-  Os_Test_Error_Null((f_in = fdopen(r, "r")));
+  if ((fd = _open_osfhandle(sock, _O_BINARY | _O_RDWR | _O_BINARY)) < 0 ||
+      (r = dup(fd)) < 0 ||
+      (f_out = fdopen(fd, "w")) == NULL ||
+      (f_in = fdopen(r, "r")) == NULL)
+    return FALSE;
 #else
-  Os_Test_Error((fd = dup(sock)));
-  Os_Test_Error_Null((f_in = fdopen(sock, "rt")));
-  Os_Test_Error_Null((f_out = fdopen(fd, "wt")));
+  if ((fd = dup(sock)) < 0)
+    return FALSE;
+
+  if ((f_out = fdopen(fd, "wt")) == NULL)
+    {
+      save_errno = errno;
+      close(fd);
+      errno = save_errno;
+      return FALSE;
+    }
+
+  if ((f_in = fdopen(sock, "rt")) == NULL)
+    {
+      save_errno = errno;
+      fclose(f_out);
+      errno = save_errno;
+      return FALSE;
+    }
 #endif
 
   atom = Pl_Create_Allocate_Atom(stream_name);
-- 
2.43.0


From 12b12916a5d87ca350de2c526abd8883d3c2b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 45/78] fix: a child process inherits the sockets, whose peers
 then never see the end of the connection

---
 src/BipsPl/sockets_c.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BipsPl/sockets_c.c b/src/BipsPl/sockets_c.c
index 1ebb9d0..dfe52f7 100644
--- a/src/BipsPl/sockets_c.c
+++ b/src/BipsPl/sockets_c.c
@@ -42,6 +42,7 @@
 #include <errno.h>
 #include <sys/types.h>
 #ifndef _WIN32
+#include <fcntl.h>
 #include <unistd.h>
 #include <sys/socket.h>
 #else
@@ -190,6 +191,7 @@ Pl_Socket_2(WamWord domain_word, WamWord socket_word)
   SetHandleInformation((HANDLE) sock, HANDLE_FLAG_INHERIT, 0);
 #else
   Os_Test_Error(sock);
+  fcntl(sock, F_SETFD, FD_CLOEXEC); /* not for child processes */
 #endif
 
   /*
@@ -482,6 +484,9 @@ Pl_Socket_Accept_4(WamWord socket_word, WamWord client_word,
   cli_sock = (int) accept(sock, (struct sockaddr *) &adr_in, &l);
 
   Os_Test_Error(cli_sock);
+#ifndef _WIN32
+  fcntl(cli_sock, F_SETFD, FD_CLOEXEC); /* not for child processes */
+#endif
 
   if (adr_in.sin_family == AF_INET)
     {
@@ -563,6 +568,7 @@ Create_Socket_Streams(int sock, char *stream_name, int *stm_in, int *stm_out)
 #else
   if ((fd = dup(sock)) < 0)
     return FALSE;
+  fcntl(fd, F_SETFD, FD_CLOEXEC); /* not for child processes */
 
   if ((f_out = fdopen(fd, "wt")) == NULL)
     {
-- 
2.43.0


From db882ebf612fad48b3efc6c12db25c2bdc27d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 46/78] fix: select/5 raises an error or returns too early when
 the time-out is huge

---
 src/BipsPl/os_interf_c.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index cfe11ef..36ec744 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -81,6 +81,8 @@
 #define MAX_SIGNALS                255
 #define MAX_SPAWN_ARGS             1024
 
+#define SELECT_MAX_TIME_OUT        1e15	/* in ms: 30000 years (else overflows) */
+
 
 
 
@@ -1343,10 +1345,12 @@ Pl_Select_5(WamWord reads_word, WamWord ready_reads_word,
 
 
   time_out = Pl_Rd_Number_Check(time_out_word);
-  if (time_out <= 0)
+  if (!(time_out > 0))
     p = NULL;
   else
     {
+      if (time_out > SELECT_MAX_TIME_OUT)
+	time_out = SELECT_MAX_TIME_OUT;
       t.tv_sec = (long) (time_out / 1000);
       t.tv_usec = (long) (fmod(time_out, 1000) * 1000);
       p = &t;
-- 
2.43.0


From edfdaab7c66c44e5b45c91ae3dbc4ed99fbd8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 47/78] fix: select/5 raises an error when it is interrupted by
 a signal

---
 src/BipsPl/os_interf_c.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 36ec744..e6ae4da 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1357,7 +1357,10 @@ Pl_Select_5(WamWord reads_word, WamWord ready_reads_word,
     }
 
 
-  Os_Test_Error(select(max + 1, &read_set, &write_set, NULL, p));
+  do
+    n = select(max + 1, &read_set, &write_set, NULL, p);
+  while (n < 0 && errno == EINTR);	/* go on (for the rest of the time) */
+  Os_Test_Error(n);
 
 
   return Select_Init_Ready_List(reads_word, &read_set, ready_reads_word) &&
-- 
2.43.0


From 58dec0a77ab59212f19d898d7742dd43d5de3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 48/78] fix: select/5 goes on with a part of the list when a
 descriptor is too big (os_error flag not set to error)

---
 src/BipsPl/os_interf_c.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index e6ae4da..1348493 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -1336,8 +1336,14 @@ Pl_Select_5(WamWord reads_word, WamWord ready_reads_word,
   int max, n;
 
   max = Select_Init_Set(reads_word, &read_set, STREAM_CHECK_INPUT);
+  if (max < 0)
+    return FALSE;
+
   Pl_Check_For_Un_List(ready_reads_word);
   n = Select_Init_Set(writes_word, &write_set, STREAM_CHECK_OUTPUT);
+  if (n < 0)
+    return FALSE;
+
   if (n > max)
     max = n;
 
@@ -1417,8 +1423,8 @@ Select_Init_Set(WamWord list_word, fd_set *set, int check)
 #if !defined(_WIN32) && defined(FD_SETSIZE)	/* not true on Windows */
       if (fd >= FD_SETSIZE)
 	{
-	  errno = EBADF;
-	  Os_Test_Error(-1);
+	  Pl_Os_Error(EBADF);
+	  return -1;
 	}
 #endif
 
-- 
2.43.0


From 58e5eac9f2794e92a1f7c436b5143128ef61c452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 49/78] fix: select/5 does not report a stream which has a
 character pushed back by a peek or an unget

---
 src/BipsPl/os_interf_c.c | 53 +++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/BipsPl/os_interf_c.c b/src/BipsPl/os_interf_c.c
index 1348493..801c343 100644
--- a/src/BipsPl/os_interf_c.c
+++ b/src/BipsPl/os_interf_c.c
@@ -136,10 +136,13 @@ static char *Get_Path_Name0(WamWord path_name_word, Bool del_trail_slash);
 
 static Bool Date_Time_To_Prolog(time_t *t, WamWord date_time_word);
 
-static int Select_Init_Set(WamWord list_word, fd_set *set, int check);
+static int Select_Init_Set(WamWord list_word, fd_set *set, int check,
+			   Bool *pushed_back);
 
 static Bool Select_Init_Ready_List(WamWord list_word, fd_set *set,
-				   WamWord ready_list_word);
+				   WamWord ready_list_word, Bool reads);
+
+static Bool Has_Pushed_Back_Char(WamWord word);
 
 
 
@@ -1334,13 +1337,14 @@ Pl_Select_5(WamWord reads_word, WamWord ready_reads_word,
   struct timeval *p, t;
   fd_set read_set, write_set;
   int max, n;
+  Bool pushed_back = FALSE;
 
-  max = Select_Init_Set(reads_word, &read_set, STREAM_CHECK_INPUT);
+  max = Select_Init_Set(reads_word, &read_set, STREAM_CHECK_INPUT, &pushed_back);
   if (max < 0)
     return FALSE;
 
   Pl_Check_For_Un_List(ready_reads_word);
-  n = Select_Init_Set(writes_word, &write_set, STREAM_CHECK_OUTPUT);
+  n = Select_Init_Set(writes_word, &write_set, STREAM_CHECK_OUTPUT, NULL);
   if (n < 0)
     return FALSE;
 
@@ -1362,6 +1366,11 @@ Pl_Select_5(WamWord reads_word, WamWord ready_reads_word,
       p = &t;
     }
 
+  if (pushed_back)		/* a stream is ready: do not wait */
+    {
+      t.tv_sec = t.tv_usec = 0;
+      p = &t;
+    }
 
   do
     n = select(max + 1, &read_set, &write_set, NULL, p);
@@ -1369,8 +1378,8 @@ Pl_Select_5(WamWord reads_word, WamWord ready_reads_word,
   Os_Test_Error(n);
 
 
-  return Select_Init_Ready_List(reads_word, &read_set, ready_reads_word) &&
-    Select_Init_Ready_List(writes_word, &write_set, ready_writes_word);
+  return Select_Init_Ready_List(reads_word, &read_set, ready_reads_word, TRUE) &&
+    Select_Init_Ready_List(writes_word, &write_set, ready_writes_word, FALSE);
 
 #endif
 }
@@ -1383,7 +1392,7 @@ Pl_Select_5(WamWord reads_word, WamWord ready_reads_word,
  *                                                                         *
  *-------------------------------------------------------------------------*/
 static int
-Select_Init_Set(WamWord list_word, fd_set *set, int check)
+Select_Init_Set(WamWord list_word, fd_set *set, int check, Bool *pushed_back)
 {
   WamWord word, tag_mask;
   WamWord save_list_word;
@@ -1418,6 +1427,9 @@ Select_Init_Set(WamWord list_word, fd_set *set, int check)
 	  fd = Pl_Io_Fileno_Of_Stream(stm);
 	  if (fd < 0)
 	    Pl_Err_Domain(pl_domain_selectable_item, word);
+
+	  if (pushed_back && Has_Pushed_Back_Char(word))
+	    *pushed_back = TRUE;
 	}
 
 #if !defined(_WIN32) && defined(FD_SETSIZE)	/* not true on Windows */
@@ -1440,12 +1452,35 @@ Select_Init_Set(WamWord list_word, fd_set *set, int check)
 
 
 
+/*-------------------------------------------------------------------------*
+ * HAS_PUSHED_BACK_CHAR                                                    *
+ *                                                                         *
+ * A stream with a character pushed back (by a peek or an unget) is ready. *
+ *-------------------------------------------------------------------------*/
+static Bool
+Has_Pushed_Back_Char(WamWord word)
+{
+  WamWord tag_mask;
+  int stm;
+
+  DEREF(word, word, tag_mask);
+  if (tag_mask == TAG_INT_MASK)
+    return FALSE;
+
+  stm = Pl_Get_Stream_Or_Alias(word, STREAM_CHECK_VALID);
+  return stm >= 0 && !PB_Is_Empty(pl_stm_tbl[stm]->pb_char);
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * SELECT_INIT_READY_LIST                                                  *
  *                                                                         *
  *-------------------------------------------------------------------------*/
 static Bool
-Select_Init_Ready_List(WamWord list_word, fd_set *set, WamWord ready_list_word)
+Select_Init_Ready_List(WamWord list_word, fd_set *set, WamWord ready_list_word,
+		       Bool reads)
 {
   WamWord word, tag_mask;
   WamWord *lst_adr;
@@ -1469,7 +1504,7 @@ Select_Init_Ready_List(WamWord list_word, fd_set *set, WamWord ready_list_word)
 	  fd = (stm < 0) ? -1 : Pl_Io_Fileno_Of_Stream(stm);
 	}
 
-      if (FD_ISSET(fd, set))
+      if (FD_ISSET(fd, set) || (reads && Has_Pushed_Back_Char(word)))
 	{
 	  if (!Pl_Get_List(ready_list_word) || !Pl_Unify_Value(word))
 	    return FALSE;
-- 
2.43.0


From 8f5522b70bac979b6b03a78bf408d552a46ce99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 50/78] fix: randomize/0 sets seeds that set_seed/1 refuses

---
 src/EnginePl/machine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EnginePl/machine.c b/src/EnginePl/machine.c
index 32fd883..bfdcdde 100644
--- a/src/EnginePl/machine.c
+++ b/src/EnginePl/machine.c
@@ -44,6 +44,7 @@
 #include <fcntl.h>
 #include <ctype.h>
 #include <string.h>
+#include <limits.h>
 #include <time.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -307,7 +308,7 @@ Pl_Randomize(void)
   seed ^= seed >> 16;
 #endif
   
-  seed %= INT_GREATEST_VALUE;
+  seed %= INT_MAX;		/* a seed accepted by set_seed/1 */
   
   Pl_Set_Seed(seed);
 }
-- 
2.43.0


From f806e2c1075d3dde00e58980459fdec80c4bdfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 51/78] fix: random/3 returns an integer for floating point
 bounds, and an integer out of the range for big integers

---
 src/BipsPl/random_c.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/random_c.c b/src/BipsPl/random_c.c
index ced6f99..c3a11cb 100644
--- a/src/BipsPl/random_c.c
+++ b/src/BipsPl/random_c.c
@@ -109,6 +109,8 @@ Pl_Random_1(WamWord n_word)
 Bool
 Pl_Random_3(WamWord l_word, WamWord u_word, WamWord n_word)
 {
+  WamWord word, tag_mask;
+  Bool is_int;
   double l, u;
   PlLong l1, u1;
   PlLong i;
@@ -119,13 +121,18 @@ Pl_Random_3(WamWord l_word, WamWord u_word, WamWord n_word)
   u = Pl_Rd_Number_Check(u_word);
   Pl_Check_For_Un_Variable(n_word);
 
-  if (l >= u)
-    return FALSE;
+  DEREF(l_word, word, tag_mask);
+  is_int = (tag_mask == TAG_INT_MASK);
+  l1 = (is_int) ? UnTag_INT(word) : 0;
+
+  DEREF(u_word, word, tag_mask);
+  is_int = is_int && (tag_mask == TAG_INT_MASK);
+  u1 = (is_int) ? UnTag_INT(word) : 0;
 
-  l1 = (PlLong) l;
-  u1 = (PlLong) u;
+  if (is_int ? l1 >= u1 : l >= u)
+    return FALSE;
 
-  if (l1 == l && u1 == u)
+  if (is_int)
     {
       i = l1 + Pl_Random_Integer(u1 - l1);
       Pl_Get_Integer(i, n_word);
-- 
2.43.0


From 0dcf011806e014a3b1c2c5b79a9678469343f97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 52/78] fix: random/3 returns its upper bound (rounding) or inf
 (overflow)

---
 src/BipsPl/random_c.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BipsPl/random_c.c b/src/BipsPl/random_c.c
index c3a11cb..cb0ec59 100644
--- a/src/BipsPl/random_c.c
+++ b/src/BipsPl/random_c.c
@@ -37,6 +37,8 @@
 
 #include "gp_config.h"
 
+#include <float.h>
+
 #include "engine_pl.h"
 #include "bips_pl.h"
 
@@ -139,7 +141,12 @@ Pl_Random_3(WamWord l_word, WamWord u_word, WamWord n_word)
     }
   else
     {
-      d = l + Pl_Random_Float(u - l);
+      do
+	if (u - l <= DBL_MAX)
+	  d = l + (u - l) * Pl_Random_Float(1.0);
+	else			/* u - l overflows */
+	  d = 2 * (l / 2 + (u / 2 - l / 2) * Pl_Random_Float(1.0));
+      while (d >= u && u <= DBL_MAX);	/* due to the rounding */
       Pl_Get_Float(d, n_word);
     }
 
-- 
2.43.0


From 6fa479cc01e7941a03f19dbd871abf0e675d624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:58 +0000
Subject: [PATCH 53/78] fix: ending an unrecoverable query nested in a
 recoverable one removes the choice point of the latter

---
 src/BipsPl/foreign_supp.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index d2c77bb..1defb2e 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -72,6 +72,7 @@ static PlFIOArg fio_arg_array[NB_OF_X_REGS];
 
 
 static WamWord *query_stack[QUERY_STACK_SIZE];
+static Bool query_recoverable[QUERY_STACK_SIZE];	/* has the query its own recover chc-point ? */
 static WamWord **query_stack_top = query_stack;
 static WamWord *goal_H;
 
@@ -87,6 +88,8 @@ WamWord pl_query_exception;		/* overwrite var of throw_c.c */
 
 static CodePtr Prepare_Call(int func, int arity, WamWord *arg_adr);
 
+static void Push_Query(void);
+
 
 
 #define CALL_INTERNAL          X1_2463616C6C5F696E7465726E616C
@@ -329,6 +332,27 @@ Pl_Query_Begin(Bool recoverable)
 
 
 
+/*-------------------------------------------------------------------------*
+ * PUSH_QUERY                                                              *
+ *                                                                         *
+ * The query is recoverable if the last choice-point is a recover one which*
+ * is not the one of the enclosing query (an unrecoverable query nested in *
+ * a recoverable one has the same choice-point).                           *
+ *-------------------------------------------------------------------------*/
+static void
+Push_Query(void)
+{
+  query_recoverable[query_stack_top - query_stack] =
+    ALTB(B) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0) &&
+    (query_stack_top == query_stack || query_stack_top[-1] != B);
+
+  *query_stack_top++ = pl_query_top_b = B;
+  pl_query_exception = pl_atom_void;
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_QUERY_CALL                                                           *
  *                                                                         *
@@ -336,8 +360,7 @@ Pl_Query_Begin(Bool recoverable)
 int
 Pl_Query_Call(int func, int arity, WamWord *arg_adr)
 {
-  *query_stack_top++ = pl_query_top_b = B;
-  pl_query_exception = pl_atom_void;
+  Push_Query();
 
   return Pl_Call_Prolog(Prepare_Call(func, arity, arg_adr));
 }
@@ -354,8 +377,7 @@ Pl_Query_Call(int func, int arity, WamWord *arg_adr)
 int
 Pl_Query_Call_Native(CodePtr codep)
 {
-  *query_stack_top++ = pl_query_top_b = B;
-  pl_query_exception = pl_atom_void;
+  Push_Query();
 
   return Pl_Call_Prolog(codep);
 }
@@ -426,7 +448,7 @@ Pl_Query_End(int op)
   pl_query_top_b = (query_stack_top == query_stack) ? NULL :
     query_stack_top[-1];
 
-  recoverable = (ALTB(query_b) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0));
+  recoverable = query_recoverable[query_stack_top - query_stack];
   prev_b = BB(query_b);
 
   switch (op)
-- 
2.43.0


From 24c79e5fdb78ae65c5e693e7195277f46df84196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 54/78] fix: a query left open by an error stays on the query
 stack (catch/3 of the enclosing query no longer catches)

---
 src/BipsPl/foreign_supp.c | 21 +++++++++------------
 src/BipsPl/throw_c.c      |  1 -
 src/EnginePl/engine.c     | 11 ++++++++++-
 src/EnginePl/engine.h     |  6 ++++++
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index 1defb2e..add0309 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -73,10 +73,8 @@ static PlFIOArg fio_arg_array[NB_OF_X_REGS];
 
 static WamWord *query_stack[QUERY_STACK_SIZE];
 static Bool query_recoverable[QUERY_STACK_SIZE];	/* has the query its own recover chc-point ? */
-static WamWord **query_stack_top = query_stack;
 static WamWord *goal_H;
 
-WamWord *pl_query_top_b;		/* overwrite var of throw_c.c */
 WamWord pl_query_exception;		/* overwrite var of throw_c.c */
 
 
@@ -321,7 +319,7 @@ void
 Pl_Query_Begin(Bool recoverable)
 
 {
-  if (query_stack_top - query_stack >= QUERY_STACK_SIZE)
+  if (pl_query_nb >= QUERY_STACK_SIZE)
     Pl_Fatal_Error("too many nested Pl_Query_Start() (max: %d)",
 		   QUERY_STACK_SIZE);
 
@@ -342,11 +340,11 @@ Pl_Query_Begin(Bool recoverable)
 static void
 Push_Query(void)
 {
-  query_recoverable[query_stack_top - query_stack] =
+  query_recoverable[pl_query_nb] =
     ALTB(B) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0) &&
-    (query_stack_top == query_stack || query_stack_top[-1] != B);
+    (pl_query_nb == 0 || query_stack[pl_query_nb - 1] != B);
 
-  *query_stack_top++ = pl_query_top_b = B;
+  query_stack[pl_query_nb++] = pl_query_top_b = B;
   pl_query_exception = pl_atom_void;
 }
 
@@ -420,7 +418,7 @@ Pl_Query_Recover_Alt_0(void)
 int
 Pl_Query_Next_Solution(void)
 {
-  if (query_stack_top == query_stack)
+  if (pl_query_nb == 0)
     Pl_Fatal_Error("Pl_Query_Next_Solution() but no query remaining");
 
   pl_query_exception = pl_atom_void;
@@ -441,14 +439,13 @@ Pl_Query_End(int op)
   Bool recoverable;
 
 
-  if (query_stack_top == query_stack)
+  if (pl_query_nb == 0)
     Pl_Fatal_Error("Pl_Query_End() but no query remaining");
 
-  query_b = *--query_stack_top;
-  pl_query_top_b = (query_stack_top == query_stack) ? NULL :
-    query_stack_top[-1];
+  query_b = query_stack[--pl_query_nb];
+  pl_query_top_b = (pl_query_nb == 0) ? NULL : query_stack[pl_query_nb - 1];
 
-  recoverable = query_recoverable[query_stack_top - query_stack];
+  recoverable = query_recoverable[pl_query_nb];
   prev_b = BB(query_b);
 
   switch (op)
diff --git a/src/BipsPl/throw_c.c b/src/BipsPl/throw_c.c
index 48e4716..bbaaf2a 100644
--- a/src/BipsPl/throw_c.c
+++ b/src/BipsPl/throw_c.c
@@ -55,7 +55,6 @@
  * Global Variables                *
  *---------------------------------*/
 
-WamWord *pl_query_top_b;		/* overwritten by foreign_supp if present */
 WamWord pl_query_exception;	/* overwritten by foreign_supp if present */
 
 
diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index 0c44d96..8e2690d 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -256,6 +256,9 @@ Pl_Reset_Prolog(void)
   STAMP = 0;
   CS = Cstr_Stack;
 
+  pl_query_top_b = NULL;        /* no more query */
+  pl_query_nb = 0;
+
   Pl_Create_Choice_Point(Call_Prolog_Fail, 0);  /* 1st choice point */
 
   Pl_Fd_Reset_Solver();
@@ -449,6 +452,8 @@ Call_Next(CodePtr codep)
   sigjmp_buf *old_jumper = p_jumper;
   sigjmp_buf new_jumper;
   WamWord *old_buff_save = p_buff_save;
+  WamWord *query_top_b = pl_query_top_b;
+  int query_nb = pl_query_nb;
   WamWord buff_save_machine_regs[NB_OF_USED_MACHINE_REGS + 1];  /* +1 if = 0 */
 #if 0
   WamWord buff_save_all_regs[NB_OF_REGS];
@@ -470,7 +475,11 @@ Call_Next(CodePtr codep)
     Pl_Call_Compiled(codep);
 
   if (jmp_val == 3)             /* return with a continuation in jmp_val */
-    Pl_Call_Compiled(cont_jmp);
+    {
+      pl_query_top_b = query_top_b;     /* the C function is left with its open queries */
+      pl_query_nb = query_nb;
+      Pl_Call_Compiled(cont_jmp);
+    }
 
                                 /* normal return */
   p_jumper = old_jumper;
diff --git a/src/EnginePl/engine.h b/src/EnginePl/engine.h
index e8687d1..5cee8dc 100644
--- a/src/EnginePl/engine.h
+++ b/src/EnginePl/engine.h
@@ -90,6 +90,9 @@ char pl_glob_buff[1024 * 1024];
 PlLong *pl_base_fl;		/* overwritten by foreign if present */
 double *pl_base_fd;		/* overwritten by foreign if present */
 
+WamWord *pl_query_top_b;	/* choice point of the current query (see foreign_supp.c) */
+int pl_query_nb;		/* number of open queries (see foreign_supp.c) */
+
 int pl_le_mode;			/* LE_MODE_HOOK if GUI */
 
 #else
@@ -105,6 +108,9 @@ extern char pl_glob_buff[];
 extern PlLong *pl_base_fl;
 extern double *pl_base_fd;
 
+extern WamWord *pl_query_top_b;
+extern int pl_query_nb;
+
 extern int pl_le_mode;
 
 #endif
-- 
2.43.0


From c5589373d7a9e41aaaf384e1b96e713e66a274c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 55/78] fix: arguments, choice buffer and name of a C function
 are lost when it calls Prolog

---
 src/BipsPl/foreign_supp.c | 90 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 87 insertions(+), 3 deletions(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index add0309..a5508ed 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -60,6 +60,19 @@
  * Type Definitions                *
  *---------------------------------*/
 
+typedef struct			/* state of the C function which calls Prolog */
+{
+  WamWord x[NB_OF_X_REGS];	/* its arguments (to unify at exit) */
+  PlLong foreign_long[NB_OF_X_REGS];
+  double foreign_double[NB_OF_X_REGS];
+  PlFIOArg fio_arg[NB_OF_X_REGS];
+  PlLong bkt_counter;		/* its choice-point */
+  char *bkt_buffer;
+  int bip_func;			/* its name (for errors) */
+  int bip_arity;
+}
+CallerInf;
+
 /*---------------------------------*
  * Global Variables                *
  *---------------------------------*/
@@ -88,6 +101,10 @@ static CodePtr Prepare_Call(int func, int arity, WamWord *arg_adr);
 
 static void Push_Query(void);
 
+static void Save_Caller(CallerInf *c);
+
+static void Restore_Caller(CallerInf *c);
+
 
 
 #define CALL_INTERNAL          X1_2463616C6C5F696E7465726E616C
@@ -351,6 +368,51 @@ Push_Query(void)
 
 
 
+/*-------------------------------------------------------------------------*
+ * SAVE_CALLER                                                             *
+ *                                                                         *
+ * What the C function still needs and that other C functions, called by   *
+ * the query, will overwrite.                                              *
+ *-------------------------------------------------------------------------*/
+static void
+Save_Caller(CallerInf *c)
+{
+  memcpy(c->x, &X(0), sizeof(c->x));
+  memcpy(c->foreign_long, pl_foreign_long, sizeof(c->foreign_long));
+  memcpy(c->foreign_double, pl_foreign_double, sizeof(c->foreign_double));
+  memcpy(c->fio_arg, fio_arg_array, sizeof(c->fio_arg));
+
+  c->bkt_counter = pl_foreign_bkt_counter;
+  c->bkt_buffer = pl_foreign_bkt_buffer;
+
+  c->bip_func = Pl_Get_Current_Bip(&c->bip_arity);
+}
+
+
+
+
+/*-------------------------------------------------------------------------*
+ * RESTORE_CALLER                                                          *
+ *                                                                         *
+ *-------------------------------------------------------------------------*/
+static void
+Restore_Caller(CallerInf *c)
+{
+  memcpy(&X(0), c->x, sizeof(c->x));
+  memcpy(pl_foreign_long, c->foreign_long, sizeof(c->foreign_long));
+  memcpy(pl_foreign_double, c->foreign_double, sizeof(c->foreign_double));
+  memcpy(fio_arg_array, c->fio_arg, sizeof(c->fio_arg));
+
+  pl_foreign_bkt_counter = c->bkt_counter;
+  pl_foreign_bkt_buffer = c->bkt_buffer;
+
+  Pl_Set_Bip_Name_Untagged_2(c->bip_func, c->bip_arity);
+  Pl_Unset_C_Bip_Name();
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * PL_QUERY_CALL                                                           *
  *                                                                         *
@@ -358,9 +420,16 @@ Push_Query(void)
 int
 Pl_Query_Call(int func, int arity, WamWord *arg_adr)
 {
+  CallerInf caller;
+  int ret;
+
   Push_Query();
 
-  return Pl_Call_Prolog(Prepare_Call(func, arity, arg_adr));
+  Save_Caller(&caller);
+  ret = Pl_Call_Prolog(Prepare_Call(func, arity, arg_adr));
+  Restore_Caller(&caller);
+
+  return ret;
 }
 
 
@@ -375,9 +444,16 @@ Pl_Query_Call(int func, int arity, WamWord *arg_adr)
 int
 Pl_Query_Call_Native(CodePtr codep)
 {
+  CallerInf caller;
+  int ret;
+
   Push_Query();
 
-  return Pl_Call_Prolog(codep);
+  Save_Caller(&caller);
+  ret = Pl_Call_Prolog(codep);
+  Restore_Caller(&caller);
+
+  return ret;
 }
 
 
@@ -418,11 +494,19 @@ Pl_Query_Recover_Alt_0(void)
 int
 Pl_Query_Next_Solution(void)
 {
+  CallerInf caller;
+  int ret;
+
   if (pl_query_nb == 0)
     Pl_Fatal_Error("Pl_Query_Next_Solution() but no query remaining");
 
   pl_query_exception = pl_atom_void;
-  return Pl_Call_Prolog_Next_Sol(pl_query_top_b);
+
+  Save_Caller(&caller);
+  ret = Pl_Call_Prolog_Next_Sol(pl_query_top_b);
+  Restore_Caller(&caller);
+
+  return ret;
 }
 
 
-- 
2.43.0


From 87242c1ca0eedcc74cfa44b7d03abc873bd582bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 56/78] fix: a ball handled by C is raised again by the failure
 of an enclosing catch/3

---
 src/BipsPl/throw_c.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BipsPl/throw_c.c b/src/BipsPl/throw_c.c
index bbaaf2a..55e6abd 100644
--- a/src/BipsPl/throw_c.c
+++ b/src/BipsPl/throw_c.c
@@ -64,6 +64,8 @@ WamWord pl_query_exception;	/* overwritten by foreign_supp if present */
  * Function Prototypes             *
  *---------------------------------*/
 
+void Pl_Sys_Var_Put_2(WamWord var_word, WamWord term_word);
+
 
 
 
@@ -83,6 +85,9 @@ Pl_Throw_2(WamWord ball_word, WamWord b_word)
 
   if (b <= pl_query_top_b && pl_query_top_b != NULL)
     {
+      /* the ball is given to C: no longer pending for catch/3 (see catch.pl) */
+      Pl_Sys_Var_Put_2(Tag_INT(8), Tag_ATM(Pl_Create_Atom("$no_ball$")));
+
       Assign_B(pl_query_top_b);
       pl_query_exception = ball_word;
       Pl_Exit_With_Exception();
-- 
2.43.0


From bf558fefb97e4f8416a0741195c6841d22bede0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 57/78] fix: keeping the solutions of a nested query rewrites
 the continuations of the caller's environments (and not all those of the
 query)

---
 src/BipsPl/foreign_supp.c |  4 +++-
 src/EnginePl/engine.c     | 24 ++++++++++++++++--------
 src/EnginePl/engine.h     |  2 +-
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index a5508ed..65a289e 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -85,6 +85,7 @@ static PlFIOArg fio_arg_array[NB_OF_X_REGS];
 
 
 static WamWord *query_stack[QUERY_STACK_SIZE];
+static WamWord *query_env[QUERY_STACK_SIZE];	/* environment when the query started */
 static Bool query_recoverable[QUERY_STACK_SIZE];	/* has the query its own recover chc-point ? */
 static WamWord *goal_H;
 
@@ -361,6 +362,7 @@ Push_Query(void)
     ALTB(B) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0) &&
     (pl_query_nb == 0 || query_stack[pl_query_nb - 1] != B);
 
+  query_env[pl_query_nb] = E;
   query_stack[pl_query_nb++] = pl_query_top_b = B;
   pl_query_exception = pl_atom_void;
 }
@@ -556,7 +558,7 @@ Pl_Query_End(int op)
 	      if (BB(b) == query_b)
 		BB(b) = prev_b;
 	}
-      Pl_Keep_Rest_For_Prolog(query_b);
+      Pl_Keep_Rest_For_Prolog(query_b, query_env[pl_query_nb]);
     }
 }
 
diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index 8e2690d..53a9cb8 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -415,21 +415,29 @@ Pl_Call_Prolog_Next_Sol(WamWord *query_b)
  *                                                                         *
  * Update CP in choices points to be used by classical Prolog engine       *
  * (some CPB(b) have been set to Call_Prolog_Success due to Call_Prolog).  *
+ * The same for the environments of the choice points which are newer than *
+ * query_e (the environment when the query started): the others belong to  *
+ * the caller. NB: the oldest environments of a choice point are also those*
+ * of the previous one.                                                    *
  *-------------------------------------------------------------------------*/
 void
-Pl_Keep_Rest_For_Prolog(WamWord *query_b)
+Pl_Keep_Rest_For_Prolog(WamWord *query_b, WamWord *query_e)
 {
-  WamWord *b, *e, *query_e;
+  WamWord *b, *e;
+  WamWord *seen_e = query_e;
 
   for (b = B; b > query_b; b = BB(b))
-    if (CPB(b) == Adjust_CP(Call_Prolog_Success))
-      CPB(b) = CP;
+    {
+      if (CPB(b) == Adjust_CP(Call_Prolog_Success))
+	CPB(b) = CP;
 
-  query_e = EB(query_b);
+      for (e = EB(b); e > query_e && e != seen_e; e = EE(e))
+	if (CPE(e) == Adjust_CP(Call_Prolog_Success))
+	  CPE(e) = CP;
 
-  for (e = EB(B); e > query_e; e = EE(e))
-    if (CPE(e) == Adjust_CP(Call_Prolog_Success))
-      CPE(e) = CP;
+      for (seen_e = EB(b); seen_e > query_e && seen_e > BB(b); seen_e = EE(seen_e))
+	;
+    }
 }
 
 
diff --git a/src/EnginePl/engine.h b/src/EnginePl/engine.h
index 5cee8dc..391f4a8 100644
--- a/src/EnginePl/engine.h
+++ b/src/EnginePl/engine.h
@@ -141,7 +141,7 @@ int Pl_Call_Prolog(CodePtr codep);
 
 int Pl_Call_Prolog_Next_Sol(WamWord *query_b);
 
-void Pl_Keep_Rest_For_Prolog(WamWord *query_b);
+void Pl_Keep_Rest_For_Prolog(WamWord *query_b, WamWord *query_e);
 
 void Pl_Exit_With_Exception(void);
 
-- 
2.43.0


From 9eb01a4e8f46e936e64ff9911d958c44e86e6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:12 +0000
Subject: [PATCH 58/78] fix: a cut in the remaining alternatives of a kept
 query restores its unlinked recover choice point

---
 src/BipsPl/foreign_supp.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index 65a289e..0d1937b 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -521,7 +521,7 @@ Pl_Query_Next_Solution(void)
 void
 Pl_Query_End(int op)
 {
-  WamWord *query_b, *prev_b, *b;
+  WamWord *query_b, *prev_b;
   Bool recoverable;
 
 
@@ -549,15 +549,9 @@ Pl_Query_End(int op)
       break;
 
     default:			/* case PL_KEEP_FOR_PROLOG */
-      if (recoverable)
-	{
-	  if (B == query_b)
-	    Assign_B(prev_b);
-	  else
-	    for (b = B; b > query_b; b = BB(b))	/* unlink recover chc-point */
-	      if (BB(b) == query_b)
-		BB(b) = prev_b;
-	}
+      /* if alternatives remain keep the recover chc-point (they can cut to it) */
+      if (recoverable && B == query_b)
+	Assign_B(prev_b);
       Pl_Keep_Rest_For_Prolog(query_b, query_env[pl_query_nb]);
     }
 }
-- 
2.43.0


From 9f8bab8ca57bd1285ba5cc8bb42a81a35eae5191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 59/78] fix: the goal of a query is overwritten by the next
 query (e.g. in the error term it raised)

---
 src/BipsPl/foreign_supp.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/BipsPl/foreign_supp.c b/src/BipsPl/foreign_supp.c
index 0d1937b..29e1f3a 100644
--- a/src/BipsPl/foreign_supp.c
+++ b/src/BipsPl/foreign_supp.c
@@ -87,7 +87,6 @@ static PlFIOArg fio_arg_array[NB_OF_X_REGS];
 static WamWord *query_stack[QUERY_STACK_SIZE];
 static WamWord *query_env[QUERY_STACK_SIZE];	/* environment when the query started */
 static Bool query_recoverable[QUERY_STACK_SIZE];	/* has the query its own recover chc-point ? */
-static WamWord *goal_H;
 
 WamWord pl_query_exception;		/* overwrite var of throw_c.c */
 
@@ -129,11 +128,6 @@ PL_INITIALIZER(Foreign_Initializer)
 {
   pl_base_fl = pl_foreign_long;	  /* override var of engine.c */
   pl_base_fd = pl_foreign_double; /* override var of engine.c */
-
-  goal_H = H;
-  H = H + MAX_ARITY + 1;
-
-  Pl_Set_Heap_Actual_Start(H);	/* reserve space for meta-call goal */
 }
 
 
@@ -276,11 +270,13 @@ Prepare_Call(int func, int arity, WamWord *arg_adr)
 	A(0) = Tag_ATM(func);
       else
 	{
-	  w = goal_H;
+	  /* on the heap: the goal can remain (e.g. in an error term) */
+	  w = H;
 	  A(0) = Tag_STC(w);
 	  *w++ = Functor_Arity(func, arity);
 	  for (i = 0; i < arity; i++)
 	    *w++ = *arg_adr++;
+	  H = w;
 	}
 
       bip_func = Pl_Get_Current_Bip(&bip_arity);
-- 
2.43.0


From 9cbbb2ea504c8af3a3c5fb43964d72fc47c02ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 60/78] fix: a C function that goes on after a query failed or
 raised returns with the environment of the query

---
 src/EnginePl/engine.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index 53a9cb8..a632e27 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -349,7 +349,7 @@ Pl_Try_Execute_Top_Level(void)
  *                                                                         *
  * Call_Prolog runs the execution of one prolog goal.                      *
  * The current choice point is updated to set ALTB to Call_Prolog_Fail and *
- * CP is set to Call_Prolog_Success. At the end ALTB and CP are restored.  *
+ * CP is set to Call_Prolog_Success. At the end ALTB, CP and E are restored*
  * To ensure that a choice point always exists before invoking Call_Prolog,*
  * Start_Prolog reserve the space for a feint choice point, i.e ALTB can be*
  * safely modified.                                                        *
@@ -364,6 +364,7 @@ Pl_Call_Prolog(CodePtr codep)
 {
   WamWord *query_b = B;
   WamCont save_CP = CP;
+  WamWord *save_E = E;
   WamCont save_ALTB = ALTB(query_b);
   int ret;
 
@@ -374,6 +375,7 @@ Pl_Call_Prolog(CodePtr codep)
   ret = Call_Next(codep);
 
   CP = save_CP;                 /* restore continuation */
+  E = save_E;                   /* and its environment (if failure or exception) */
   ALTB(query_b) = save_ALTB;    /* restore choice point */
 
   return ret;
@@ -392,6 +394,7 @@ int
 Pl_Call_Prolog_Next_Sol(WamWord *query_b)
 {
   WamCont save_CP = CP;
+  WamWord *save_E = E;
   WamCont save_ALTB = ALTB(query_b);
   int ret;
 
@@ -402,6 +405,7 @@ Pl_Call_Prolog_Next_Sol(WamWord *query_b)
   ret = Call_Next(ALTB(B));
 
   CP = save_CP;                 /* restore continuation */
+  E = save_E;                   /* and its environment (if failure or exception) */
   ALTB(query_b) = save_ALTB;    /* restore choice point */
 
   return ret;
-- 
2.43.0


From 3e7da590cca8cf28bbd818bdd720ab8d121e35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 61/78] fix: the environment of a byte-code clause that exited
 but will be re-entered is not seen by the collection of erased clauses

---
 src/BipsPl/bc_supp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/BipsPl/bc_supp.c b/src/BipsPl/bc_supp.c
index e424a30..674c08a 100644
--- a/src/BipsPl/bc_supp.c
+++ b/src/BipsPl/bc_supp.c
@@ -882,8 +882,8 @@ BC_Arg_Func_Arity(WamWord arg_word, int *arity)
  *   - BC_FRAME_BEGIN: executed immediately after ALLOCATE to save CP(E)
  *     and replace CPE(E) with the sentinel.
  *
- *   - BC_FRAME_END: executed immediately before DEALLOCATE to restore
- *     CPE(E).
+ *   - BC_FRAME_END: executed in place of DEALLOCATE. CPE(E) keeps the
+ *     sentinel: a choice point can still need this environment.
  *
  *   - BC_BEFORE_CALL: executed just before a CALL to save the BC
  *     continuation (BC PC + debug_call) and set CP to a native
@@ -960,7 +960,11 @@ do { /* in continuation: restore BC pc, debug_call */	\
   CPE(E)        = (WamCont) BC_Frame_Sentinel
 
 #define BC_FRAME_END					\
-  CPE(E) = (WamCont) Y_SAVE_CPE(E)
+do {							\
+  WamCont save_cpe = (WamCont) Y_SAVE_CPE(E);		\
+  Pl_Deallocate();					\
+  CP = save_cpe;					\
+}  while(0)
 
 #define Is_BC_Frame(e) (CPE(e) == (WamCont) BC_Frame_Sentinel)
 
@@ -1523,7 +1527,6 @@ bc_loop:
 
     case DEALLOCATE:
       BC_FRAME_END;
-      Pl_Deallocate();
       goto bc_loop;
 
     case CALL:
-- 
2.43.0


From e382f2bfefa02d46ab8f4a965de230637b6d41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 62/78] fix: the collection of erased clauses misses
 environments that only an older choice point reaches

---
 src/BipsPl/dynam_supp.c | 39 ++++++++++-----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index beaedf5..4d29ddb 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -1284,7 +1284,7 @@ Pl_Scan_Choice_Point_Pred(WamWord *b, int *arity)
 static void
 GC_Clause(void)
 {
-  WamWord *base, *b, *e, *e_b, *e_b2, *e_top;
+  WamWord *base, *b, *e;
   DynScan *scan;
   DynPInf *dyn, *dyn1, **p_last_dyn;
   DynCInf *clause, *clause1;
@@ -1339,39 +1339,20 @@ GC_Clause(void)
    * if an environment corresponds to a byte-code clause (BC) (thus in use)
    * mark the corresponding dyn scan.
    */
-  b = B;
   e = E;
-  e_b = e_b2 = EB(b);
-  for(;;)
-    {
-      e_top = (e > e_b) ? e : e_b;
-      e_top = (e_b2 > e_top) ? e_b2 : e_top; /* e_top = max(e, e_b, e_b2) */
-      if (e_top <= base)
-	break;
-      
-      clause = Pl_BC_Clause_Environment(e_top);
-#if 0
-      if (clause && e_top != e && Is_Clause_Erased(clause))
+  for (b = B;; b = BB(b))
+    {		    /* environments older than b are reachable from EB(b) */
+      for (; e > b && e > base; e = EE(e))
 	{
-	  printf("OCCURS !!!!!!!!!!!!!!!!!!!!!!! %s/%d\n",
-		 pl_atom_tbl[clause->dyn->func].name, clause->dyn->arity);
+	  clause = Pl_BC_Clause_Environment(e);
+	  if (clause)
+	    MARK_AS_KEEP(clause->dyn);
 	}
-#endif
-      if (clause)
-	MARK_AS_KEEP(clause->dyn);
 
-      if (e_top == e)
-	e = EE(e);
-      
-      if (e_top == e_b2)
-	e_b2 = EE(e_b2);
+      if (b <= base)
+	break;
 
-      if (e_top == e_b)
-	{
-	  b = BB(b);
-	  if (b > base)
-	    e_b = EB(b);
-	}
+      e = EB(b);
     }
 
   /*
-- 
2.43.0


From 71752e36aab33d665709ed337e8346f2c24fdfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:38 +0000
Subject: [PATCH 63/78] fix: a running byte-code clause without erased clauses
 in its predicate keeps later ones from being collected

---
 src/BipsPl/dynam_supp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BipsPl/dynam_supp.c b/src/BipsPl/dynam_supp.c
index 4d29ddb..13f4103 100644
--- a/src/BipsPl/dynam_supp.c
+++ b/src/BipsPl/dynam_supp.c
@@ -1345,7 +1345,7 @@ GC_Clause(void)
       for (; e > b && e > base; e = EE(e))
 	{
 	  clause = Pl_BC_Clause_Environment(e);
-	  if (clause)
+	  if (clause && clause->dyn->first_erased_cl)
 	    MARK_AS_KEEP(clause->dyn);
 	}
 
-- 
2.43.0


From a5527b0b10dbc8d390c87f4bc423a52440524385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 64/78] fix: the rest of a query kept for Prolog that runs a
 byte-code clause continues at the end of the query

---
 src/BipsPl/bc_supp.c  | 12 +++---------
 src/EnginePl/engine.c | 27 +++++++++++++++++++++++++--
 src/EnginePl/engine.h |  2 ++
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/BipsPl/bc_supp.c b/src/BipsPl/bc_supp.c
index 674c08a..b5effd1 100644
--- a/src/BipsPl/bc_supp.c
+++ b/src/BipsPl/bc_supp.c
@@ -930,7 +930,7 @@ static void Prep_Debug_Call(int func, int arity, int caller_func,
 Prolog_Prototype(BC_EMULATE_CONT, 0);
 Prolog_Prototype(CALL_INTERNAL_WITH_CUT, 3);
 
-#define Y_SAVE_CPE(e) Y(e, 0)
+#define Y_SAVE_CPE(e) Y(e, 0)	/* see also Pl_Keep_Rest_For_Prolog() */
 #define Y_CLAUSE(e)   Y(e, 1)
 #define Y_BCPC_DBG(e) Y(e, 2)
 
@@ -957,7 +957,7 @@ do { /* in continuation: restore BC pc, debug_call */	\
 #define BC_FRAME_BEGIN					\
   Y_CLAUSE(E)   = (WamWord) clause;			\
   Y_SAVE_CPE(E) = (WamWord) CP; /* NB: CP == CPE(E) */	\
-  CPE(E)        = (WamCont) BC_Frame_Sentinel
+  CPE(E)        = (WamCont) Pl_BC_Frame_Sentinel
 
 #define BC_FRAME_END					\
 do {							\
@@ -966,13 +966,7 @@ do {							\
   CP = save_cpe;					\
 }  while(0)
 
-#define Is_BC_Frame(e) (CPE(e) == (WamCont) BC_Frame_Sentinel)
-
-static void
-BC_Frame_Sentinel(void)
-{
-  printf("!!! ERROR: in BC_Frame_Sentinel !!!\n"); exit(1);
-}
+#define Is_BC_Frame(e) (CPE(e) == (WamCont) Pl_BC_Frame_Sentinel)
 
 #if 0
 void
diff --git a/src/EnginePl/engine.c b/src/EnginePl/engine.c
index a632e27..13c7dc5 100644
--- a/src/EnginePl/engine.c
+++ b/src/EnginePl/engine.c
@@ -429,6 +429,7 @@ Pl_Keep_Rest_For_Prolog(WamWord *query_b, WamWord *query_e)
 {
   WamWord *b, *e;
   WamWord *seen_e = query_e;
+  WamCont *p_cpe;
 
   for (b = B; b > query_b; b = BB(b))
     {
@@ -436,8 +437,14 @@ Pl_Keep_Rest_For_Prolog(WamWord *query_b, WamWord *query_e)
 	CPB(b) = CP;
 
       for (e = EB(b); e > query_e && e != seen_e; e = EE(e))
-	if (CPE(e) == Adjust_CP(Call_Prolog_Success))
-	  CPE(e) = CP;
+	{
+	  p_cpe = &CPE(e);
+	  if (*p_cpe == (WamCont) Pl_BC_Frame_Sentinel)
+	    p_cpe = (WamCont *) &Y(e, 0);	/* see bc_supp.c */
+
+	  if (*p_cpe == Adjust_CP(Call_Prolog_Success))
+	    *p_cpe = CP;
+	}
 
       for (seen_e = EB(b); seen_e > query_e && seen_e > BB(b); seen_e = EE(seen_e))
 	;
@@ -447,6 +454,22 @@ Pl_Keep_Rest_For_Prolog(WamWord *query_b, WamWord *query_e)
 
 
 
+/*-------------------------------------------------------------------------*
+ * PL_BC_FRAME_SENTINEL                                                    *
+ *                                                                         *
+ * CPE of the environments of the byte-code clauses (see bc_supp.c), whose *
+ * continuation is saved in their first permanent variable.                *
+ *-------------------------------------------------------------------------*/
+void
+Pl_BC_Frame_Sentinel(void)
+{
+  printf("!!! ERROR: in BC_Frame_Sentinel !!!\n");
+  exit(1);
+}
+
+
+
+
 /*-------------------------------------------------------------------------*
  * CALL_NEXT                                                               *
  *                                                                         *
diff --git a/src/EnginePl/engine.h b/src/EnginePl/engine.h
index 391f4a8..6b6cc21 100644
--- a/src/EnginePl/engine.h
+++ b/src/EnginePl/engine.h
@@ -143,6 +143,8 @@ int Pl_Call_Prolog_Next_Sol(WamWord *query_b);
 
 void Pl_Keep_Rest_For_Prolog(WamWord *query_b, WamWord *query_e);
 
+void Pl_BC_Frame_Sentinel(void);
+
 void Pl_Exit_With_Exception(void);
 
 void Pl_Execute_A_Continuation(CodePtr codep);
-- 
2.43.0


From 7fd81d413fa3443cd00850c76ffb3a7ac00f385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:58 +0000
Subject: [PATCH 65/78] fix: calling a dynamic predicate of arity 255
 overwrites the register HB1 (bindings are then not undone)

---
 src/BipsPl/bc_supp.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/BipsPl/bc_supp.c b/src/BipsPl/bc_supp.c
index b5effd1..11f48e2 100644
--- a/src/BipsPl/bc_supp.c
+++ b/src/BipsPl/bc_supp.c
@@ -1077,17 +1077,23 @@ Pl_BC_Emulate_Pred(DynPInf *dyn)
   DynCInf *clause;
   WamCont codep;
   int func, arity;
+  WamWord info_buff[MAX_ARITY + 2];
+  WamWord *info;
 
   while (dyn)
     {
       func = dyn->func;
       arity = dyn->arity;
       A(arity) = Pl_Get_Current_Choice();	/* init cut register */
-      A(arity + 1) = debug_call;
+      info = &A(0);
+      if (arity + 1 >= NB_OF_X_REGS)		/* no X register for debug_call */
+	info = (WamWord *) memcpy(info_buff, info, (arity + 1) * sizeof(WamWord));
+
+      info[arity + 1] = debug_call;
 
       clause = Pl_Scan_Dynamic_Pred(func, arity, dyn, A(0),
 				    (ScanFct) BC_Emulate_Pred_Alt,
-				    DYN_ALT_FCT_FOR_JUMP, arity + 2, &A(0));
+				    DYN_ALT_FCT_FOR_JUMP, arity + 2, info);
       if (clause == NULL)
 	break;			/* fail */
 
-- 
2.43.0


From dfd4773d2e193a401cf75b1d2c32ee4a4f2f33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:28 +0000
Subject: [PATCH 66/78] fix: indexing skips a clause whose body has side
 effects or errors before it unifies the first argument

---
 src/Pl2Wam/first_arg.pl  |  4 ++++
 src/Pl2Wam/first_arg.wam | 30 +++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/Pl2Wam/first_arg.pl b/src/Pl2Wam/first_arg.pl
index 0704dd9..ba20fae 100644
--- a/src/Pl2Wam/first_arg.pl
+++ b/src/Pl2Wam/first_arg.pl
@@ -56,6 +56,10 @@ stopping_inst(cut(_)).
 
 stopping_inst(soft_cut(_)).
 
+stopping_inst(call_c(_, _, _)).			% can have side effects or raise an error
+
+stopping_inst(math_load_value(_, _)).		% can raise an error
+
 stopping_inst(WamInst) :-
 	codification(WamInst, LCode),
 	assign_x0(LCode).
diff --git a/src/Pl2Wam/first_arg.wam b/src/Pl2Wam/first_arg.wam
index 64d53d9..0be6185 100644
--- a/src/Pl2Wam/first_arg.wam
+++ b/src/Pl2Wam/first_arg.wam
@@ -1,6 +1,6 @@
 % compiler: GNU Prolog 1.6.0
 % file: first_arg.pl
-% hash: ca7cb8b0b179d771843f9f65afdb35e72c2f22fb  first_arg.pl
+% hash: 1d319f909383a232fb611ba482284d5d95b89419  first_arg.pl
 
 
 file_name('/home/diaz/GP/src/Pl2Wam/first_arg.pl').
@@ -56,11 +56,11 @@ label(2),
 
 
 predicate(stopping_inst/1,51,static,private,monofile,global,[
-    try_me_else(10),
+    try_me_else(14),
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
-    switch_on_structure([(call/1,3),(execute/1,5),(cut/1,7),(soft_cut/1,9)]),
+    switch_on_structure([(call/1,3),(execute/1,5),(cut/1,7),(soft_cut/1,9),(call_c/3,11),(math_load_value/2,13)]),
 
 label(2),
     try_me_else(4),
@@ -87,7 +87,7 @@ label(7),
     proceed,
 
 label(8),
-    trust_me_else_fail,
+    retry_me_else(10),
 
 label(9),
     get_structure(soft_cut/1,0),
@@ -95,6 +95,22 @@ label(9),
     proceed,
 
 label(10),
+    retry_me_else(12),
+
+label(11),
+    get_structure(call_c/3,0),
+    unify_void(3),
+    proceed,
+
+label(12),
+    trust_me_else_fail,
+
+label(13),
+    get_structure(math_load_value/2,0),
+    unify_void(2),
+    proceed,
+
+label(14),
     trust_me_else_fail,
     allocate(1),
     put_variable(y(0),1),
@@ -104,14 +120,14 @@ label(10),
     execute(assign_x0/1)]).
 
 
-predicate(assign_x0/1,66,static,private,monofile,global,[
+predicate(assign_x0/1,70,static,private,monofile,global,[
     get_list(0),
     unify_variable(x(0)),
     unify_variable(x(1)),
     execute('$assign_x0/1_$aux1'/2)]).
 
 
-predicate('$assign_x0/1_$aux1'/2,66,static,private,monofile,local,[
+predicate('$assign_x0/1_$aux1'/2,70,static,private,monofile,local,[
     try_me_else(6),
     switch_on_term(2,fail,fail,fail,1),
 
@@ -143,7 +159,7 @@ label(6),
     execute(assign_x0/1)]).
 
 
-predicate(defines_first_arg/2,77,static,private,monofile,global,[
+predicate(defines_first_arg/2,81,static,private,monofile,global,[
     switch_on_term(2,fail,fail,fail,1),
 
 label(1),
-- 
2.43.0


From 5d30bf4258e723d9178b36efa4aa800b9bf23ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:22 +0000
Subject: [PATCH 67/78] fix: fd_labeling/2 refuses value_method(bounds), the
 documented name of value_method(limits)

---
 src/BipsFD/fd_values.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BipsFD/fd_values.pl b/src/BipsFD/fd_values.pl
index c84af15..7542ca5 100644
--- a/src/BipsFD/fd_values.pl
+++ b/src/BipsFD/fd_values.pl
@@ -172,6 +172,8 @@ fd_labeling(List, Options) :-
 	    '$sys_var_write'(1, 3)
 	;   X = bisect,
 	    '$sys_var_write'(1, 4)
+	;   X = bounds,
+	    '$sys_var_write'(1, 5)
 	;   X = limits,
 	    '$sys_var_write'(1, 5)
 	).
-- 
2.43.0


From 099c799887ddb6d898714168f35f51de0260c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:03 +0000
Subject: [PATCH 68/78] fix: full-AC min/max constraints stop bounds that are
 not entailed (wrong solutions)

---
 src/BipsFD/fd_math_fd.fd | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/BipsFD/fd_math_fd.fd b/src/BipsFD/fd_math_fd.fd
index 4223e52..21ac1d1 100644
--- a/src/BipsFD/fd_math_fd.fd
+++ b/src/BipsFD/fd_math_fd.fd
@@ -619,15 +619,11 @@ pl_min_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))     /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
@@ -749,15 +745,11 @@ pl_max_x_y_eq_z_F(fdv X, fdv Y, fdv Z)
 		stop c1
 		stop c2
 		stop c3
-		stop c4
-		stop c5
 		start Z in dom(X)                                 /* Z = X */
 		start X in dom(Z)
 
 	case Pl_Range_Test_Null_Inter(dom(X), dom(Z))      /* case : X != Z */
 		stop c1
-		stop c2
-		stop c3
 		stop c4
 		stop c5
 		start Z in dom(Y)                                 /* Z = Y */
-- 
2.43.0


From 6379a8a32f559afcc2dc4d1b60ec31054ce28841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:11 +0000
Subject: [PATCH 69/78] fix: a failing allocation in the completion dictionary
 ends in a segmentation violation

---
 src/Tools/map_rbtree.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Tools/map_rbtree.h b/src/Tools/map_rbtree.h
index 1d8d8e1..efedf63 100644
--- a/src/Tools/map_rbtree.h
+++ b/src/Tools/map_rbtree.h
@@ -408,6 +408,7 @@
 #if !defined(_MAP_H) || defined(MAP_RE_INCLUDE)
 
 #ifndef MAP_PROTOTYPES_ONLY
+#include <stdio.h>
 #include <stdlib.h>
 #include "rbtree.h"
 #else
@@ -637,7 +638,11 @@ map_put(struct map_rbt *map, MAP_KEY_TYPE _KEY, bool *created)
 
 
   /* Add new node and rebalance tree */
-  entry = calloc(1, sizeof(*entry));
+  if ((entry = calloc(1, sizeof(*entry))) == NULL)
+    {
+      fprintf(stderr, "\nFatal Error: cannot allocate memory for a map entry\n");
+      exit(1);
+    }
   entry->key = _KEY;
 
   map->size++;
-- 
2.43.0


From 6c43564725c403107a83384063d095f6419ca3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:11 +0000
Subject: [PATCH 70/78] fix: the overflow of a stack of size 0 is reported as a
 segmentation violation

---
 src/EnginePl/stacks_sigsegv.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/EnginePl/stacks_sigsegv.c b/src/EnginePl/stacks_sigsegv.c
index a87d87e..e93668f 100644
--- a/src/EnginePl/stacks_sigsegv.c
+++ b/src/EnginePl/stacks_sigsegv.c
@@ -328,9 +328,10 @@ Pl_Allocate_Stacks(void)
 
   for (i = 0; i < NB_OF_STACKS; i++)
     {
-      stk_sz = pl_stk_tbl[i].size = Round_Up(pl_stk_tbl[i].size, page_size);
+      stk_sz = Round_Up(pl_stk_tbl[i].size, page_size);
       if (stk_sz == 0)
 	stk_sz = page_size;	/* at leat one page to write magic numbers */
+      pl_stk_tbl[i].size = stk_sz; /* the real size (to detect overflows) */
       length += stk_sz + page_size;
     }
   length *= sizeof(WamWord);
@@ -374,8 +375,6 @@ Pl_Allocate_Stacks(void)
     {
       pl_stk_tbl[i].stack = addr;
       stk_sz = pl_stk_tbl[i].size;
-      if (stk_sz == 0)
-	stk_sz = page_size;	/* at least one page for magic numbers */
 #ifdef DEBUG
       DBGPRINTF("  stack: %d %-10s length: %5" PL_FMT_d " Kb   addr:[%p..%p[ + 1 free page, next addr: %p\n", 
 		i, pl_stk_tbl[i].name, stk_sz * sizeof(WamWord) / 1024, 
-- 
2.43.0


From f8e85225bd74046e35699647106b928913397169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 71/78] fix: gplc overflows its buffers on long lines of linker
 messages

---
 src/TopComp/mangling.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/TopComp/mangling.c b/src/TopComp/mangling.c
index 5d440be..58b52f2 100644
--- a/src/TopComp/mangling.c
+++ b/src/TopComp/mangling.c
@@ -427,9 +427,10 @@ Demangle(char *str, Bool strict, Bool quote, int decode_aux,
 char *
 Demangle_Line(char *str, char *format, Bool strict, Bool quote, int decode_aux)
 {
-  static char result[4096];
-  static char module[2048];
-  static char pred[1024];
+  static char *result = NULL;	/* these 3 buffers have the same size */
+  static char *module, *pred;
+  static size_t size = 0;
+  size_t need;
   int arity;
   int aux_no;
   char *src, *dst, *p;
@@ -438,6 +439,21 @@ Demangle_Line(char *str, char *format, Bool strict, Bool quote, int decode_aux)
   if (format == NULL)
     format = "%s";
 
+  /* a char gives at most 5 chars when quoted (\x..\), a name 2 quotes + format */
+  need = strlen(str) * (strlen(format) + 8) + 64;
+  if (need > size)
+    {
+      free(result);
+      if ((result = (char *) malloc(3 * need)) == NULL)
+	{
+	  size = 0;
+	  return str;
+	}
+      module = result + need;
+      pred = module + need;
+      size = need;
+    }
+
   src = str;
   dst = result;
   while(*src)
@@ -539,7 +555,7 @@ Decode_String(char *str, char *buff)
 static void
 Quote_If_Needed(char *str)
 {
-  static char buff[2048];
+  char *buff;
   char *p;
   char *q, *r;
 
@@ -554,6 +570,9 @@ Quote_If_Needed(char *str)
     }
 
 
+  if ((buff = (char *) malloc(strlen(str) * 5 + 3)) == NULL)
+    return;
+
   p = str;
   q = buff;
 
@@ -580,6 +599,7 @@ Quote_If_Needed(char *str)
   *q++ = '\'';
   *q = '\0';
   strcpy(str, buff);
+  free(buff);
 }
 
 
-- 
2.43.0


From 9419ebdcd53320898c6681fcbbaec4b529982dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 72/78] fix: gplc leaves its temporary files when a command
 cannot be executed

---
 src/TopComp/top_comp.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/TopComp/top_comp.c b/src/TopComp/top_comp.c
index d03a2de..6d98053 100644
--- a/src/TopComp/top_comp.c
+++ b/src/TopComp/top_comp.c
@@ -882,11 +882,10 @@ Exec_One_Cmd(char *cmd, char *cmd_filter)
     {
       fprintf(stderr, "error trying to execute ");
       perror(arg[0]);
-      exit(1);
     }
 
   if (status == -2)
-    fprintf(stderr, "error trying to execute %s: unknown error", arg[0]);
+    fprintf(stderr, "error trying to execute %s: unknown error\n", arg[0]);
 
   After_Cmd(status);
 
-- 
2.43.0


From e32f8c11b26181c2a11a8ab8201278ffa5e10d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 73/78] fix: gplc drops the last line of the linker messages if
 it has no newline and loops on a read error

---
 src/TopComp/top_comp.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/TopComp/top_comp.c b/src/TopComp/top_comp.c
index 6d98053..27d3735 100644
--- a/src/TopComp/top_comp.c
+++ b/src/TopComp/top_comp.c
@@ -941,11 +941,7 @@ Spawn_And_Filter(char *arg[], char *cmd_filter)
 
   for (;;)
     {
-      if (fgets(buff, sizeof(buff), f_out)) /* to avoid gcc warning warn_unused_result */
-	{
-	}
-
-      if (feof(f_out))
+      if (fgets(buff, sizeof(buff), f_out) == NULL) /* EOF or error */
 	break;
 
       if (cmd_filter == CMD_FILTER_DEMANGLE)
-- 
2.43.0


From 39d53c8684afd0b2702ea3d0f2639a3953db1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 74/78] fix: gplc leaves the stack size file when a stage
 fails, and does not check it was written

---
 src/TopComp/top_comp.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/TopComp/top_comp.c b/src/TopComp/top_comp.c
index 27d3735..5aa6aae 100644
--- a/src/TopComp/top_comp.c
+++ b/src/TopComp/top_comp.c
@@ -416,7 +416,7 @@ Compile_Files(void)
       f->name = f->work_name2;
       f->suffix = f->name + strlen(f->name) - strlen(suffixes[FILE_MA]);
       f->type = FILE_MA;
-      f->work_name1 = f->name;
+      f->work_name1 = strdup(f->name);	/* != f->name: deleted as any temp file */
       f->work_name2 = NULL;
 
       if (verbose)
@@ -440,7 +440,8 @@ Compile_Files(void)
       if (fixed_sizes)
         fprintf(fd, "long global pl_fixed_sizes = 1\n");
 
-      fclose(fd);
+      if (ferror(fd) | fclose(fd))
+        Pl_Fatal_Error("cannot write stack size file (%s)", f->name);
     }
 
   if (verbose)
@@ -512,13 +513,6 @@ Compile_Files(void)
 		}
 	      
               Compile_Cmd(&cmd_ma2asm, f);
-              if (needs_stack_file && f == file_lopt + nb_file_lopt &&
-                  !no_del_temp_files)
-                {
-                  if (verbose)
-                    fprintf(stderr, "deleting stack size file\n");
-                  Delete_Temp_File(f->name);
-                }
               break;
 
             case FILE_ASM:
-- 
2.43.0


From b70dbdbc6c31dbec3c57657ce92d94f4e1029d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:30 +0000
Subject: [PATCH 75/78] fix: gplc goes on with a file named (null) when no
 temporary name can be made

---
 src/TopComp/top_comp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/TopComp/top_comp.c b/src/TopComp/top_comp.c
index 5aa6aae..b40054d 100644
--- a/src/TopComp/top_comp.c
+++ b/src/TopComp/top_comp.c
@@ -622,6 +622,8 @@ New_Work_File(FileInf *f, int stage, int stop_after)
   if (stage < stop_after)       /* intermediate stage */
     {
       p = Pl_Tempnam(temp_dir, TEMP_FILE_PREFIX);
+      if (p == NULL)
+        Pl_Fatal_Error("cannot create a temporary file: %s", strerror(errno));
       sprintf(buff, "%s%s", p, suffixes[stage + 1]);
       free(p);
     }
-- 
2.43.0


From 59822ec78b42b5b678e838a5ff2f05a0cdb1081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 76/78] fix: wam2ma and ma2asm report success when their output
 could not be written

---
 src/Ma2Asm/ma2asm.c | 7 +++++--
 src/Wam2Ma/wam2ma.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Ma2Asm/ma2asm.c b/src/Ma2Asm/ma2asm.c
index d521b0d..33f8a4a 100644
--- a/src/Ma2Asm/ma2asm.c
+++ b/src/Ma2Asm/ma2asm.c
@@ -257,8 +257,11 @@ main(int argc, char *argv[])
 
   Asm_Stop();
 
-  if (file_out != stdout)
-    fclose(file_out);
+  if (ferror(file_out) | fclose(file_out))
+    {
+      fprintf(stderr, "cannot write output file %s\n", file_name_out ? file_name_out : "stdout");
+      exit(1);
+    }
 
   exit(0);
 }
diff --git a/src/Wam2Ma/wam2ma.c b/src/Wam2Ma/wam2ma.c
index 25adc5c..2419630 100644
--- a/src/Wam2Ma/wam2ma.c
+++ b/src/Wam2Ma/wam2ma.c
@@ -447,8 +447,11 @@ main(int argc, char *argv[])
   Emit_Unit_Initializer();
   Emit_Exec_Directives();
 
-  if (file_out != stdout)
-    fclose(file_out);
+  if (ferror(file_out) | fclose(file_out))
+    {
+      fprintf(stderr, "cannot write output file %s\n", file_name_out ? file_name_out : "stdout");
+      exit(1);
+    }
 
   exit(0);
 }
-- 
2.43.0


From 1f9c093ed97c573df3dac22744754f86777a5691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 77/78] fix: wam2ma and ma2asm loop on a read error and drop a
 last line without newline

---
 src/Ma2Asm/ma_parser.c  | 18 ++++++++----------
 src/Wam2Ma/wam_parser.c | 12 +++++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/Ma2Asm/ma_parser.c b/src/Ma2Asm/ma_parser.c
index 00d4e0e..efd1497 100644
--- a/src/Ma2Asm/ma_parser.c
+++ b/src/Ma2Asm/ma_parser.c
@@ -228,6 +228,12 @@ Parse_Ma_File(char *file_name_in, Bool comment)
       if ((ret_val = setjmp(jumper)) == 0)
 	Parser(i, nb_passes);
 
+      if (ferror(file_in))
+	{
+	  fprintf(stderr, "cannot read input file %s\n", file_name_in);
+	  ret_val = 1;
+	}
+
       if (ret_val != 0)
 	return FALSE;
     }
@@ -781,11 +787,7 @@ Lexer(void)
       if (*cur_line_p != '\0' && *cur_line_p != ';')
 	break;
 
-      if (fgets(cur_line_str, sizeof(cur_line_str), file_in)) /* to avoid gcc warning warn_unused_result */
-	{
-	}
-
-      if (feof(file_in))
+      if (fgets(cur_line_str, sizeof(cur_line_str), file_in) == NULL) /* EOF or error */
 	return END_OF_FILE;
 
       cur_line_no++;
@@ -903,11 +905,7 @@ Skip_Rest_Of_Line(void)
   /* useful for pass 1 to ignore instructions (keep decl only) */
   while((p = strrchr(cur_line_p, '\\')) != NULL)
     {
-      if (fgets(cur_line_str, sizeof(cur_line_str), file_in)) /* to avoid gcc warning warn_unused_result */
-	{
-	}
-
-      if (feof(file_in))
+      if (fgets(cur_line_str, sizeof(cur_line_str), file_in) == NULL) /* EOF or error */
 	*cur_line_str = '\0';
 
       cur_line_no++;
diff --git a/src/Wam2Ma/wam_parser.c b/src/Wam2Ma/wam_parser.c
index 0b74ba5..e746684 100644
--- a/src/Wam2Ma/wam_parser.c
+++ b/src/Wam2Ma/wam_parser.c
@@ -234,6 +234,12 @@ Parse_Wam_File(char *file_name_in, Bool comment)
   if ((ret_val = setjmp(jumper)) == 0)
     Parser();
 
+  if (ferror(file_in))
+    {
+      fprintf(stderr, "cannot read input file %s\n", file_name_in ? file_name_in : "stdin");
+      ret_val = 1;
+    }
+
   if (file_in != stdin)
     fclose(file_in);
 
@@ -594,11 +600,7 @@ Lexer(Bool complex_atom)
       if (*cur_line_p != '\0' && *cur_line_p != '%')
 	break;
 
-      if (fgets(cur_line_str, sizeof(cur_line_str), file_in)) /* to avoid gcc warning warn_unused_result */
-	{
-	}
-
-      if (feof(file_in))
+      if (fgets(cur_line_str, sizeof(cur_line_str), file_in) == NULL) /* EOF or error */
 	return END_OF_FILE;
 
       cur_line_no++;
-- 
2.43.0


From da9f51c23bc2e7c3f2b3655e9bf803f970fb7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 78/78] fix: fd2c cannot read a file whose last line has no
 newline

---
 src/Fd2C/read_file.pl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Fd2C/read_file.pl b/src/Fd2C/read_file.pl
index 2069081..cbc3c46 100644
--- a/src/Fd2C/read_file.pl
+++ b/src/Fd2C/read_file.pl
@@ -157,9 +157,10 @@ one_token(C, Token, C1) :-
 one_token(C, Token, C2) :-
 	get_code(stream_fd, C1),
 	char_code(A1, C),
-	char_code(A2, C1),
-	atom_concat(A1, A2, A),
-	(   member(A, [/<, />, ==, '!=', <=, >=, &&, '||', .., ++, --, **, //, '%%', '|<', '|>']) ->
+	(   C1 >= 0,
+	    char_code(A2, C1),
+	    atom_concat(A1, A2, A),
+	    member(A, [/<, />, ==, '!=', <=, >=, &&, '||', .., ++, --, **, //, '%%', '|<', '|>']) ->
 	    get_code(stream_fd, C2),
 	    Token = A
 	;   Token = A1,
-- 
2.43.0

