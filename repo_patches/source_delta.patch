From edb9b6184662048e8efe5df3bbc42ef0955d824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 01/23] fix: keep NUL bytes in the output of a filter command

read_stream_r() duplicated each line with strdup(3), which stops at the
first NUL, and then stored the full length from the short copy.
---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 36b2dd9..a9d7fdd 100644
--- a/src/io.c
+++ b/src/io.c
@@ -312,7 +312,9 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
-      if (!(_t = strdup (s)) || !append_text_node ((th), _t, (len)))          \
+      /* Text may contain NULs, so strdup(3) is not an option. */             \
+      if (!(_t = (char *) malloc ((len) + 1))                                 \
+          || !append_text_node ((th), memcpy (_t, (s), (len) + 1), (len)))    \
         {                                                                     \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
-- 
2.43.0


From b358d29615993528c6bf225d48c96dc8dc365676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 02/23] fix: no division by zero in s///g-N when the line has N
 matches

A match-relative frequency (match_count - N) of zero was used as modulus.
---
 src/sub.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sub.c b/src/sub.c
index 6298d7a..b7b10de 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -474,6 +474,10 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
   else if ((s_f & SNLR || s_f & SMLR) && n <= labs(s_nth))
     return *len = 0;
 
+  /* Likewise, if frequency is match-relative, it must be positive. */
+  else if (s_f & SMLR && n + s_mod <= 0)
+    return *len = 0;
+
   /* Last match-relative s_nth?  */
   if (s_f & SNLR)
     s_nth += n;
-- 
2.43.0


From 22a9eb934c65dadf4250fb34dbcb19f79ce3cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 03/23] fix: report a write that fails when the stream is
 flushed

write_stream() ignored the result of fflush(3), so a short file written to
a full disk was reported, and marked, as saved.
---
 src/io.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index a9d7fdd..61aee6a 100644
--- a/src/io.c
+++ b/src/io.c
@@ -743,7 +743,13 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
         *size += 8 - *size % 8;
     }
 #endif
-  fflush (fp);
+  if (fflush (fp) == EOF)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("File write error");
+      clearerr (fp);
+      return ERR;
+    }
 
   return 0;
 }
-- 
2.43.0


From ba14b38bd25c4c08d1e55f1ee6d83595908cae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 04/23] fix: do not close the default file's handle after
 writing it by name

After `w name', where name is the default file, the handle kept in
ed->file->handle was closed but still used: every later write failed.
---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 61aee6a..bb36156 100644
--- a/src/io.c
+++ b/src/io.c
@@ -656,7 +656,9 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   *addr = n;
 
 #ifdef WANT_FILE_LOCK
-  if (!is_default)
+
+  /* Explicit file name may refer to default file, which is kept open. */
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
-- 
2.43.0


From 834db0fae22a194cd83946277a2d0b66cf3d86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 05/23] fix: reopen for writing a default file that was opened
 read-only

The condition always held, so the first write failed with `File close
error' and the second one called fclose (NULL).
---
 src/io.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/io.c b/src/io.c
index bb36156..7542d8d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -619,15 +619,20 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
    * File-locking requires file write access, so this case should not
    * be reached.
    */
-  else if (file_already_open
-           && (fclose (ed->file->handle) < 0 || !(ed->file->handle = NULL)))
-    {
-      fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
-      ed->exec->err = _("File close error");
-      return ERR;
-    }
   else
     {
+      if (file_already_open)
+        {
+          status = fclose (ed->file->handle);
+          ed->file->handle = NULL;
+          ed->file->inode = 0;
+          if (status == EOF)
+            {
+              fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
+              ed->exec->err = _("File close error");
+              return ERR;
+            }
+        }
 #endif  /* WANT_FILE_LOCK */
       if (!(fp = fopen (fn, mode)))
         {
-- 
2.43.0


From 30275f9ef34f21fd5002400612d53ff20aaeb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 06/23] fix: only the last line of a binary buffer may lack its
 newline

write_stream() left out the newline of the last line of any range written
from a binary buffer without final newline, joining it to what follows.
---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 7542d8d..34fcc4d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -725,7 +725,8 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
       if (!(s = get_buffer_line (lp, ed)))
         return ERR;
       len = lp->len;
-      append_newline = !(n == 1 && ed->state->is_binary
+      append_newline = !(n == 1 && lp->q_forw == ed->core->line_head
+                         && ed->state->is_binary
                          && ed->state->newline_appended);
       if (*size >= OFF_T_MAX - len - append_newline)
         {
-- 
2.43.0


From 9017364266841444f18a290b2e00c6e155e1f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:00 +0000
Subject: [PATCH 07/23] fix: buffer is modified if undo follows a write

A change, `w', `u' and `q' quit without warning although the buffer
differed from the file just written.
---
 src/exec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 08d95eb..11d5ca9 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1469,6 +1469,10 @@ w_cmd (ed_buffer_t *ed)
         {
           ed->state->is_modified = 0;
 
+          /* The state that undo would bring back differs from file. */
+          if (ed->core->undo_head->q_forw != ed->core->undo_head)
+            ed->state[1].is_modified = 1;
+
           /*
            * Per SUSv4, exit_status cannot be reset. We'll do it
            * anyhow ...
-- 
2.43.0


From 73256d3f4d7d96e1f695e6c1e0c8308cc5f48a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 08/23] fix: remove the script buffer when exiting with a usage
 message

`ed -e COMMAND -h' left its temporary file behind.
---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 6ca0d54..8e5a92d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -878,7 +878,10 @@ for a tutorial introduction to ed.\n\
 Please submit issues or pull requests to: <https://github.com/slewsys/ed>\n"));
 #endif  /* !WANT_SCRIPT_FLAGS */
     }
-  exit (status);
+
+  /* Options preceding this one may have created script buffer. */
+  fflush (stdout);
+  quit (status, ed);
 }
 
 
-- 
2.43.0


From 4e30ef3a5e61f7e22ab910d41637ce05e82e15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 09/23] fix: global commands inside macros and macros inside
 global commands

A macro's global command never ended as far as later commands of the macro
were concerned, text input of its command list was taken from the macro
instead of the list, and a global command list ended at a macro call.
---
 src/cmds.c  | 12 ++----------
 src/ed.h    | 10 ++++++++++
 src/exec.c  | 17 +++++++++++++++--
 src/parse.c |  2 +-
 src/sub.c   |  4 ++--
 5 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index d8234ee..44c28c6 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -24,11 +24,7 @@ append_lines (off_t after, ed_buffer_t *ed)
   ed->state->input_is_binary = 0;
   for (ed->state->dot = after;;)
     {
-#ifdef WANT_ED_MACRO
-      if (!ed->exec->global || ed->core->sp)
-#else
-      if (!ed->exec->global)
-#endif
+      if (!GLOBAL_INPUT (ed))
         {
           if (!(ed->input = get_stdin_line (&len, ed)))
             {
@@ -53,11 +49,7 @@ append_lines (off_t after, ed_buffer_t *ed)
           ++ed->input;
           return 0;
         }
-#ifdef WANT_ED_MACRO
-      if (ed->exec->global && !ed->core->sp)
-#else
-      if (ed->exec->global)
-#endif
+      if (GLOBAL_INPUT (ed))
         {
           for (s = ed->input; *s++ != '\n';)
             ;
diff --git a/src/ed.h b/src/ed.h
index 83828b7..8f10812 100644
--- a/src/ed.h
+++ b/src/ed.h
@@ -480,6 +480,7 @@ struct ed_execute
   int have_key;                 /* If set, encrypt I/O. */
   int first_pass;               /* If set, first global command iteration. */
   int global;                   /* If set, global command (GLBL [| GLBI]). */
+  int global_sp;                /* Macro depth of global command. */
   int opt;                      /* Command-line options. */
   int status;                   /* Command status. */
 };
@@ -578,6 +579,15 @@ enum ed_modifier_flags
     OFFB = 0x80000              /* Frame buffer text offset. */
   };
 
+/* GLOBAL_INPUT: Command input is the list of a global command, as
+   opposed to a macro executed by that list. */
+#ifdef WANT_ED_MACRO
+# define GLOBAL_INPUT(ed)                                                     \
+  ((ed)->exec->global && (ed)->core->sp == (ed)->exec->global_sp)
+#else
+# define GLOBAL_INPUT(ed) ((ed)->exec->global)
+#endif
+
 /* Ed error flags. */
 enum ed_command_error
   {
diff --git a/src/exec.c b/src/exec.c
index 11d5ca9..735e624 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -570,6 +570,7 @@ static int
 exec_macro (ed_buffer_t *ed)
 {
   size_t len;
+  char *input = NULL;           /* Rest of global command list. */
   int status = 0;
 
   /* case '@': */
@@ -585,6 +586,8 @@ exec_macro (ed_buffer_t *ed)
       ed->exec->err = _("Command suffix unexpected");
       return ERR;
     }
+  if (GLOBAL_INPUT (ed))
+    input = ed->input + 1;
 
   if ((status = script_from_register (ed)) < 0 || !ed->exec->fp)
     goto err;
@@ -618,8 +621,14 @@ exec_macro (ed_buffer_t *ed)
 
  err:
   /* Pop stack frame, or unwind on error. */
-  return (status < 0 && status != EOF ? unwind_stack_frame (status, ed)
-          : pop_stack_frame (ed));
+  if (status < 0 && status != EOF)
+    return unwind_stack_frame (status, ed);
+  status = pop_stack_frame (ed);
+
+  /* Resume global command list. */
+  if (input)
+    ed->input = input;
+  return status;
 }
 #endif  /* WANT_ED_MACRO */
 
@@ -726,9 +735,13 @@ global_cmd (ed_buffer_t *ed)
       COMMAND_SUFFIX (ed->display->io_f, ed);
     }
   ed->exec->global |= GLBL;
+  ed->exec->global_sp = ed->core->sp;
 
   if ((status = exec_global (ed)) < 0)
     return status;
+
+  /* Global command may be followed by others in macro. */
+  ed->exec->global = 0;
   return c == 'G' || c == 'V' ? (ed->display->io_f = status) : 0;
 }
 
diff --git a/src/parse.c b/src/parse.c
index 2ea5fc9..d4aadb5 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -697,7 +697,7 @@ expand_shell_command (size_t *len, int *subs, ed_buffer_t *ed)
       return NULL;
     }
 
-  if (ed->exec->global)
+  if (GLOBAL_INPUT (ed))
     {
       /* Copy ed->input up to first newline. */
       if ((s = strchr (ed->input, '\n')) == NULL)
diff --git a/src/sub.c b/src/sub.c
index b7b10de..99d7642 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -192,8 +192,8 @@ substitution_rhs (off_t *s_nth, off_t *s_mod, unsigned *s_f,
   ed->state->input_is_binary = 0; /* Value used in substitute_lines(). */
 
 
-  /* Don't clobber command buffer if any ed->exec->global set. */
-  if (!ed->exec->global && !(ed->input = get_extended_line (&len, 0, 0, ed)))
+  /* Don't clobber command buffer of global command. */
+  if (!GLOBAL_INPUT (ed) && !(ed->input = get_extended_line (&len, 0, 0, ed)))
     {
       /* EOF here always flags error. */
       status = ERR;
-- 
2.43.0


From f04b6b8244c898ee07dc4ef2dc494414e4773cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 10/23] fix: do not free the pattern of the last substitution

The pattern that a repeated substitution uses may no longer be the last
pattern of any substitution or search, e.g., after a rejected command.
---
 src/re.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/re.c b/src/re.c
index 6ac2173..327e076 100644
--- a/src/re.c
+++ b/src/re.c
@@ -215,7 +215,8 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   switch (re_type)
     {
     case RE_SUBST:
-      if (re_subst && re_subst != re_search)
+      if (re_subst && re_subst != re_search
+          && re_subst != ed->exec->subst->lhs)
         {
           regfree (re_subst);
           free (re_subst);
@@ -223,7 +224,8 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
       re_subst = re;
       break;
     case RE_SEARCH:
-      if (re_search && re_search != re_subst)
+      if (re_search && re_search != re_subst
+          && re_search != ed->exec->subst->lhs)
         {
           regfree (re_search);
           free (re_search);
-- 
2.43.0


From cc927af18970df3c75a3a142fec2ccc9f8d26408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 11/23] fix: a rejected substitution does not replace the
 remembered template

After `s/a/1/', the rejected `s/b/2/Q' left 2 as template of a following
`s', i.e., neither of the two substitutions.
---
 src/sub.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 99d7642..a35084a 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -175,6 +175,10 @@ substitution_lhs (regex_t **lhs_p, unsigned *sgpr_f, ed_buffer_t *ed)
 static char *rhs;                 /* Substitution template buffer */
 static size_t rhs_size;           /* Substitution template buffer size */
 static size_t rhs_i;              /* Substitution template buffer index */
+static char *tmpl;                /* Template of command being parsed */
+static size_t tmpl_size;          /* Parsed template buffer size */
+static size_t tmpl_i;             /* Parsed template buffer index */
+static int have_tmpl;             /* If set, template parsed */
 
 
 /* substitution_rhs: Get substitution rhs (template) from command
@@ -204,7 +208,8 @@ substitution_rhs (off_t *s_nth, off_t *s_mod, unsigned *s_f,
   /* Newline-delimited pattern. */
   if ((dc = *ed->input) == '\n')
     {
-      rhs_i = 0;
+      tmpl_i = 0;
+      have_tmpl = 1;
       *sio_f = PRNT;
       return 0;
     }
@@ -240,22 +245,23 @@ substitution_template (unsigned dc, ed_buffer_t *ed)
       return 0;
     }
 
-  for (rhs_i = 0; *ed->input != dc; ++rhs_i, ++ed->input)
+  for (tmpl_i = 0; *ed->input != dc; ++tmpl_i, ++ed->input)
     {
-      REALLOC_THROW (rhs, rhs_size, rhs_i + 2, ERR, ed);
+      REALLOC_THROW (tmpl, tmpl_size, tmpl_i + 2, ERR, ed);
 
       /* Only process escape sequences of the form `\dc' or `\\' here. */
-      if ((*(rhs + rhs_i) = *ed->input) == '\n' &&  *(ed->input + 1) == '\0')
+      if ((*(tmpl + tmpl_i) = *ed->input) == '\n' &&  *(ed->input + 1) == '\0')
         break;
       if (*ed->input != '\\')
         ;
       else if (*(ed->input + 1) == dc)
-        *(rhs + rhs_i) = *++ed->input;
+        *(tmpl + tmpl_i) = *++ed->input;
       else if (*(ed->input + 1) == '\\')
-        *(rhs + ++rhs_i) = *++ed->input;
+        *(tmpl + ++tmpl_i) = *++ed->input;
     }
-  REALLOC_THROW (rhs, rhs_size, rhs_i + 1, ERR, ed);
-  *(rhs + rhs_i) = '\0';
+  REALLOC_THROW (tmpl, tmpl_size, tmpl_i + 1, ERR, ed);
+  *(tmpl + tmpl_i) = '\0';
+  have_tmpl = 1;
   return 0;
 }
 
@@ -339,10 +345,12 @@ init_substitute (regex_t **lhs_p, unsigned *s_f, off_t *s_nth,
   *s_mod = es->s_mod;
   *s_f = es->s_f;
   *sio_f = es->sio_f;
+  have_tmpl = 0;
 }
 
 
-/* save_substitute: Save substitution parameters in ed state buffer. */
+/* save_substitute: Save substitution parameters in ed state buffer.
+   Template replaces previous one here, i.e., once command accepted. */
 void
 save_substitute (regex_t *lhs, unsigned s_f, off_t s_nth,
                  off_t s_mod, unsigned sio_f, struct ed_substitute *es)
@@ -352,6 +360,14 @@ save_substitute (regex_t *lhs, unsigned s_f, off_t s_nth,
   es->s_mod = s_mod;
   es->s_f = s_f;
   es->sio_f = sio_f;
+  if (have_tmpl)
+    {
+      char *prev = rhs;
+      size_t prev_size = rhs_size;
+
+      rhs = tmpl, rhs_size = tmpl_size, rhs_i = tmpl_i;
+      tmpl = prev, tmpl_size = prev_size;
+    }
 }
 
 
-- 
2.43.0


From e6f3604e384d5bbf016235302e0dc32ba1c2f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 12/23] fix: recheck for UTF-8 when text is added to the buffer

A substitution may split a multibyte character; displaying the line
then overran memory, since the buffer was still assumed to be UTF-8.
---
 src/buf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/buf.c b/src/buf.c
index 3b958ce..b868c2f 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -414,6 +414,10 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
   if (!append_line_node (len, ed->core->offset, ed->state->dot, ed))
     return NULL;
 
+  /* A substitution, e.g., may split a multibyte char. */
+  if (ed->state->is_utf8)
+    ed->state->is_utf8 = is_utf8_str (t, len);
+
   ++ed->state->dot;
   ed->core->offset += len;      /* Update current offset in buffer file. */
   return (char *) t + ++len;
-- 
2.43.0


From 3a0b82f57a0457b02ff276d7f30b58537a4b9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 13/23] fix: list every byte of a multibyte character

In UTF-8 text, the l command printed only the first byte of each
multibyte character.
---
 src/page.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/page.c b/src/page.c
index 4e69962..1b038fe 100644
--- a/src/page.c
+++ b/src/page.c
@@ -633,13 +633,17 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
             }
 
           /* Print other chars as octal escapes - i.e., \ooo. */
-          else if (fb_putc ('\\', fb, ed) < 0
-                   || fb_putc ((((unsigned) *s & 0300) >> 6) + '0', fb, ed) < 0
-                   || fb_putc ((((unsigned) *s & 070) >> 3) + '0', fb, ed) < 0
-                   || fb_putc (((unsigned) *s & 07) + '0', fb, ed) < 0)
-            return ERR;
           else
-            col += 4;
+            {
+              /* Every byte of a multibyte char. */
+              n = ed->state->is_utf8 ? utf8_char_size (s, fb->rem_chars) : 1;
+              for (cp = s; cp < s + n; ++cp, col += 4)
+                if (fb_putc ('\\', fb, ed) < 0
+                    || fb_putc ((((unsigned) *cp & 0300) >> 6) + '0', fb, ed) < 0
+                    || fb_putc ((((unsigned) *cp & 070) >> 3) + '0', fb, ed) < 0
+                    || fb_putc (((unsigned) *cp & 07) + '0', fb, ed) < 0)
+                  return ERR;
+            }
         }
 
       /* Convert fb->rem_chars to units of wide chars. */
-- 
2.43.0


From da78fc01b8dfda202ee8c5b226a16f738c2f583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 14/23] fix: empty matches after a NUL character are
 substituted

A NUL character was taken for the end of line when stepping over an
empty match, e.g., s/x*/-/g.
---
 src/sub.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index a35084a..5943b1e 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -521,7 +521,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* Infinite loop!! */
       if (matched_prev && nil_next)
         {
-          if (!*txt)
+          if (txt == eot)
             break;
           if (!ed->state->is_utf8 || (j = utf8_char_size (txt, eot - txt)) == 0)
             j = 1;
@@ -557,7 +557,7 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
       /* Not yet ... */
       else
         {
-          if (nil_next && !*txt)
+          if (nil_next && txt == eot)
             break;
           if (!j && (!ed->state->is_utf8
                      || (j = utf8_char_size (txt, eot - txt)) == 0))
@@ -636,7 +636,7 @@ count_matches (const regex_t *re, const char *txt, int len,
       /* Infinite loop!! */
       if (matched_prev && nul_next)
         {
-          if (!*txt)
+          if (txt == eot)
             break;
           off = 1;
           matched_prev = 0;
@@ -653,7 +653,7 @@ count_matches (const regex_t *re, const char *txt, int len,
       /* Not yet ... */
       else
         {
-          if (nul_next && !*txt)
+          if (nul_next && txt == eot)
             break;
           if (!off)
             ++off;
-- 
2.43.0


From 4a70a9e60f7baeafd24039fcf396a8c4e0704527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 15/23] fix: a move in a global command drops only the moved
 lines from its queue

---
 src/cmds.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index 44c28c6..4d1ab6f 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -192,8 +192,10 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
   spl1 ();
   if (done)
     {
-      a2 = get_line_node (succ, ed);
-      b2 = get_line_node (prec, ed);
+      a1 = get_line_node (succ, ed);
+      b1 = get_line_node (prec, ed);
+      if (ed->exec->global)
+        delete_global_nodes (b1->q_forw, a1, ed);
       ed->state->dot = to;
     }
   else if (!append_undo_node (UMOV, prec, succ, ed)
@@ -221,13 +223,15 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
           b1 = get_line_node (prec, ed);
         }
       a2 = b2->q_forw;
+
+      /* Before lines are moved, order of global queue is that of buffer. */
+      if (ed->exec->global)
+        delete_global_nodes (b1->q_forw, a1, ed);
       LINK_NODES (b2, b1->q_forw);
       LINK_NODES (a1->q_back, a2);
       LINK_NODES (b1, a1);
       ed->state->dot = after + (from > after ? to - from + 1 : 0);
     }
-  if (ed->exec->global)
-    delete_global_nodes (b2->q_forw, a2, ed);
   ed->state->is_modified = 1;
   spl0 ();
   return 0;
-- 
2.43.0


From 263801523de6536e0b13a5c1431b739ef40bbdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 16/23] fix: } is not a synonym of =

---
 src/exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 735e624..82f06d2 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -376,7 +376,8 @@ exec_command (ed_buffer_t *ed)
     case '#':
       return comment_cmd (ed);
     default:
-      return (c >= ED_KEY_FIRST ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
+      return (c >= ED_KEY_FIRST && c <= ED_KEY_FIRST + ED_KEY_MASK
+              ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
               : invalid_cmd (ed));
     }
 }
-- 
2.43.0


From a93a28bb2ce1ddcb94f47a013525ecbba7757d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 17/23] fix: empty insert into empty buffer does not set an
 address past its end

The current address was set to 1 with no lines in the buffer, after which
every command, including q, was rejected.
---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 82f06d2..3c58a78 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -802,7 +802,7 @@ i_cmd (ed_buffer_t *ed)
 
   /* Per SUSv4, 2013, empty insert sets dot to addressed line. */
   if (ed->state->dot == ed->exec->region->end - 1)
-    ed->state->dot = ed->exec->region->end;
+    ed->state->dot = min (ed->state->lines, ed->exec->region->end);
   return ed->display->io_f;
 }
 
-- 
2.43.0


From 4ecf97c22bca70134bf4d6c5f3a96ead463d2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 18/23] fix: e does not shorten the file list

After moving within the file list, `e file' replaced the list by its rest,
and the next list operation passed a pointer into the middle of the old one
to globfree().
---
 src/exec.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 3c58a78..656a1cc 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -485,7 +485,6 @@ E_cmd (ed_buffer_t *ed)
   off_t size = 0;
   size_t len = 0;
   char *fn = NULL;
-  int cx = 0;
   int cy = 0;
   int is_default = 0;
   int status = 0;               /* Return status */
@@ -505,7 +504,6 @@ E_cmd (ed_buffer_t *ed)
       return ERR;
     }
   SKIP_WHITESPACE (ed);
-  cx = *ed->input;
   FILE_NAME (fn, len, cy, 1, 0, ed);
 
   spl1 ();
@@ -523,7 +521,8 @@ E_cmd (ed_buffer_t *ed)
       return status;
     }
 
-  init_ed_command (cx != '\n', ed);
+  /* File list, if given, already set by file_glob (). */
+  init_ed_command (0, ed);
   init_ed_state (0, &ed->state[0]);
   init_ed_state (-1, &ed->state[1]);
   spl0 ();
-- 
2.43.0


From 338f370c6fafa96516bc74036f33ded489f64f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 19/23] fix: with -i, wn and wp move to another file

After saving the current file in place, main() lost the direction of the
move and appended the current file to the buffer again.
---
 src/main.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 8e5a92d..557242b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -393,9 +393,14 @@ top:
           if (!(ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL)))
             {
 # ifdef WANT_SCRIPT_FLAGS
-              if (ed->exec->opt & IN_PLACE
-                  && ((status = save_edit (status, ed)) < 0))
-                goto error;
+              if (ed->exec->opt & IN_PLACE)
+                {
+                  /* Keep direction for next_edit (). */
+                  c = status;
+                  if ((status = save_edit (status, ed)) < 0)
+                    goto error;
+                  status = c;
+                }
 # endif
 
               goto next;
-- 
2.43.0


From 9aa9b782156c82a2faf247bc4b02b50a70b4105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 20/23] fix: filter does not move the parent's buffer file
 offset

The process writing lines to the shell command shared its buffer file
offset with the editor, so that (in buffers larger than one stdio block)
text was then written to, and read from, the wrong place.
---
 src/aux.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aux.c b/src/aux.c
index 187027f..b8126e6 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -149,8 +149,11 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
        * Close unused pipe ends, then open and write to shell
        * process's standard input.
        */
+      ed->core->offset = -1;
       if (close (ip[0]) < 0 || close (op[0]) < 0
           || !(ipp = fdopen (ip[1], "w"))
+          /* Don't move buffer file offset shared with parent process. */
+          || !(ed->core->fp = fopen (ed->core->pathname, "r"))
           || (ed->exec->region->addrs
               && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
           || fclose (ipp) < 0)
-- 
2.43.0


From 2d7e8f957521d190dfff1264df3347dbc942fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 21/23] fix: empty template of newline-delimited s is
 remembered

Otherwise a following `%' template was rejected.
---
 src/sub.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sub.c b/src/sub.c
index 5943b1e..80b023f 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -208,6 +208,8 @@ substitution_rhs (off_t *s_nth, off_t *s_mod, unsigned *s_f,
   /* Newline-delimited pattern. */
   if ((dc = *ed->input) == '\n')
     {
+      REALLOC_THROW (tmpl, tmpl_size, 1, ERR, ed);
+      *tmpl = '\0';
       tmpl_i = 0;
       have_tmpl = 1;
       *sio_f = PRNT;
-- 
2.43.0


From 957c52bf53779a1c3fc234e81cf589b33f905dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 22/23] fix: writing to a shell command that stops reading is
 an error

SIGPIPE killed the editor, discarding the buffer and leaving its
temporary files.
---
 src/aux.c    |  1 +
 src/io.c     |  9 +++++----
 src/signal.c | 10 ++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/aux.c b/src/aux.c
index b8126e6..565d226 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -149,6 +149,7 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
        * Close unused pipe ends, then open and write to shell
        * process's standard input.
        */
+      signal (SIGPIPE, SIG_DFL);
       ed->core->offset = -1;
       if (close (ip[0]) < 0 || close (op[0]) < 0
           || !(ipp = fdopen (ip[1], "w"))
diff --git a/src/io.c b/src/io.c
index 34fcc4d..ec54b6b 100644
--- a/src/io.c
+++ b/src/io.c
@@ -691,14 +691,15 @@ write_pipe (const char *fn, off_t from, off_t to, off_t *addr,
       ed->exec->err = _("File open error");
       return ERR;
     }
-  if ((status = write_stream (fp, lp, n, size, ed)) < 0)
+  status = write_stream (fp, lp, n, size, ed);
+
+  /* Ignore "no child" error. */
+  pclose (fp);
+  if (status < 0)
     return status;
 
   /* Allow writing an empty buffer. */
   *addr = n;
-
-  /* Ignore "no child" error. */
-  pclose (fp);
   printf (ed->exec->opt & SCRIPTED ? "" : "!\n");
   return 0;
 }
diff --git a/src/signal.c b/src/signal.c
index 6929962..30b7d97 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -24,6 +24,7 @@ signal_t sighandler[NSIG];
 /* Static function declarations. */
 static void handle_hup (int);
 static void handle_int (int);
+static void handle_pipe (int);
 static void handle_winch (int);
 static signal_t reliable_signal (int, signal_t);
 
@@ -84,6 +85,14 @@ handle_int (int signo)
 }
 
 
+/* handle_pipe: Let write to closed pipe fail with EPIPE. Unlike SIG_IGN,
+   a handler is not inherited by shell commands. */
+static void
+handle_pipe (int signo)
+{
+}
+
+
 static void
 handle_winch (int signo)
 {
@@ -127,6 +136,7 @@ init_signal_handler (ed_buffer_t *ed)
       || reliable_signal (SIGHUP, signal_handler) == SIG_ERR
       || reliable_signal (SIGINT, signal_handler) == SIG_ERR
       || reliable_signal (SIGQUIT, SIG_IGN) == SIG_ERR
+      || reliable_signal (SIGPIPE, handle_pipe) == SIG_ERR
 #ifdef SIGWINCH
       || (isatty (0) && reliable_signal (SIGWINCH, signal_handler) == SIG_ERR)
 #endif
-- 
2.43.0


From 1f097b1a75798c3149001d31aa1ee5e015d62f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 23/23] fix: p and n misplaced a newline after a form feed that
 ends a line

When the form feed was on the last row of the frame buffer, the row
index wrapped and the line's newline went to the first row instead.
---
 src/page.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/page.c b/src/page.c
index 1b038fe..d87f4d2 100644
--- a/src/page.c
+++ b/src/page.c
@@ -615,9 +615,10 @@ put_frame_buffer_line (ed_line_node_t *lp, off_t addr,
           /*
            * As with cat(1), form feed (\f) does not force a new page,
            * only a new line. Any following text continues on the next
-           * line -- indented to the current column.
+           * line -- indented to the current column. At end of line,
+           * no text follows.
            */
-          if ((form_feed = (*s == '\f')))
+          if ((form_feed = (*s == '\f' && fb->rem_chars > 1)))
             inc_mod_fb_row (lp, addr, ed->display->io_f & ZBWD, fb, ed);
         }
       else
-- 
2.43.0

