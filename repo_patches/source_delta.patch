From a3ef8e4a7bbc391c2f81a22edfadbe87ad84d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:14 +0000
Subject: [PATCH 01/14] fix: cloog_domain_convex must not consume or modify its
 argument

isl_set_coalesce takes its argument; calling it on the caller's set handed the
caller's reference away and leaked the coalesced set.
---
 source/isl/domain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b928ff9..63e9272 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -135,8 +135,8 @@ CloogDomain * cloog_domain_copy(CloogDomain * domain)
 CloogDomain *cloog_domain_convex(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-  set = isl_set_coalesce(set);
-	set = isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(set)));
+	set = isl_set_coalesce(isl_set_copy(set));
+	set = isl_set_from_basic_set(isl_set_convex_hull(set));
 	return cloog_domain_from_isl_set(set);
 }
 
-- 
2.43.0


From f2ef496ec1a3e11c315620556270e9f8bba44acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:58 +0000
Subject: [PATCH 02/14] fix: release the bound in cloog_domain_can_unroll when
 not unrolling

---
 source/isl/domain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 63e9272..331b161 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2065,6 +2065,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
+		isl_val_free(ccu.n);
 		return 0;
 	}
 
-- 
2.43.0


From 9e32e07ca75fe22974302a84122b338d633f627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:58 +0000
Subject: [PATCH 03/14] fix: cloog_union_domain_add_domain takes its arguments
 even without a union domain

---
 source/union_domain.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/union_domain.c b/source/union_domain.c
index e36a02a..65901dc 100644
--- a/source/union_domain.c
+++ b/source/union_domain.c
@@ -81,8 +81,11 @@ CloogUnionDomain *cloog_union_domain_add_domain(CloogUnionDomain *ud,
 	CloogNamedDomainList *named;
 	int n;
 
-	if (!ud)
+	if (!ud) {
+		cloog_domain_free(domain);
+		cloog_scattering_free(scattering);
 		return NULL;
+	}
 
 	named = ALLOC(CloogNamedDomainList);
 	if (!named)
-- 
2.43.0


From c3277dd3691b280ef8af06ac8e248b7da5bb4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:36 +0000
Subject: [PATCH 04/14] fix: cloog_names_generate must initialise the reference
 count

---
 source/names.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/names.c b/source/names.c
index 914c736..97eb334 100644
--- a/source/names.c
+++ b/source/names.c
@@ -453,6 +453,7 @@ CloogNames * cloog_names_generate(
   if (names == NULL) 
     cloog_die("memory overflow.\n");
   
+  names->references    = 1;
   names->nb_scalars    = nb_scalars ;
   names->nb_scattering = nb_scattering ;
   names->nb_parameters = nb_parameters ;
-- 
2.43.0


From abbe41663154540f84833dddb124a4da7f3d5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 05/14] fix: separate the stride from the upper bound in
 FORTRAN loops

---
 source/pprint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 6d85a5d..17ee831 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -615,8 +615,10 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	cloog_die("unbounded loops not allowed in FORTRAN.\n");
 
     if (options->language == CLOOG_LANGUAGE_FORTRAN) {
-	if (cloog_int_gt_si(f->stride, 1))
+	if (cloog_int_gt_si(f->stride, 1)) {
+	    fprintf(dst, ", ");
 	    cloog_int_print(dst, f->stride);
+	}
 	fprintf(dst,"\n");
     }
     else {
-- 
2.43.0


From 7766e4d82f924098cbf0ed83bca1736d34964084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 06/14] fix: clast_filter visits assignments and blocks

---
 source/clast.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index 7283aa7..bbf4593 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -2104,6 +2104,28 @@ void clast_filter(struct clast_stmt *node,
         free(stmts_next);
     }
 
+    if (CLAST_STMT_IS_A(node, stmt_ass)) {
+        clast_filter(node->next, filter, loops, nloops, stmts, nstmts);
+    }
+
+    if (CLAST_STMT_IS_A(node, stmt_block)) {
+        struct clast_block *block = (struct clast_block *) node;
+        clast_filter(block->body, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+        clast_filter((block->stmt).next, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+    }
+
     if (CLAST_STMT_IS_A(node, stmt_user)) {
         struct clast_user_stmt *user_stmt = (struct clast_user_stmt *) node;
         // printf("user stmt: S%d\n", user_stmt->statement->number);
-- 
2.43.0


From ae7224167c0a7c5656a97d3950bd0bdfa2607eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 07/14] fix: reject option values that are not integers

---
 source/options.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/options.c b/source/options.c
index 2dccd2f..da26962 100644
--- a/source/options.c
+++ b/source/options.c
@@ -303,14 +303,13 @@ void cloog_options_version()
  * - June 29th 2003: (debug) lack of argument now detected.
  */
 void cloog_options_set(int * option, int argv, char ** argc, int * number)
-{ char ** endptr ;
+{ char * endptr ;
   
   if (*number+1 >= argv)
     cloog_die("an option lacks of argument.\n");
 
-  endptr = NULL ;
-  *option = strtol(argc[*number+1],endptr,10) ;
-  if (endptr != NULL)
+  *option = strtol(argc[*number+1],&endptr,10) ;
+  if (endptr == argc[*number+1] || *endptr != '\0')
     cloog_die("value '%s' for option '%s' is not valid.\n",
 	      argc[*number+1], argc[*number]);
   *number = *number + 1 ;
-- 
2.43.0


From 19ee0b1f9d66b43ac1c6085998d1ff7a1650f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 08/14] fix: stop at the end of a truncated input instead of
 looping for ever

---
 source/loop.c  | 8 ++++----
 source/names.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index a019ffa..b6664bb 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -368,10 +368,10 @@ CloogLoop *cloog_loop_read(CloogState *state,
   domain = cloog_domain_union_read(state, foo, nb_parameters);
     
   /* To read that stupid "0 0 0" line. */
-  while (fgets(s,MAX_STRING,foo) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3))
-    if (fgets(s, MAX_STRING, foo))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, foo))
+      cloog_die("Input error.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3));
 
   return cloog_loop_from_domain(state, domain, number);
 }
diff --git a/source/names.c b/source/names.c
index 97eb334..acff824 100644
--- a/source/names.c
+++ b/source/names.c
@@ -269,10 +269,10 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
   char s[MAX_STRING], str[MAX_STRING], * c, **names = NULL;
 
   /* We first read name option. */
-  while (fgets(s,MAX_STRING,file) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1))
-    if (fgets(s, MAX_STRING, file))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, file))
+      cloog_die("Input error.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1));
   
   /* If there is no item to read, then return NULL. */
   if (nb_items == 0)
-- 
2.43.0


From 3d10f12dce0f05241779a1dc900419aa3bb34d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 09/14] fix: names of any length can be read from the input

---
 source/names.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/source/names.c b/source/names.c
index acff824..e50c735 100644
--- a/source/names.c
+++ b/source/names.c
@@ -41,6 +41,7 @@
 # include <stdlib.h>
 # include <stdio.h>
 # include <ctype.h>
+# include <string.h>
 # include "../include/cloog/cloog.h"
 
 
@@ -286,12 +287,6 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
     names = (char **)malloc(nb_items*sizeof(char *)) ;
     if (names == NULL) 
       cloog_die("memory overflow.\n");
-    for (i=0;i<nb_items;i++)
-    { names[i] = (char *)malloc(MAX_NAME*sizeof(char)) ;
-      if (names[i] == NULL) 
-	cloog_die("memory overflow.\n");
-    }
-    
     do  /* Skip the comments, spaces and empty lines... */
     { c = fgets(s,MAX_STRING,file) ;
       while ((c != NULL) && isspace(*c) && (*c != '\n'))
@@ -310,7 +305,9 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
       /* n is strlen(str). */
       if (sscanf(c,"%s%n",str,&n) == 0) 
         cloog_die("no names in input file.\n");
-      sscanf(str,"%s",names[i]) ;
+      names[i] = strdup(str) ;
+      if (names[i] == NULL) 
+	cloog_die("memory overflow.\n");
       c += n ;
     }
   }
-- 
2.43.0


From 8b940f22f431208dbf470f04ba1bdd05b925831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 10/14] fix: report a matrix row with too few elements

---
 source/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/matrix.c b/source/matrix.c
index 0823e3c..54e2cdd 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -202,7 +202,7 @@ CloogMatrix *cloog_matrix_read_of_size(FILE *input,
 			cloog_die("Input error.\n");
 		for (j = 0; j < n_col; ++j) {
 			n = sscanf(p, "%s%n", val, &offset);
-			if (!n)
+			if (n < 1)
 				cloog_die("Input error.\n");
 			cloog_int_read(M->p[i][j], val);
 			p += offset;
-- 
2.43.0


From a95b21fb1bab9e579c48872a011ac34372b30698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 11/14] fix: end the use of the variable arguments in
 print_comment

---
 source/program.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/program.c b/source/program.c
index 40709b8..d451dfa 100644
--- a/source/program.c
+++ b/source/program.c
@@ -283,6 +283,7 @@ static void print_comment(FILE *file, CloogOptions *options,
     vfprintf(file, fmt, args);
     fprintf(file, " */\n");
   }
+  va_end(args);
 }
 
 static void print_macros(FILE *file)
-- 
2.43.0


From 67143da11c95c277252ffdeb8da2c8f0646e442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:51 +0000
Subject: [PATCH 12/14] fix: cloog_matrix_free and cloog_matrix_print accept a
 null matrix

---
 source/matrix.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/matrix.c b/source/matrix.c
index 54e2cdd..a124658 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -101,18 +101,20 @@ void cloog_matrix_free(CloogMatrix * matrix)
 {
   int i;
   cloog_int_t *p;
-  int size = matrix->NbRows * matrix->NbColumns;
+  int size;
 
+  if (!matrix)
+    return;
+
+  size = matrix->NbRows * matrix->NbColumns;
   p = matrix->p_Init;
 
   for (i = 0; i < size; i++)
     cloog_int_clear(*p++);
 
-  if (matrix) {
-    free(matrix->p_Init);
-    free(matrix->p);
-    free(matrix);
-  }
+  free(matrix->p_Init);
+  free(matrix->p);
+  free(matrix);
 }
 
 
@@ -142,8 +144,10 @@ void cloog_matrix_print_structure(FILE *file, CloogMatrix *M,
  */
 void cloog_matrix_print(FILE* foo, CloogMatrix* m)
 {
-  if (!m)
+  if (!m) {
     fprintf(foo, "(null)\n");
+    return;
+  }
 
   fprintf(foo, "%u %u\n", m->NbRows, m->NbColumns);
   cloog_matrix_print_structure(foo, m, "", "");
-- 
2.43.0


From 995b605872eaac092c6f9dd6fdfc728baa8130d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:27 +0000
Subject: [PATCH 13/14] fix: the help text states the real default of -esp

---
 source/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/options.c b/source/options.c
index da26962..01890e6 100644
--- a/source/options.c
+++ b/source/options.c
@@ -223,7 +223,7 @@ void cloog_options_help()
   "                        (default setting:  1).\n") ;
   printf(
   "  -esp <boolean>        Allow complex equalities spreading (1) or not (0)\n"
-  "                        (default setting:  0).\n");
+  "                        (default setting:  1).\n");
   printf(
   "  -fsp <level>          First level to begin the spreading\n"
   "                        (default setting:  1).\n"
-- 
2.43.0


From a64e007bd43fbf9737981fea3cb10d784e568fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:27 +0000
Subject: [PATCH 14/14] fix: cloog_names_print_structure accepts a null table

---
 source/names.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/names.c b/source/names.c
index e50c735..134479f 100644
--- a/source/names.c
+++ b/source/names.c
@@ -176,10 +176,10 @@ void cloog_names_print_structure(FILE * file, CloogNames * names, int level)
     else
     fprintf(file,"No parameters\n") ;
     
+    fprintf(file, "Number of active references: %d\n", names->references);
   }
   else
   fprintf(file,"+-- No CloogNames\n") ;
-  fprintf(file, "Number of active references: %d\n", names->references);
 }
 
 
-- 
2.43.0

