From 0709a12c61f80accb7126869ca3531383025889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 001/111] fix: FOR frees the block line it allocated with the
 matching destructor

---
 pbat/command/pBat_For.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 092cb61..0323aa9 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -356,7 +356,7 @@ error:
         *lpplLine = NULL;
 
 	if (!lpplLine && line)
-        pBat_FreeParsedStream(line);
+        pBat_FreeParsedLine(line);
 
 	return status;
 }
-- 
2.43.0


From 86321948df896cb05d9be9059785f34314604e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 002/111] fix: FOR releases the remaining file list when the
 loop is aborted

---
 pbat/command/pBat_For.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 0323aa9..aae6322 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -473,6 +473,10 @@ int pBat_CmdForSimple(ESTR* lpInput, PARSED_LINE* lpplLine, char cVarName,
 
 	}
 
+	/* files is only left over if the loop has been aborted */
+	if (files)
+		pBat_FreeFileList(files);
+
 	/* delete the special var */
 	pBat_SetLocalVar(lpvLocalVars, cVarName, NULL);
 	pBat_EsFree_Cached(lpesStr);
-- 
2.43.0


From c0260504bd1dc80f634a7dc108f8224da3917606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 003/111] fix: IF releases the comparison when the operator is
 invalid

---
 pbat/command/pBat_If.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 6bb22fc..723a0a2 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -295,6 +295,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
                 if (iResult == -1) {
 
                     /* there is a syntax error, obviously */
+                    pBat_EsFree_Cached(lpComparison);
                     return -1;
 
                 }
-- 
2.43.0


From da2e29f51f302a4e2f9d7ffda8c8e200efd0cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 004/111] fix: IF releases the line it allocates when an ELSE
 follows

---
 pbat/command/pBat_If.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 723a0a2..5a8a761 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -347,7 +347,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
         pBat_RunParsedLine(line);
 
-        if (!lpplLine)
+        if (!lpplLine || line != *lpplLine)
             pBat_FreeParsedLine(line);
 
     } else {
-- 
2.43.0


From e93eddb33194d99d26ac1fb7e6aa05e652e9b2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 005/111] fix: dump releases its buffers when one allocation
 fails and on read errors

---
 dump/dump.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index efcb24b..c65ebd0 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -214,7 +214,7 @@ int get_type(const char* type)
 
 int dump_fd(int fd, struct dump_t* context)
 {
-    char *chars, *data, *p, *addr = NULL, *spaces;
+    char *chars, *data = NULL, *p, *addr = NULL, *spaces;
     int count, i;
     size_t size = context->n * context->size;
 
@@ -222,6 +222,7 @@ int dump_fd(int fd, struct dump_t* context)
         || !(data = malloc(size))) {
 
         fprintf(stderr, "dump: not enough memory.\n");
+        free(chars);
         return -1;
 
     }
-- 
2.43.0


From 4cd863308383805552b493d4bbc91379283da800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 006/111] fix: gettext no longer leaks the catalogue path of a
 known domain

---
 microgettext/microgettext.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/microgettext/microgettext.c b/microgettext/microgettext.c
index 57f2f7f..e40ce20 100644
--- a/microgettext/microgettext.c
+++ b/microgettext/microgettext.c
@@ -593,7 +593,9 @@ const char* dcgettext(const char* restrict d, const char* restrict msg,
         /* load the content of the mo file */
         if (microgettext_load_mofile(item, moname))
             goto error;
-    }
+
+    } else
+        free(moname); /* the domain already owns a copy of its name */
 
     if ((i = microgettext_get_index(key, item->strings, item->nb,
                                      sizeof(char**), microgettext_strcmp)) != -1)
-- 
2.43.0


From 431cc785c2eade957767cad41223bf806abf6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 007/111] fix: COPY releases the whole list of matched files

---
 pbat/command/pBat_Copy.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 184b788..078182b 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -303,11 +303,13 @@ int pBat_CmdCopy(char* line)
     }
 
 
-    while (files) {
+    end = files;
+
+    while (end) {
 
-        status |= pBat_CmdCopyFile(files->lpFileName, file[len-1], &flags);
+        status |= pBat_CmdCopyFile(end->lpFileName, file[len-1], &flags);
 
-        files = files->lpflNext;
+        end = end->lpflNext;
     }
 
 end:
-- 
2.43.0


From 681de3983591657c8eaa9bdf261d221f616a177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 008/111] fix: MOD releases its path buffer

---
 pbat/command/pBat_Mod.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pbat/command/pBat_Mod.c b/pbat/command/pBat_Mod.c
index 79e0117..4485fc0 100644
--- a/pbat/command/pBat_Mod.c
+++ b/pbat/command/pBat_Mod.c
@@ -284,6 +284,7 @@ int pBat_CmdMod(char* line)
     ESTR* param = pBat_EsInit_Cached();
     char *path;
     int mode = LOUD, status = PBAT_NO_ERROR;
+
     line += 3;
 
     if (pBat_LockMutex(&mModLock))
@@ -291,15 +292,6 @@ int pBat_CmdMod(char* line)
                                __FILE__ "/pBat_CmdMod",
                                -1);
 
-    if ((path = malloc(FILENAME_MAX)) == NULL) {
-
-        pBat_ShowErrorMessage(PBAT_FAILED_ALLOCATION,
-                                __FILE__ "/pBat_CmdMod", 0);
-        status = PBAT_FAILED_ALLOCATION;
-        goto end;
-
-    }
-
     while (line = pBat_GetNextParameterEs(line, param)) {
 
         if (!stricmp(param->str, "/l")) {
-- 
2.43.0


From a3bdfb6c19021ae5d2232d64e423eca44812c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 009/111] fix: REN releases its parameter once the file is
 renamed

---
 pbat/command/pBat_Ren.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index 2077b36..fe7e8fc 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -116,6 +116,7 @@ int pBat_CmdRen(char* lpLine)
 
 			}
 
+			pBat_EsFree_Cached(lpEstr);
 			return 0;
 		}
 	}
-- 
2.43.0


From 162cdceaa1c27236d2f8c248acbe1dcd10f6c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 010/111] fix: REN leaves room for the terminator when building
 the new name

---
 pbat/command/pBat_Ren.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Ren.c b/pbat/command/pBat_Ren.c
index fe7e8fc..cf10e22 100644
--- a/pbat/command/pBat_Ren.c
+++ b/pbat/command/pBat_Ren.c
@@ -103,7 +103,7 @@ int pBat_CmdRen(char* lpLine)
 			}
 
 			/* cat with new name */
-			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest));
+			strncat(lpFileDest, pBat_EsToChar(lpEstr), FILENAME_MAX-strlen(lpFileDest)-1);
 			lpFileDest[FILENAME_MAX-1]='\0';
 			/* can't assume that what was buffered is NULL-terminated
 			   see the C-89,99,11 standards for further informations */
-- 
2.43.0


From b8f948553cb58b1fc0cfe4ab8e65950f7ee937e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 011/111] fix: RMDIR releases the directories already listed
 when a name does not match

---
 pbat/command/pBat_Rmdir.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index c8c9065..f0042de 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -173,6 +173,9 @@ int pBat_CmdRmdir(char* lpLine)
                                         FALSE);
                 status = PBAT_NO_MATCH;
 
+                if (files)
+                    pBat_FreeFileList(files);
+
                 goto end;
             }
 
-- 
2.43.0


From 8055c543b72eb8637a76660d09d913972f860722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 012/111] fix: RMDIR reports failure to remove a single
 directory

---
 pbat/command/pBat_Rmdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Rmdir.c b/pbat/command/pBat_Rmdir.c
index f0042de..3652db6 100644
--- a/pbat/command/pBat_Rmdir.c
+++ b/pbat/command/pBat_Rmdir.c
@@ -153,7 +153,7 @@ int pBat_CmdRmdir(char* lpLine)
 
         /* This is simple case where we just need to remove the dir */
         choice = PBAT_ASK_ALL;
-        pBat_CmdRmdirFile(name[0], param, &choice);
+        status = pBat_CmdRmdirFile(name[0], param, &choice);
 
     } else if (n == 0) {
 
-- 
2.43.0


From f4a882d855e89f87544bedb9a26e09cc4cfb921c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 013/111] fix: GOTO no longer leaks its line buffer on an empty
 label

---
 pbat/core/pBat_Jump.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index 29349be..bd24ccb 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -114,6 +114,7 @@ int pBat_JumpToLabel_Cmdly(char* lpLabelName, char* lpFileName)
 	}
 
     if (iSize == 1) {
+        pBat_EsFree_Cached(lpLine);
         return -1;
     }
 
-- 
2.43.0


From 59243a53e8d4eef6cf03134b81eb42282f3b37af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 014/111] fix: external commands release the command line on an
 empty command

---
 pbat/core/pBat_Run.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 63f51fc..a483631 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -605,9 +605,13 @@ int pBat_RunExternalCommand(char* lpCommandLine, int* error)
 
     size_t nb=0;
 
-    if ((list = pBat_GetParamList(lpCommandLine)) == NULL)
+    if ((list = pBat_GetParamList(lpCommandLine)) == NULL) {
+
+        pBat_EsFree_Cached(lpCmdLine);
         return 0;
 
+    }
+
     item = list;
 
     while (item) {
-- 
2.43.0


From 360750183acfdb3f7e64562327a1289ddbd4273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 015/111] fix: the break handler releases its argument string
 when exec fails

---
 pbat/core/pBat_Run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index a483631..9aaca53 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -894,6 +894,9 @@ void pBat_SigHandlerBreak(int sig)
     pBat_ApplyEnv(lpeEnv);
 
     execl(lppBatExec, lppBatExec, attr->str, NULL);
+
+    /* only reached if execl() failed */
+    pBat_EsFree_Cached(attr);
 }
 
 #elif defined WIN32
-- 
2.43.0


From 5608fd936b857f3178311bf81d5bba14c7d65c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 016/111] fix: FOR /F closes each input file before opening the
 next one

---
 pbat/command/pBat_For.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index aae6322..d40964a 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1440,7 +1440,6 @@ int pBat_ForGetInputLine(ESTR* lpReturn, INPUTINFO* lpipInfo)
 
 	int iReturn=0;
 	char* lpToken;
-	char name[FILENAME_MAX];
 
 loop_begin:
     iReturn=0;
@@ -1463,13 +1462,17 @@ retry:
                 }
 
                 /* if the file list is not finished, then, open the next file */
+                fclose(lpipInfo->Info.InputFile.pFile);
+
                 if (!(lpipInfo->Info.InputFile.pFile =
                         fopen(lpipInfo->Info.InputFile.lpesFiles[
                             		lpipInfo->Info.InputFile.index
                             	]->str, "rb"))) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            name,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                                lpipInfo->Info.InputFile.index
+                            ]->str,
                             FALSE
                             );
 
@@ -1568,7 +1571,9 @@ void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
 
 		case INPUTINFO_TYPE_STREAM:
 
-            fclose(lpipInfo->Info.InputFile.pFile);
+            /* the last file may have failed to open */
+            if (lpipInfo->Info.InputFile.pFile)
+                fclose(lpipInfo->Info.InputFile.pFile);
 
 			while(lpipInfo->Info.InputFile.lpesFiles[i] != NULL) {
 
-- 
2.43.0


From ccf79f73c2501f6f30e5adfd2adc57b2b23017a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 017/111] fix: FOR /F releases the file names when there is
 nothing to read

---
 pbat/command/pBat_For.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index d40964a..e89486e 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1189,7 +1189,7 @@ int pBat_ForMakeInputInfo(ESTR* lpInput, INPUTINFO* lpipInfo, FORINFO* lpfrInfo)
 	int bUsebackq=lpfrInfo->bUsebackq,
 	    iInputType,
 	    iPipeFd[2];
-    int status;
+    int status, i;
 
 	char *lpToken=pBat_EsToChar(lpInput);
 
@@ -1269,6 +1269,10 @@ int pBat_ForMakeInputInfo(ESTR* lpInput, INPUTINFO* lpipInfo, FORINFO* lpfrInfo)
 				pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
                                         lpToken,
                                         FALSE);
+
+                for (i = 0; lpipInfo->Info.InputFile.lpesFiles[i] != NULL; i++)
+                    pBat_EsFree_Cached(lpipInfo->Info.InputFile.lpesFiles[i]);
+
 				return PBAT_FILE_ERROR;
 
 			}
@@ -1545,13 +1549,9 @@ int pBat_ForInputParseFileList(FILE_LIST_T* lpList, ESTR* lpInput)
     lpList->lpesFiles[i] = NULL;
     lpList->index = 0;
 
-    if (!i)
-        return -1;
-
-
     pBat_EsFree_Cached(lpesStr);
 
-    return 0;
+    return i ? 0 : -1;
 }
 
 void pBat_ForCloseInputInfo(INPUTINFO* lpipInfo)
-- 
2.43.0


From 2cbfcf7f098b3a58e043d9debaf363dcb01c4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 018/111] fix: IF expressions: a leading AND/OR is an error,
 not a use after free

---
 pbat/command/pBat_IfExp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index cce9da2..c680c88 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -361,6 +361,8 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
         pBat_EsFree_Cached(line->op);
         free (line);
 
+        return 1;
+
     }
 
     if (EQUCHR(line->op->str, '['))
-- 
2.43.0


From 2eac36816cb1eb89e522fbb4ab4caf2da745fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 019/111] fix: IF expressions: only strip brackets that match

---
 pbat/command/pBat_IfExp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index c680c88..2cbabe0 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -334,6 +334,10 @@ int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line)
     }
 
 
+    /* the brackets do not match */
+    if (count != 0)
+        return 0;
+
     /* free the last bracket */
     prev->next = NULL;
     pBat_EsFree_Cached(ops->op);
-- 
2.43.0


From 59f59429c69d9c0f2c04c7741a4ff2eccc0d80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 020/111] fix: IF expressions: evaluate the right-hand side
 unless the left one decides

---
 pbat/command/pBat_IfExp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 2cbabe0..41c0dee 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -134,10 +134,10 @@ int pBat_IfExp_Evaluate(ifexp_t* exp, int flags)
 
     /* take a shortcut here, on some occasions you don't have to
        evaluate the left hand side of the expression */
-    if (exp->type == IFEXP_AND )
+    if (exp->type == IFEXP_AND) {
         if (!res1)
             return 0;
-    else if (res2)
+    } else if (res1)
         return 1;
 
     if (exp->child2.type == IFEXP_NODE_OPS) {
-- 
2.43.0


From 0dbbbe0659f7c45675d64ba1b264002f653d5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 021/111] fix: IF expressions: release everything parsed when
 the expression is invalid

---
 pbat/command/pBat_IfExp.c | 78 +++++++++++++++++++++------------------
 pbat/command/pBat_IfExp.h |  2 +-
 2 files changed, 43 insertions(+), 37 deletions(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 41c0dee..76fa5c9 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -61,7 +61,7 @@ void  _Dump_Line_t(ifexp_line_t* line)
 char * pBat_IfExp_Compute(char* line, int* ret, int flags)
 {
     ifexp_t* exp;
-    ifexp_line_t* lineexp, *linetmp;
+    ifexp_line_t* lineexp;
 
     line = pBat_IfExp_ParseLine(line, &lineexp);
 
@@ -72,8 +72,6 @@ char * pBat_IfExp_Compute(char* line, int* ret, int flags)
 
     }
 
-    linetmp = lineexp;
-
     exp = pBat_IfExp_Parse(lineexp);
 
     if (exp == NULL) {
@@ -225,8 +223,8 @@ int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags)
 
 ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
 {
-    ifexp_line_t * rhs;
-    ifexp_t* exp;
+    ifexp_line_t * rhs = NULL;
+    ifexp_t* exp = NULL;
 
 
     pBat_IfExp_SuppressBrackets(&line);
@@ -235,59 +233,65 @@ ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line)
         return NULL;
 
     if (!(exp = malloc(sizeof(ifexp_t))))
-        return NULL;
+        goto error;
 
     if (pBat_IfExp_Cut("AND", &line, &rhs)) {
 
-        if (line == NULL || rhs == NULL)
-            goto error;
-
         exp->type = IFEXP_AND;
 
-        pBat_IfExp_FillChild(&(exp->child1), line);
-        pBat_IfExp_FillChild(&(exp->child2), rhs);
-
-
     } else if (pBat_IfExp_Cut("OR", &line, &rhs)) {
 
-        if (line == NULL || rhs == NULL)
-            goto error;
-
         exp->type = IFEXP_OR;
 
-        pBat_IfExp_FillChild(&(exp->child1), line);
-        pBat_IfExp_FillChild(&(exp->child2), rhs);
-
     } else {
 
         exp->type = IFEXP_NONE;
         exp->child1.type = IFEXP_NODE_OPS;
         exp->child1.child.ops = line;
 
+        return exp;
+
+    }
+
+    if (line == NULL || rhs == NULL)
+        goto error;
+
+    if (pBat_IfExp_FillChild(&(exp->child1), line)) {
+
+        /* line has already been freed */
+        line = NULL;
+        goto error;
+
+    }
+
+    if (pBat_IfExp_FillChild(&(exp->child2), rhs)) {
+
+        pBat_IfExp_Free(exp->child1.child.exp);
+        free(exp);
+        return NULL;
+
     }
 
     return exp;
 
 error:
+    pBat_IfExp_FreeLine(line);
+    pBat_IfExp_FreeLine(rhs);
     free(exp);
     return NULL;
 }
 
-void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
+/* Returns a non-zero value, and frees line, if line is not a valid
+   expression */
+int pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line)
 {
 
-    pBat_IfExp_SuppressBrackets(&line);
-
-    if ((child->child.exp = pBat_IfExp_Parse(line))) {
-
-        child->type = IFEXP_NODE_EXP;
-
-    } else {
+    if (!(child->child.exp = pBat_IfExp_Parse(line)))
+        return -1;
 
-        child->child.ops = line;
-        child->type = IFEXP_NODE_OPS;
+    child->type = IFEXP_NODE_EXP;
 
-    }
+    return 0;
 
 }
 
@@ -417,20 +421,22 @@ char * pBat_IfExp_ParseLine(char* line, ifexp_line_t** ops)
 
         }
 
-        if (pBat_IfExp_AddLineElement(str, &ret, &last)) {
-            pBat_IfExp_FreeLine(ret);
-            return NULL;
-        }
+        if (pBat_IfExp_AddLineElement(str, &ret, &last))
+            break;
 
         if (level <= 0) {
-            break;
+            *ops = ret;
+            return line;
         }
 
         str = pBat_EsInit_Cached();
 
     }
 
-    *ops = ret;
+    /* either the brackets do not match, or we ran out of memory */
+    pBat_EsFree_Cached(str);
+    pBat_IfExp_FreeLine(ret);
+    *ops = NULL;
 
     return line;
 }
diff --git a/pbat/command/pBat_IfExp.h b/pbat/command/pBat_IfExp.h
index da487c7..1b6ec63 100644
--- a/pbat/command/pBat_IfExp.h
+++ b/pbat/command/pBat_IfExp.h
@@ -70,7 +70,7 @@ char * pBat_IfExp_Compute(char* line, int* ret, int flags);
 int pBat_IfExp_Evaluate(ifexp_t* exp, int flags);
 int pBat_IfExp_ExecuteTest(ifexp_line_t* test, int flags);
 ifexp_t* pBat_IfExp_Parse(ifexp_line_t* line);
-void pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line);
+int pBat_IfExp_FillChild(ifexp_child_t* child, ifexp_line_t* line);
 void pBat_IfExp_SuppressBrackets(ifexp_line_t** line);
 int pBat_IfExp_SuppressOneBracketPair(ifexp_line_t** line);
 int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end);
-- 
2.43.0


From 7effada05a9d763aa5033ad4b7ee442082411311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 022/111] fix: a path made absolute is no longer read from a
 reallocated buffer

---
 pbat/core/pBat_FilePath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 3cd435a..46b332c 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -157,6 +157,9 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
                                             PBAT_PRINT_C_ERROR,
                                             __FILE__ "/pBat_EsToFullPath()",
                                             -1);
+
+        /* the translated path may be part of the buffer that just moved */
+        p = TRANS(full->str);
     }
 
     memmove(full->str + size + 1, p, len);
-- 
2.43.0


From ec6ced0345bd07df059c19c9133146dba8f0204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 023/111] fix: root paths made absolute keep their drive letter

---
 pbat/core/pBat_FilePath.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_FilePath.c b/pbat/core/pBat_FilePath.c
index 46b332c..fda0d2f 100644
--- a/pbat/core/pBat_FilePath.c
+++ b/pbat/core/pBat_FilePath.c
@@ -132,11 +132,13 @@ __inline__ char* pBat_EsToFullPath(ESTR* full)
                                             __FILE__ "/pBat_EsToFullPath()",
                                             -1);
 
+                p = TRANS(full->str);
+
             }
 
             memmove(full->str + 2, p, len);
             *(full->str) = *lpCurrentDir;
-            *(full->str) = ':';
+            *(full->str + 1) = ':';
 
         }
 #endif // WIN32
-- 
2.43.0


From 947005aa5b9323d0fdf35d05be7854dd07d352e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 024/111] fix: the line editor frees the lines it read

---
 pbat/linenoise/pBat_LineNoise.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/linenoise/pBat_LineNoise.c b/pbat/linenoise/pBat_LineNoise.c
index 4761dfd..d603476 100644
--- a/pbat/linenoise/pBat_LineNoise.c
+++ b/pbat/linenoise/pBat_LineNoise.c
@@ -57,6 +57,7 @@ int pBat_LineNoise(ESTR* estr, FILE* pFile)
 
 
     pBat_EsCpy(estr, line);
+    free(line);
 
     return 0;
 }
-- 
2.43.0


From 6d6c19eed82ade51ee829758f91a3151773aba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 025/111] fix: tea releases its buffers when the page can not
 be opened

---
 tea/src/Tea_Load.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tea/src/Tea_Load.c b/tea/src/Tea_Load.c
index ea4e9b7..0f557d7 100644
--- a/tea/src/Tea_Load.c
+++ b/tea/src/Tea_Load.c
@@ -40,7 +40,13 @@ TEAPAGE*    Tea_PageLoad(const char* lpFilename, LP_PARSE_HANDLER pHandler)
 	int iFirstline=1;
 
 	/* ouverture du fichier */
-	if (!(pFile=fopen(lpFilename, "r"))) return NULL;
+	if (!(pFile=fopen(lpFilename, "r"))) {
+
+		pBat_EsFree(lpEstr);
+		pBat_EsFree(lpTotalFile);
+		return NULL;
+
+	}
 
 	/* r�cup�ration de tout le contenu du fichier */
 	while (!(pBat_EsGet(lpEstr, pFile))) {
-- 
2.43.0


From 916669f2604cf36cc5250a4cd73621a5e7542792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 026/111] fix: tea closes the header and footer files

---
 tea/src/out/tea_html_out.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tea/src/out/tea_html_out.c b/tea/src/out/tea_html_out.c
index e501133..cd8136c 100644
--- a/tea/src/out/tea_html_out.c
+++ b/tea/src/out/tea_html_out.c
@@ -467,6 +467,7 @@ void Tea_HtmlLoadFile(ESTR* lpEsReturn, char* lpFileName)
 	}
 
 
+	fclose(pFile);
 	pBat_EsFree(lpEsTmp);
 
 }
-- 
2.43.0


From b39d37530b32bc870f11bb3556df7bf63f586e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 027/111] fix: a confirmation starts from a defined answer and
 complains on the command error stream

---
 pbat/command/pBat_Ask.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index cfa28f9..3b9ab8b 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -90,7 +90,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 	const char *lpChoices=NULL;
 	/* char *lpLf; */
 
-	int iRet;
+	int iRet=0;
 	char lpInput[30];
 
 	if (iFlags & PBAT_ASK_YNA) {
@@ -191,7 +191,7 @@ int pBat_AskConfirmation(int iFlags, void(*lpFn)(char*,size_t),  const char* lpM
 
 			} else {
 
-				fputs(lpAskInvalid, stderr);
+				fputs(lpAskInvalid, fError);
 
 			}
 
-- 
2.43.0


From ce23f8cec04574a9564cac7584d6e138f245a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 028/111] fix: MORE does not close a file it failed to open

---
 pbat/command/pBat_More.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 8dabdb0..90e7194 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -257,9 +257,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
                                     FALSE
                                     );
 
-            status = PBAT_FILE_ERROR;
-
-            goto end;
+            return PBAT_FILE_ERROR;
         }
 
      } else {
-- 
2.43.0


From 23bf58f5a8c30b0a24768cd7f057b4b5fa5d095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 029/111] fix: MORE starts with a full page of lines

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 90e7194..ea3e4de 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -246,7 +246,7 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
     /* char buf[80]; */
     int status=0,
         ok=1,
-        toprint;
+        toprint = 23;
 
     if (filename) {
 
-- 
2.43.0


From 22f6b22fd1a0001f1ddd482726de75495d23513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 030/111] fix: completion lists do not use an undefined answer
 nor divide by zero

---
 pbat/core/pBat_Completion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index 3f5da4d..19390b7 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -94,7 +94,7 @@ void pBat_PrintCompletionList(FILELIST* files)
     char *name, *pch;
     size_t count, max = 0, cols=80;
     FILELIST *item = files;
-    int ok;
+    int ok = PBAT_ASK_INVALID;
 
 #ifdef WIN32
     cols = pBat_CompletionGetCols();
@@ -145,7 +145,7 @@ void pBat_PrintCompletionList(FILELIST* files)
 
     }
 
-    if (max > cols) {
+    if (max >= cols) {
         /* some utterly lengthy filename is messing with us
            apparently */
 
-- 
2.43.0


From 8f28b161ad12607341cf634a322f5dec6ea4934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 031/111] fix: completion does not store a substitution nobody
 asked for

---
 pbat/core/pBat_Completion.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index 19390b7..ceaceb0 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -230,7 +230,9 @@ void pBat_CompletionHandler(const char* in, const char** subst)
                                     PBAT_SEARCH_DEFAULT
                                     | PBAT_SEARCH_NO_PSEUDO_DIR)) == NULL) {
 
-        *subst = NULL;
+        if (subst)
+            *subst = NULL;
+
         goto end;
 
     }
-- 
2.43.0


From 46ce43b26d26410c1d41c33a2037806c91ed1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 032/111] fix: dump stops on read errors

---
 dump/dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump/dump.c b/dump/dump.c
index c65ebd0..6b11348 100644
--- a/dump/dump.c
+++ b/dump/dump.c
@@ -229,7 +229,7 @@ int dump_fd(int fd, struct dump_t* context)
 
     spaces = (context->flags & DUMP_QUIET) ? "" : " ";
 
-    while ((count = read(fd, data, size))) {
+    while ((count = read(fd, data, size)) > 0) {
 
         if (count < size) {
              /* we reached eof and count is not a multiple of the
-- 
2.43.0


From 53170952a3dee47ef2eaaa7716e11fbe4797bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 033/111] fix: a failed command registration no longer leaves
 dangling nodes in the command tree

---
 libpbat/cmdlist/pBat_CmdList.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libpbat/cmdlist/pBat_CmdList.c b/libpbat/cmdlist/pBat_CmdList.c
index 7963c12..f3f2de0 100644
--- a/libpbat/cmdlist/pBat_CmdList.c
+++ b/libpbat/cmdlist/pBat_CmdList.c
@@ -79,6 +79,8 @@ LIBPBAT int pBat_AddCommandDynamic(LPCOMMANDINFO lpciCommandInfo,
 
                     free(lpclList->lpclRightRoot);
 
+                    lpclList->lpclRightRoot=NULL;
+
                     return -1;
 
                 }
@@ -95,13 +97,15 @@ LIBPBAT int pBat_AddCommandDynamic(LPCOMMANDINFO lpciCommandInfo,
 
                 lpclList->lpclLeftRoot=malloc(sizeof(COMMANDLIST));
 
-                if (!lpclList)
+                if (!lpclList->lpclLeftRoot)
                     return -1;
 
                 if ((_pBat_FillCommandList(lpclList->lpclLeftRoot, lpciCommandInfo))) {
 
                     free(lpclList->lpclLeftRoot);
 
+                    lpclList->lpclLeftRoot=NULL;
+
                     return -1;
 
                 }
-- 
2.43.0


From 6e36d73ea9f4711847218a5b831dab38d1d0c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 034/111] fix: WC leaves on a read error instead of looping or
 leaking, and closes what it opened

---
 pbat/command/pBat_Wc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8c882cd..349ba5c 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -147,7 +147,7 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
 
     /* Wait ... Fool, were you just about to close a file that could refer
        to stdin ? double check it's not so before closing the file */
-    if (fd != fileno(fInput)) {
+    if (file != NULL) {
         close(fd);
     } else if (isatty(fileno(fInput))) {
         clearerr(fInput);
-- 
2.43.0


From d1a066e537fb42909f258f740bb76faaef31198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 035/111] fix: TYPE keeps track of its output buffer and of the
 whole file list

---
 pbat/command/pBat_Type.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 87af0ff..cde4ea2 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -146,6 +146,9 @@ int pBat_CmdType(char* lpLine)
             else
                 pEnd->lpflNext = pTmp; /* catenate the lists */
 
+            while (pEnd->lpflNext)
+                pEnd = pEnd->lpflNext;
+
         }
 
     }
@@ -207,7 +210,7 @@ int pBat_CmdType(char* lpLine)
 
 end:
 
-    if (isatty(fileno(fOutput))) {
+    if (buf) {
 
         fflush(fOutput);
         setvbuf(fOutput, NULL, _IONBF, 0);
-- 
2.43.0


From 0634ece1603d3783c61632f2d0f1e4eb4f11b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 036/111] fix: copying the directory stack does not write
 through a NULL destination and frees the paths it copied

---
 pbat/core/pBat_DirStack.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_DirStack.c b/pbat/core/pBat_DirStack.c
index 627f824..7e72002 100644
--- a/pbat/core/pBat_DirStack.c
+++ b/pbat/core/pBat_DirStack.c
@@ -98,10 +98,8 @@ bool pBat_DirStackCopy(struct dirstack_t *dest)
 
   PBAT_DBG("pBat_DirStackCopy(): Copying DirStack to %p", dest);
 
-  if (dest == NULL) {
-    memset(dest, 0, sizeof(struct dirstack_t)); /* NOTE */
+  if (dest == NULL)
     return true;
-  }
 
   dest->paths = malloc(dsDirStack.count * sizeof(char *));
   dest->count = dsDirStack.count;
@@ -122,7 +120,7 @@ bool pBat_DirStackCopy(struct dirstack_t *dest)
 
       /* We need to free all allocated paths, from 0 to i-1. */
       for (size_t j = 0; j < i; j++)
-        free(dest->paths[i]);
+        free(dest->paths[j]);
 
       free(dest->paths);
 
-- 
2.43.0


From d9d77c582436e74a214430a253de6c15caf4d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 037/111] fix: environment variables are removed with unsetenv,
 setenv does not take NULL

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index f598f00..73de58e 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -431,7 +431,7 @@ void pBat_UnApplyEnv(ENVBUF* pEnv)
             continue;
 
         #if !defined(WIN32)
-        setenv(pEnv->envbuf[i]->name, NULL, 1);
+        unsetenv(pEnv->envbuf[i]->name);
         #elif defined(WIN32)
         SetEnvironmentVariable(pEnv->envbuf[i]->name,
                                             NULL);
-- 
2.43.0


From 059060ab31d4bb519393ba2d784d5a342e7bf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 038/111] fix: IF does not read through an empty expression

---
 pbat/command/pBat_IfExp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_IfExp.c b/pbat/command/pBat_IfExp.c
index 76fa5c9..6f611ba 100644
--- a/pbat/command/pBat_IfExp.c
+++ b/pbat/command/pBat_IfExp.c
@@ -361,7 +361,10 @@ int pBat_IfExp_Cut(char* tok, ifexp_line_t** begin, ifexp_line_t** end)
     ifexp_line_t * line = *begin;
     int level = 0;
 
-    if (line && !stricmp(line->op->str, tok)) {
+    if (line == NULL)
+        return 0;
+
+    if (!stricmp(line->op->str, tok)) {
 
         *begin = NULL;
         *end = line->next;
-- 
2.43.0


From f1aca1a5a45687a81acc4d4b0546edf6f50e5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 039/111] fix: the script size query always sets its error flag

---
 pbat/core/pBat_ReadScript.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index b187949..e59d0fa 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -126,6 +126,8 @@ __inline__ size_t pBat_GetScriptSize(struct batch_script_t* script, int* restric
 {
     struct stat st;
 
+    *err = 0;
+
     if (stat(script->name, &st) == 0)
         return st.st_size;
 
-- 
2.43.0


From 80a84870dc488aa84a2b1e49fb1ed0162bd20774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 040/111] fix: variable modifiers on a missing file expand to
 blanks instead of stack contents

---
 pbat/core/pBat_Var.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index fff0263..f6e33d3 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -498,7 +498,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             lpPos=pBat_EsToFullPath(lpRecieve);
 
 
-		stat(lpRecieve->str, &stFileInfo);
+		if (stat(lpRecieve->str, &stFileInfo) == -1)
+            memset(&stFileInfo, 0, sizeof(stFileInfo));
 
 #if defined WIN32
 		stFileInfo.st_mode=GetFileAttributes(lpRecieve->str);
-- 
2.43.0


From bcb9937b679491a1eec5603150105bba8617c77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 041/111] fix: pBat_EsCacheBuild returns a value and reports on
 the interpreter error stream

---
 pbat/core/pBat_EsCache.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_EsCache.c b/pbat/core/pBat_EsCache.c
index 89007c4..eb6b288 100644
--- a/pbat/core/pBat_EsCache.c
+++ b/pbat/core/pBat_EsCache.c
@@ -55,9 +55,11 @@ int pBat_EsCacheBuild(ESTRCACHE *lpecCache)
          it will not prevent us to build the cache but those cache entries will
          be unusable.
       */
-      printf("Warning: Failed to build EsCache[%zu]\n", i);
+      fprintf(fError, "Warning: Failed to build EsCache[%zu]\n", i);
     }
   }
+
+  return 0;
 }
 
 void pBat_EsCacheDrop(ESTRCACHE *lpecCache)
-- 
2.43.0


From 1a0c9154a30ee7458b80cc7dbcb747cc4b2a5ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 042/111] fix: tea: text paragraphs with empty or NULL content

---
 tea/src/out/tea_text_out.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tea/src/out/tea_text_out.c b/tea/src/out/tea_text_out.c
index 1dbd63f..12ee2a1 100644
--- a/tea/src/out/tea_text_out.c
+++ b/tea/src/out/tea_text_out.c
@@ -128,8 +128,8 @@ void Tea_TextOutputStaticBlock(size_t iMargin, size_t iNewLineMargin, size_t iLe
 
 void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength, TEANODE* lpTeaNode, char* lpNl, FILE* pFile)
 {
-	size_t iLeft,
-	       iLeftNl;
+	size_t iLeft=iLength,
+	       iLeftNl=iLength;
 	int    bFirstLine=TRUE;
 	int    iNoMargin=FALSE;
 	char   *lpBlock,
@@ -178,14 +178,14 @@ void Tea_TextOutputParagraph(size_t iMargin, size_t iFirstLine, size_t iLength,
 
 			lpBlock=Tea_OutputLineT(lpBlock, pFile, lpTeaNode, &iLeft);
 
-			if (iLeftNl==iLeft) {
+			if (lpBlock && iLeftNl==iLeft) {
 
 				/* if nothing has been written since we wrote the
 				   last line, it should be that the world is to
 				   long too fit in a single line, thus, we should try
 				   to split it in various lines */
 
-				while (iLeft) {
+				while (iLeft && *lpBlock) {
 
 					lpNext=pBat_GetNextChar(lpBlock);
 
-- 
2.43.0


From 00a7d1df21739c136706a67d531b51546ddeff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 043/111] fix: redirections close the newly opened descriptor
 in every case

---
 pbat/core/pBat_Stream.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_Stream.c b/pbat/core/pBat_Stream.c
index 5f62265..998a194 100644
--- a/pbat/core/pBat_Stream.c
+++ b/pbat/core/pBat_Stream.c
@@ -126,21 +126,18 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     case PBAT_STDIN:
         PBAT_XDUP(item->oldfd, fInput);
         PBAT_DUP_STDIN(newfd, fInput);
-        close(newfd);
         break;
 
     case PBAT_STDOUT:
         PBAT_XDUP(item->oldfd, _fOutput);
         PBAT_DUP_STD(newfd, _fOutput);
         fOutput = _fOutput;
-        close(newfd);
         break;
 
     case PBAT_STDERR:
         PBAT_XDUP(item->oldfd, _fError);
         PBAT_DUP_STD(newfd, _fError);
         fError = _fError;
-        close(newfd);
         break;
 
     case PBAT_STDERR | PBAT_STDOUT:
@@ -149,6 +146,8 @@ STREAMSTACK* pBat_OpenOutput(STREAMSTACK* stack, char* name, int fd, int mode)
     default:;
     }
 
+    close(newfd);
+
 error:
     PBAT_RUNFILE_RELEASE();
     return item;
-- 
2.43.0


From 094ba7b87ea471ecd74b1840e3d52496773826f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 044/111] fix: TYPE's buffer pointer starts unset

---
 pbat/command/pBat_Type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index cde4ea2..9230a71 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -95,7 +95,7 @@ int pBat_CmdType(char* lpLine)
              *pEnd;
 
     int status=0, nSize;
-    char *buf;
+    char *buf = NULL;
 
 
     lpLine += 4;
-- 
2.43.0


From ff6bfc2d844bc15d30afe81673e0f50ece49e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 045/111] fix: FOR and IF release the line they built
 themselves when the caller holds none

---
 pbat/command/pBat_For.c | 6 +++---
 pbat/command/pBat_If.c  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index e89486e..ee31bc0 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -351,13 +351,13 @@ error:
 	pBat_EsFree_Cached(lpDirectory);
 	pBat_EsFree_Cached(lpInputBlock);
 
+	if (line && (!lpplLine || line != *lpplLine))
+        pBat_FreeParsedLine(line);
+
 	/* we already swallowed everything */
     if (lpplLine)
         *lpplLine = NULL;
 
-	if (!lpplLine && line)
-        pBat_FreeParsedLine(line);
-
 	return status;
 }
 
diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index 5a8a761..c741401 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -400,7 +400,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 
                     pBat_RunParsedLine(line);
 
-                    if (!lpplLine)
+                    if (!lpplLine || line != *lpplLine)
                         pBat_FreeParsedLine(line);
 
                 }
-- 
2.43.0


From 0934afae76280912d44f196efacaca75c6c29834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 046/111] fix: FIND does not close a file it could not open

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index a58cfa4..b3a3bcf 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -150,7 +150,7 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
 
 end:
     pBat_EsFree_Cached(lpEsLine);
-    if (name)
+    if (name && pFile)
         fclose(pFile); /* do no close stdin, please */
     else if (isatty(fileno(fInput)))
         clearerr(fInput);
-- 
2.43.0


From dd4411eb27302e32782d0ee8f9530014ce246c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 047/111] fix: file information used by %~ modifiers is always
 initialised

---
 pbat/core/pBat_Var.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Var.c b/pbat/core/pBat_Var.c
index f6e33d3..f103e6c 100644
--- a/pbat/core/pBat_Var.c
+++ b/pbat/core/pBat_Var.c
@@ -383,6 +383,8 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
 
 	int i=0, j=0;
 
+	memset(&stFileInfo, 0, sizeof(stFileInfo));
+
     *pBat_EsToChar(lpRecieve) = '\0';
 
 	if (*lpName!='~') {
@@ -498,8 +500,7 @@ char* pBat_GetLocalVar(LOCAL_VAR_BLOCK* lpvBlock, char* lpName, ESTR* lpRecieve)
             lpPos=pBat_EsToFullPath(lpRecieve);
 
 
-		if (stat(lpRecieve->str, &stFileInfo) == -1)
-            memset(&stFileInfo, 0, sizeof(stFileInfo));
+		stat(lpRecieve->str, &stFileInfo);
 
 #if defined WIN32
 		stFileInfo.st_mode=GetFileAttributes(lpRecieve->str);
-- 
2.43.0


From 006f0018f3801575db3311f5b10ba13e3e724615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 048/111] fix: libcu8 spawn functions release what they built,
 and only that

---
 libcu8/src/spawn.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/libcu8/src/spawn.c b/libcu8/src/spawn.c
index ef0d3cf..38f1c94 100644
--- a/libcu8/src/spawn.c
+++ b/libcu8/src/spawn.c
@@ -135,7 +135,7 @@ __LIBCU8__IMP __cdecl intptr_t libcu8_spawnv(int mode, const char* file,
 __LIBCU8__IMP __cdecl intptr_t libcu8_spawnve(int mode, const char* file,
                             const char* const *argv, const char *const *envp)
 {
-    wchar_t *wfile, **wargv;
+    wchar_t *wfile = NULL, **wargv;
     size_t cvt;
     int i=0, j=0, ret;
 
@@ -173,9 +173,8 @@ error :
     if (wfile)
         free(wfile);
 
-    if (j)
-        for (i = 0; i < j; j++)
-            free(argv[i]);
+    for (i = 0; i < j; i++)
+        free(wargv[i]);
 
     free(wargv);
 
@@ -192,7 +191,7 @@ __LIBCU8__IMP __cdecl intptr_t libcu8_spawnvpe(int mode, const char* file,
                                                     const char* const *argv,
                                                     const char *const *envp)
 {
-    wchar_t *wfile, **wargv;
+    wchar_t *wfile = NULL, **wargv;
     size_t cvt;
     int i=0, j=0, ret;
 
@@ -230,10 +229,10 @@ error :
     if (wfile)
         free(wfile);
 
-    if (j)
-        for (i = 0; i < j; j++)
-            free(argv[i]);
+    for (i = 0; i < j; i++)
+        free(wargv[i]);
 
+    free(wargv);
 
     return -1;
 }
-- 
2.43.0


From a944ad059937f09c43840fe14debab8d66b5490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 049/111] fix: libcu8_opendir releases the converted name and
 the search handle

---
 libcu8/src/dirent.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libcu8/src/dirent.c b/libcu8/src/dirent.c
index 77d97b3..1a0581c 100644
--- a/libcu8/src/dirent.c
+++ b/libcu8/src/dirent.c
@@ -109,7 +109,7 @@ __LIBCU8__IMP __cdecl DIR* libcu8_opendir(const char* dir)
             (wcslen(data.cFileName)+1)*sizeof(wchar_t), &conv)) == NULL ) {
 
         errno = ENOMEM;
-        CloseHandle(handle);
+        FindClose(handle);
         return NULL;
 
     }
@@ -119,7 +119,8 @@ __LIBCU8__IMP __cdecl DIR* libcu8_opendir(const char* dir)
 
         /* failed to alloc a DIR structure */
         errno = ENOMEM;
-        CloseHandle(handle);
+        free(exp);
+        FindClose(handle);
         return NULL;
 
     }
-- 
2.43.0


From 829aed063bc74370c76f064cce9a8f47e60334d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 050/111] fix: libcu8_convert copies no more than the source
 and releases its joined buffer

---
 libcu8/src/encoding.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libcu8/src/encoding.c b/libcu8/src/encoding.c
index 39cfcaa..9a4a4a9 100644
--- a/libcu8/src/encoding.c
+++ b/libcu8/src/encoding.c
@@ -265,7 +265,7 @@ __LIBCU8__IMP __cdecl char* libcu8_convert(int mode, const char* src,
             return NULL;
 
         memcpy(tmp, remainder, *rcount);
-        memcpy(tmp + *rcount, src, size);
+        memcpy(tmp + *rcount, src, size - *rcount);
         *rcount = 0;
 
         src = tmp;
@@ -350,6 +350,8 @@ next:
         iconv_close(context);
         if (ret)
             free(ret);
+        if (tmp)
+            free(tmp);
         return NULL;
 
     }
@@ -358,6 +360,9 @@ next:
 
     iconv_close(context);
 
+    if (tmp)
+        free(tmp);
+
     return ret;
 
 }
-- 
2.43.0


From ba651600e53559455239e33398e360562f72f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 051/111] fix: libcu8_get_argv releases what it converted so
 far when a conversion fails

---
 libcu8/src/init.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libcu8/src/init.c b/libcu8/src/init.c
index 0dcdda7..75cacce 100644
--- a/libcu8/src/init.c
+++ b/libcu8/src/init.c
@@ -178,6 +178,11 @@ int libcu8_get_argv(const char*** pargv)
         if (!(argv[i] = libcu8_xconvert(LIBCU8_FROM_U16, (char*)wargv[i],
                                 (wcslen(wargv[i])+1)*sizeof(wchar_t), &converted))) {
 
+            while (i > 0)
+                free(argv[-- i]);
+
+            free(argv);
+
             return -1;
 
         }
-- 
2.43.0


From bafe22ae3144e561cb0a7d0b096b7353cdece337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 052/111] fix: libcu8_get_console_wchar stores through its
 output argument consistently

---
 libcu8/src/read.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index 05a5262..c859982 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -858,8 +858,7 @@ int libcu8_get_console_wchar(void* handle, wchar_t* wc, int* vk)
     if (vk)
         *vk = 0; /* reset vk */
 
-    if (wc)
-        *wc = 0;
+    *wc = 0;
 
     while (1) {
 
-- 
2.43.0


From b4f55f5d255d81e205ce587666c2ba2d70a1972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 053/111] fix: libcu8_vfprintf returns an error when nothing
 was printed

---
 libcu8/src/write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcu8/src/write.c b/libcu8/src/write.c
index 02b8993..2a7f84d 100644
--- a/libcu8/src/write.c
+++ b/libcu8/src/write.c
@@ -55,7 +55,7 @@ __LIBCU8__IMP __cdecl int libcu8_fprintf(FILE* f, const char* fmt, ...)
 __LIBCU8__IMP __cdecl int libcu8_vfprintf(FILE* f, const char* fmt, va_list args)
 {
     char int_buf[512], *out = int_buf;
-    int sz=sizeof(int_buf), nd, ret;
+    int sz=sizeof(int_buf), nd, ret = EOF;
     va_list cpy;
 
     va_copy(cpy, args); /* create a duplicate just in case */
-- 
2.43.0


From 5771fc72a533e79c3da5ee2963c4743e1a2ef250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 054/111] fix: libcu8_fopen reports a failed open instead of
 using the missing stream

---
 libcu8/src/fdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcu8/src/fdio.c b/libcu8/src/fdio.c
index 174a446..402138c 100644
--- a/libcu8/src/fdio.c
+++ b/libcu8/src/fdio.c
@@ -66,7 +66,7 @@ __LIBCU8__IMP __cdecl FILE* libcu8_fopen(const char* __restrict__ name, const ch
 
     ret = _wfopen(wfile, wmode);
 
-    fd = fileno(ret);
+    fd = (ret != NULL) ? fileno(ret) : -1;
 
     if (fd != -1) {
 
-- 
2.43.0


From 277cff3d6870c43fa1fd8b226b53d8204238c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 055/111] fix: the console break handler reads its answer and
 releases it

---
 pbat/core/pBat_Run.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 9aaca53..a406ae5 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -948,7 +948,7 @@ BOOL WINAPI pBat_SigHandler(DWORD dwCtrlType)
 
                 choice = PBAT_ASK_NO;
 
-                while (pBat_EsGet(args, stdin)) {
+                while (!pBat_EsGet(args, stdin)) {
 
                     pBat_RmTrailingNl(args->str);
 
@@ -964,6 +964,8 @@ BOOL WINAPI pBat_SigHandler(DWORD dwCtrlType)
 
                 }
 
+                pBat_EsFree_Cached(args);
+
                 if (choice == PBAT_ASK_NO) {
 
                     PBAT_RUNFILE_RELEASE();
-- 
2.43.0


From 93099af8604953ec645e748c01b42621990b7902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 056/111] fix: result of an external batch is defined when its
 thread cannot be waited for

---
 pbat/core/pBat_Run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index a406ae5..75921a0 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -762,7 +762,7 @@ int pBat_RunExternalBatch(char* lpFileName, char* lpFullLine, char** lpArguments
     THREAD th;
     struct batch_launch_data_t* arg;
     int size = 0;
-    void* ret;
+    void* ret = NULL;
 
     while (lpArguments[size])
         size ++; /* count argument items */
-- 
2.43.0


From ef3075954a3169de14ce58b45fabe1ecfedbc7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 057/111] fix: MORE character wrapper returns the character it
 wrote

---
 pbat/command/pBat_More.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index ea3e4de..3e9aa03 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -357,6 +357,8 @@ int more_fputc_u8_wrapper (int c, FILE* p)
 
     }
 
+    return c;
+
 }
 #endif
 
-- 
2.43.0


From d93f0d07d6f75b19076993b3a5656d452f697167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 058/111] fix: LOCALE is serialized: messages and catalogues
 are shared by every interpreter thread

---
 pbat/command/pBat_Locale.c | 10 ++++++++++
 pbat/core/pBat_Globals.c   |  1 +
 pbat/core/pBat_Globals.h   |  1 +
 pbat/pBat.c                |  1 +
 4 files changed, 13 insertions(+)

diff --git a/pbat/command/pBat_Locale.c b/pbat/command/pBat_Locale.c
index 4740920..60e912d 100644
--- a/pbat/command/pBat_Locale.c
+++ b/pbat/command/pBat_Locale.c
@@ -84,9 +84,19 @@ int pBat_CmdLocale(char* line)
 
         } else {
 
+            if (pBat_LockMutex(&mLocaleLock))
+                pBat_ShowErrorMessage(PBAT_LOCK_MUTEX_ERROR,
+                                       __FILE__ "/pBat_CmdLocale()",
+                                       -1);
+
             pBat_LoadLocaleMessages(pBat_EsToFullPath(param));
             done = 1;
 
+            if (pBat_ReleaseMutex(&mLocaleLock))
+                pBat_ShowErrorMessage(PBAT_RELEASE_MUTEX_ERROR,
+                                       __FILE__ "/pBat_CmdLocale()",
+                                       -1);
+
         }
 
     }
diff --git a/pbat/core/pBat_Globals.c b/pbat/core/pBat_Globals.c
index 6bb20d6..aaadcad 100644
--- a/pbat/core/pBat_Globals.c
+++ b/pbat/core/pBat_Globals.c
@@ -50,6 +50,7 @@ MUTEX mSetLock; /* a lock to serialize calls to yacc-generated parsers */
 MUTEX mRunFile; /* a lock to serialize calls to create process */
 MUTEX mEchoLock; /* a lock to serialize calls to echo */
 MUTEX mModLock; /* a lock to serialize calls to mod */
+MUTEX mLocaleLock; /* a lock to serialize calls to locale */
 char lppBatPath[FILENAME_MAX]; /* A path to the directory of the pBat executable */
 char lppBatExec[FILENAME_MAX]; /* A path to the pBat executable */
 
diff --git a/pbat/core/pBat_Globals.h b/pbat/core/pBat_Globals.h
index 86f6248..faf861a 100644
--- a/pbat/core/pBat_Globals.h
+++ b/pbat/core/pBat_Globals.h
@@ -42,6 +42,7 @@ extern MUTEX mRunFile; /* a mutex to serialize call to fork() / CreateProcess()
 extern MUTEX mSetLock; /* a mutex for set (floats) */
 extern MUTEX mEchoLock; /* a mutex for serializing calls to ECHO */
 extern MUTEX mModLock; /* a lock to serialize calls to mod */
+extern MUTEX mLocaleLock; /* a lock to serialize calls to locale */
 
 extern int fdStdin; /* temporary storage for streams */
 extern int fdStdout;
diff --git a/pbat/pBat.c b/pbat/pBat.c
index fc53329..fa2b666 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -134,6 +134,7 @@ int main(int argc, char *argv[])
     pBat_CreateMutex(&mRunFile);
     pBat_CreateMutex(&mEchoLock);
     pBat_CreateMutex(&mModLock);
+    pBat_CreateMutex(&mLocaleLock);
 
 #ifndef WIN32
     pBat_CreateMutex(&mLineNoise);
-- 
2.43.0


From 2a63cc0468589af3b44eb8f00d57644feafc727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 059/111] fix: answer "no" to a question when the input ends or
 cannot be read

---
 pbat/command/pBat_Ask.c     | 25 +++++++++++++++++--------
 pbat/core/pBat_Completion.c | 13 ++++++++++++-
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/pbat/command/pBat_Ask.c b/pbat/command/pBat_Ask.c
index 3b9ab8b..25944df 100644
--- a/pbat/command/pBat_Ask.c
+++ b/pbat/command/pBat_Ask.c
@@ -40,16 +40,14 @@
 /* A function to override the hook that libcu8 adds on read()
    that automatically enable autocompletion, which can get
    quite problematic when asking question to the user */
-void xread(int fd, void* p, size_t sz)
+int xread(int fd, void* p, size_t sz)
 {
-    size_t cnt;
+    DWORD cnt = 0;
 
-    do {
-
-        ReadFile(_get_osfhandle(fd), p, sz, &cnt, NULL);
-
-    } while (!cnt);
+    if (!ReadFile((HANDLE)_get_osfhandle(fd), p, (DWORD)sz, &cnt, NULL))
+        return -1;
 
+    return (int)cnt;
 }
 #else
 #define xread(fd, p, n) read(fd, p, n)
@@ -63,7 +61,18 @@ void pBat_AskConfirmationRead(char* buffer, size_t size)
 
     while (1) {
 
-        xread(fileno(fInput), &c, 1);
+        if (xread(fileno(fInput), &c, 1) != 1) {
+
+            /* end of input or error, nobody is going to confirm anything */
+            if (i == 0) {
+
+                snprintf(buffer, size, "%s", lpAskNo);
+                return;
+
+            }
+
+            break;
+        }
 
         if (c == '\r')
             continue;
diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index ceaceb0..b5798ae 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -64,7 +64,18 @@ void pBat_CompleteReadRaw(char* buffer, size_t size)
 
     while (1) {
 
-        read(fileno(fInput), &c, 1);
+        if (read(fileno(fInput), &c, 1) != 1) {
+
+            /* end of input or error, nobody is going to confirm anything */
+            if (i == 0) {
+
+                snprintf(buffer, size, "%s", lpAskNo);
+                return;
+
+            }
+
+            break;
+        }
 
         if (c == '\r'
             || c == '\n')
-- 
2.43.0


From 765929ab81db309d7207eb2daaf80c9db12a5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 060/111] fix: do not use the number of pending characters when
 it cannot be known

---
 libpbat/console/pBat_Console.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libpbat/console/pBat_Console.c b/libpbat/console/pBat_Console.c
index 9ea02d6..e1fdafd 100644
--- a/libpbat/console/pBat_Console.c
+++ b/libpbat/console/pBat_Console.c
@@ -95,12 +95,16 @@ int pBat_Kbhit(FILE *f)
   int bytesWaiting;
   struct termios term;
 
-  tcgetattr(fileno(f), &term);
-  term.c_lflag &= ~ICANON;
-  tcsetattr(fileno(f), TCSANOW, &term);
+  if (tcgetattr(fileno(f), &term) == 0) {
+    term.c_lflag &= ~ICANON;
+    tcsetattr(fileno(f), TCSANOW, &term);
+  }
+
   setbuf(f, NULL);
 
-  ioctl(fileno(f), FIONREAD, &bytesWaiting);
+  if (ioctl(fileno(f), FIONREAD, &bytesWaiting) == -1)
+    return 0;
+
   return bytesWaiting;
 }
 
-- 
2.43.0


From a21978d2e870572718cde122ccd1b78c4ae56e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 061/111] fix: report a source whose attributes cannot be read
 instead of copying with random modes

---
 pbat/command/pBat_Copy.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 078182b..425f917 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -519,15 +519,24 @@ int pBat_CopyFile(const char* file, const char* dest)
     old = open(file, O_RDONLY,0);
 #endif
 
-    fstat(old, &info);
-
     if (old == -1) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_COPY
                                 | PBAT_PRINT_C_ERROR, file, 0);
 
 
-        return -1;
+        return PBAT_UNABLE_COPY;
+
+    }
+
+    if (fstat(old, &info) == -1) {
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_COPY
+                                | PBAT_PRINT_C_ERROR, file, 0);
+
+        close(old);
+
+        return PBAT_UNABLE_COPY;
 
     }
 
@@ -610,8 +619,6 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
     old = open(file, O_RDONLY,0);
 #endif
 
-    fstat(old, &info);
-
     if (old == -1) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_CAT
@@ -622,6 +629,17 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
     }
 
+    if (fstat(old, &info) == -1) {
+
+        pBat_ShowErrorMessage(PBAT_UNABLE_CAT
+                                | PBAT_PRINT_C_ERROR, file, 0);
+
+        close(old);
+
+        return PBAT_UNABLE_CAT;
+
+    }
+
 #ifdef WIN32
     attr = O_WRONLY | O_BINARY | O_CREAT ;
 #else
-- 
2.43.0


From ea96976b29f61933ca514bed7492e3973e40b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 062/111] fix: a failing write while copying is an error, not a
 step of -1 byte

---
 pbat/command/pBat_Copy.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 425f917..c409806 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -510,7 +510,8 @@ int pBat_CopyFile(const char* file, const char* dest)
 {
     int old, new;
     char buf[2048];
-    size_t count, writen;
+    size_t writen;
+    long count, put;
     struct stat info;
 
 #ifdef WIN32
@@ -575,9 +576,11 @@ int pBat_CopyFile(const char* file, const char* dest)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen < count) {
 
-            if (writen == -1) {
+            put = write(new, buf + writen, count - writen);
+
+            if (put <= 0) {
 
                 close(old);
                 close(new);
@@ -589,6 +592,8 @@ int pBat_CopyFile(const char* file, const char* dest)
 
             }
 
+            writen += put;
+
         }
 
     }
@@ -610,7 +615,8 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 {
     int old, new, attr;
     char buf[2048];
-    size_t count, writen;
+    size_t writen;
+    long count, put;
     struct stat info;
 
 #ifdef WIN32
@@ -688,9 +694,11 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
         writen = 0;
 
-        while ((writen += write(new, buf + writen, count - writen)) != count) {
+        while (writen < count) {
 
-            if (writen == -1) {
+            put = write(new, buf + writen, count - writen);
+
+            if (put <= 0) {
 
                 close(old);
                 close(new);
@@ -702,6 +710,8 @@ int pBat_CatFile(const char* file, const char* dest, int* flags)
 
             }
 
+            writen += put;
+
         }
 
     }
-- 
2.43.0


From deb1b8baf1404e30023d2ac8a718c69feb07f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 063/111] fix: do not use the console screen information when
 it cannot be read

---
 libpbat/console/pBat_ConsoleWin.c | 19 ++++++++++++-------
 pbat/core/pBat_Completion.c       |  4 +++-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/libpbat/console/pBat_ConsoleWin.c b/libpbat/console/pBat_ConsoleWin.c
index b60c688..4958290 100644
--- a/libpbat/console/pBat_ConsoleWin.c
+++ b/libpbat/console/pBat_ConsoleWin.c
@@ -54,7 +54,8 @@ void pBat_ClearConsoleLine(FILE* f)
     if ((hConsole = _pBat_GetHandle(f)) == (HANDLE)-1)
         return;
 
-    GetConsoleScreenBufferInfo(hConsole, &info);
+    if (!GetConsoleScreenBufferInfo(hConsole, &info))
+        return;
 
     pt = info.dwCursorPosition;
     pt.X = 0;
@@ -68,9 +69,8 @@ void pBat_ClearConsoleLine(FILE* f)
                                 &written
                                 );
 
-    GetConsoleScreenBufferInfo(hConsole, &info);
-
-    FillConsoleOutputAttribute(hConsole,
+    if (GetConsoleScreenBufferInfo(hConsole, &info))
+        FillConsoleOutputAttribute(hConsole,
                                 info.wAttributes,
                                 x,
                                 pt,
@@ -94,7 +94,9 @@ void pBat_ClearConsoleScreen(FILE* f)
         return;
 
     /* get the number of character cells in the current buffer */
-    GetConsoleScreenBufferInfo( hConsole, &csbi );
+    if (!GetConsoleScreenBufferInfo( hConsole, &csbi ))
+        return;
+
     dwConSize = csbi.dwSize.X * csbi.dwSize.Y;
 
     /* fill the entire screen with blanks */
@@ -104,7 +106,8 @@ void pBat_ClearConsoleScreen(FILE* f)
 
     /* get the current text attribute */
 
-    GetConsoleScreenBufferInfo( hConsole, &csbi );
+    if (!GetConsoleScreenBufferInfo( hConsole, &csbi ))
+        return;
 
     /* now set the buffer's attributes accordingly */
 
@@ -126,7 +129,9 @@ void pBat_SetConsoleColor(FILE* f, COLOR cColor)
     if ((hOutput = _pBat_GetHandle(f)) == (HANDLE)-1)
         return;
 
-    GetConsoleScreenBufferInfo(hOutput, &csbiScreenInfo);
+    if (!GetConsoleScreenBufferInfo(hOutput, &csbiScreenInfo))
+        return;
+
     iSize=csbiScreenInfo.dwSize.X * csbiScreenInfo.dwSize.Y;
     FillConsoleOutputAttribute(hOutput, cColor, iSize, cBegin, (PDWORD)&iSize);
     SetConsoleTextAttribute(hOutput, cColor);
diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index b5798ae..2985edc 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -42,7 +42,9 @@ int pBat_CompletionGetCols(void)
 {
     CONSOLE_SCREEN_BUFFER_INFO csbi;
 
-    GetConsoleScreenBufferInfo(GetStdHandle(STD_OUTPUT_HANDLE), &csbi);
+    if (!GetConsoleScreenBufferInfo(GetStdHandle(STD_OUTPUT_HANDLE), &csbi)
+        || csbi.dwSize.X < 2)
+        return 80;
 
     return csbi.dwSize.X - 1;
 }
-- 
2.43.0


From 254e90ff7ab46f46fb767e657cc35da9c79bc17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 064/111] fix: do not wait for nor close handles of a process
 that did not start

---
 pbat/core/pBat_Exec.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 7481b63..628a77a 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -154,20 +154,28 @@ int pBat_RunFile(EXECINFO* info, int* error)
                         envblock,
                         info->dir,
                         &si,
-                        &pi))
+                        &pi)) {
+
         *error = 1;
+        status = -1;
+
+    }
 
     PBAT_RUNFILE_RELEASE();
 
-    if (info->flags & PBAT_EXEC_WAIT) {
+    if (!*error && (info->flags & PBAT_EXEC_WAIT)) {
 
         WaitForSingleObject(pi.hProcess, INFINITE);
         GetExitCodeProcess(pi.hProcess, &status);
 
     }
 
-    CloseHandle(pi.hProcess);
-    CloseHandle(pi.hThread);
+    if (!*error) {
+
+        CloseHandle(pi.hProcess);
+        CloseHandle(pi.hThread);
+
+    }
 
     free(envblock);
 
@@ -242,18 +250,26 @@ int pBat_RunFile(EXECINFO* info, int* error)
                         wenvblock,
                         wcurrdir,
                         &si,
-                        &pi))
+                        &pi)) {
+
         *error = 1;
+        status = -1;
+
+    }
 
     PBAT_RUNFILE_RELEASE();
 
-    if (info->flags & PBAT_EXEC_WAIT) {
+    if (!*error && (info->flags & PBAT_EXEC_WAIT)) {
         WaitForSingleObject(pi.hProcess, INFINITE);
         GetExitCodeProcess(pi.hProcess, &status);
     }
 
-    CloseHandle(pi.hProcess);
-    CloseHandle(pi.hThread);
+    if (!*error) {
+
+        CloseHandle(pi.hProcess);
+        CloseHandle(pi.hThread);
+
+    }
 
     free(envblock);
     free(wfullline);
-- 
2.43.0


From 74decb26e6e234a3e2e7e75f4444e3b01e99860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 065/111] fix: print no windows version when it cannot be read

---
 pbat/command/pBat_Ver.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Ver.c b/pbat/command/pBat_Ver.c
index 1b13fd9..3f35ffb 100644
--- a/pbat/command/pBat_Ver.c
+++ b/pbat/command/pBat_Ver.c
@@ -56,7 +56,9 @@ int pBat_CmdVer(char* lpArg)
         const char *CurrentWindowsVersion;
         DATA.dwOSVersionInfoSize = sizeof(OSVERSIONINFO);
 
-        GetVersionEx(&DATA);
+        if (!GetVersionExA(&DATA))
+            return PBAT_COMMAND_ERROR;
+
         pBat_CmdVerCheckWinVer(&CurrentWindowsVersion,
                                 (int) DATA.dwMajorVersion,
                                 (int) DATA.dwMinorVersion);
@@ -69,7 +71,9 @@ int pBat_CmdVer(char* lpArg)
 	#else
         struct utsname DATA;
 
-        uname(&DATA);
+        if (uname(&DATA) == -1)
+            return PBAT_COMMAND_ERROR;
+
         fprintf(fOutput, PBAT_NL "%s [version %s]" PBAT_NL, DATA.sysname, DATA.release);
 
 	#endif
-- 
2.43.0


From b8cb6beede62e08ac81b3fbda954f5d9a01bb31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 066/111] fix: the last line of a script is not read through a
 buffer that may have moved

---
 pbat/core/pBat_ReadScript.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index e59d0fa..cf5e3ef 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -234,11 +234,12 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
 
         /* the read line should *definitely* end with a '\n' (in
            in fact it always do, except when reaching end of file) */
-        if (strchr(pch, '\n') == NULL)
-            pBat_EsCat(line, "\n");
+        pBat_EsCat(cmd, pch);
+
+        if (strchr(cmd->str, '\n') == NULL)
+            pBat_EsCat(cmd, "\n");
 
         /* This is a command */
-        pBat_EsCat(cmd, pch);
 
         /* We reached a line end since blocks appear to be complete.
            Allocate a new cmdlines_t instance to store the line */
-- 
2.43.0


From 048b44969a8e695cdc5a27165a66fd58690fc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 067/111] fix: variables removed in the interpreter are not
 passed on to programs

---
 pbat/core/pBat_Env.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 73de58e..46f5a8a 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -32,6 +32,10 @@
 
 #include <libpBat.h>
 
+#if !defined(WIN32)
+extern char** environ;
+#endif
+
 int pBat_EnvCompName(const void* p1, const void* p2)
 {
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
@@ -403,6 +407,14 @@ void pBat_ApplyEnv(ENVBUF* pEnv)
     int i;
     ESTR* exp = pBat_EsInit_Cached();
 
+    #if !defined(WIN32)
+    /* only called in a process about to become the program: what was there
+       when pBat started may have been removed since then */
+    static char* nothing[] = { NULL };
+
+    environ = nothing;
+    #endif
+
     for (i=0; i < pEnv->index; i++) {
 
         if (pEnv->envbuf[i]->name == NULL)
-- 
2.43.0


From d4890fabb6df9230fb6ff0d0007f09a4f3155e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 068/111] fix: unused environment slots are sorted after all
 others

---
 pbat/core/pBat_Env.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 46f5a8a..6592ad2 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -41,7 +41,7 @@ int pBat_EnvCompName(const void* p1, const void* p2)
     ENVVAR *pVar1=*((ENVVAR**)p1), *pVar2=*((ENVVAR**)p2);
 
     if ((pVar1->name == NULL) || (pVar2->name == NULL))
-        return pVar2->name - pVar1->name;
+        return (pVar1->name == NULL) - (pVar2->name == NULL);
 
     return stricmp(pVar1->name, pVar2->name);
 }
-- 
2.43.0


From 8385ddd58cfad27815b5ebe48524d6662ba91ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 069/111] fix: an environment that is freed is freed as a whole

---
 pbat/core/pBat_Env.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_Env.c b/pbat/core/pBat_Env.c
index 6592ad2..0dcceab 100644
--- a/pbat/core/pBat_Env.c
+++ b/pbat/core/pBat_Env.c
@@ -400,6 +400,7 @@ void pBat_EnvFree(ENVBUF* pEnv)
     }
 
     free(pEnv->envbuf);
+    free(pEnv);
 }
 
 void pBat_ApplyEnv(ENVBUF* pEnv)
-- 
2.43.0


From b10e8714d899b4a389d0b53a8c2c4488e7aa273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 070/111] fix: what the interpreter printed comes before the
 output of what it starts

---
 pbat/core/pBat_Clone.c | 4 ++++
 pbat/core/pBat_Exec.c  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pbat/core/pBat_Clone.c b/pbat/core/pBat_Clone.c
index 7b63111..2d4598e 100644
--- a/pbat/core/pBat_Clone.c
+++ b/pbat/core/pBat_Clone.c
@@ -135,6 +135,10 @@ int pBat_DuplicateData(struct clone_data_t* data)
     data->ifIn.bEof = ifIn.bEof;
     data->ifIn.iPos = ifIn.iPos;
 
+    /* what has been printed so far comes before the output of the new thread */
+    fflush(fOutput);
+    fflush(fError);
+
 #define DUPLICATE_STREAM(dest, s, mode) \
     if ((fd = dup(fileno(s))) == -1) \
         pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD \
diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 628a77a..a1a36b3 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -42,6 +42,10 @@ int pBat_ExecuteFile(EXECINFO* info)
     int error = 0,
                 ret;
 
+    /* what has been printed so far comes before the output of the program */
+    fflush(fOutput);
+    fflush(fError);
+
     /* first try RunFile() */
     ret = pBat_RunFile(info, &error);
 
-- 
2.43.0


From 6f55829e4b90e10bb248fc822cdd12c416630812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 071/111] fix: a child whose exec failed is waited for

---
 pbat/core/pBat_Exec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index a1a36b3..5424b94 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -375,6 +375,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
             if (read(fds[0], &c, sizeof(c)) != 0) {
 
                 close(fds[0]);
+                waitpid(iPid, NULL, 0);
 
                 *error = 1;
                 return -1;
-- 
2.43.0


From 6bf68f268caf377611d0604c3a59731ff4f77539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 072/111] fix: CHCP that could not change the codepage fails

---
 pbat/command/pBat_Chcp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Chcp.c b/pbat/command/pBat_Chcp.c
index 69ee82f..093684d 100644
--- a/pbat/command/pBat_Chcp.c
+++ b/pbat/command/pBat_Chcp.c
@@ -122,7 +122,7 @@ int pBat_CmdChcp(char* line)
 
 error:
     pBat_EsFree_Cached(param);
-    return 0;
+    return status;
 
 }
 
-- 
2.43.0


From 06a37881631b531eb929f9dca45364f058dccd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 073/111] fix: PUSHD that could not remember the directory
 fails

---
 pbat/command/pBat_Pushd.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_Pushd.c b/pbat/command/pBat_Pushd.c
index d89c1a5..b4cc776 100644
--- a/pbat/command/pBat_Pushd.c
+++ b/pbat/command/pBat_Pushd.c
@@ -78,9 +78,13 @@ int pBat_CmdPushd (char *line)
   do {
     pBat_EsCpy(current_dir, lpCurrentDir);
 
-    if (pBat_SetCurrentDir(pBat_EsToChar(estr)) == 0)
-      pBat_PushDir(pBat_EsToChar(current_dir));
-    else {
+    if (pBat_SetCurrentDir(pBat_EsToChar(estr)) == 0) {
+      if (pBat_PushDir(pBat_EsToChar(current_dir))) {
+        pBat_EsFree_Cached(current_dir);
+        pBat_EsFree_Cached(estr);
+        return PBAT_FAILED_ALLOCATION;
+      }
+    } else {
       /* not a directory */
       pBat_ShowErrorMessage(PBAT_DIRECTORY_ERROR, pBat_EsToChar(estr), FALSE);
       pBat_EsFree_Cached(current_dir);
-- 
2.43.0


From 9c70c9f714dbbd1f2867d781d7d6e76337a80f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 074/111] fix: COPY /R keeps the status of all its sources

---
 pbat/command/pBat_Copy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index c409806..4a4ddcf 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -228,7 +228,7 @@ int pBat_CmdCopy(char* line)
     if (flags & PBAT_COPY_RECURSIVE) {
 
         for (i=0;i < len - 1 ; i++)
-            status = pBat_CmdCopyRecursive(file[i],
+            status |= pBat_CmdCopyRecursive(file[i],
                         file[len-1], attr, &flags);
 
         goto end;
@@ -472,7 +472,7 @@ int pBat_CmdCopyRecursive(char* file, const char* dest, short attr, int* flags)
 
             pBat_MakePath(real_dest, 2, dest, (item->lpFileName)+(size+1));
 
-            status = pBat_Rmdir(real_dest->str);
+            status |= pBat_Rmdir(real_dest->str);
 
             item = item->lpflNext;
 
-- 
2.43.0


From 8e81deef9361be8cbfa7598f3491e4ddb93b6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 075/111] fix: a line that can not be parsed sets the error
 level

---
 pbat/core/pBat_Run.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 75921a0..ce2de40 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -313,9 +313,12 @@ int pBat_RunLine(ESTR* lpLine)
 
 	orig = pBat_ParseLine(lpLine);
 
-	if (orig == NULL)
+	if (orig == NULL) {
+
+		iErrorLevel = -1;
 		return -1;
 
+	}
 
 	pBat_RunParsedLine(orig);
 
-- 
2.43.0


From 9ff3ec7371d1d8c9c44dfc8aa24a45146b787f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 076/111] fix: a command that expands to nothing does not loop
 forever

---
 pbat/core/pBat_Run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index ce2de40..6a07fd8 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -611,6 +611,7 @@ int pBat_RunExternalCommand(char* lpCommandLine, int* error)
     if ((list = pBat_GetParamList(lpCommandLine)) == NULL) {
 
         pBat_EsFree_Cached(lpCmdLine);
+        *error = 0; /* nothing to run, nothing to try again */
         return 0;
 
     }
-- 
2.43.0


From 2cb3256f81ea9edf42cb0b59ef38cd2ce5395477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 077/111] fix: a command whose redirection can not be opened is
 not run

---
 pbat/core/pBat_Run.c | 46 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 6a07fd8..c40b8d1 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -231,9 +231,10 @@ void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
        as this function executes the left hand side of a pipe.
 
     */
-    pBat_ExecOutput(infos->stream);
-
-    pBat_RunCommand(infos->str, NULL);
+    if (pBat_ExecOutput(infos->stream))
+        iErrorLevel = PBAT_FILE_ERROR;
+    else
+        pBat_RunCommand(infos->str, NULL);
 
     /* don't forget to free unneeded memory */
     pBat_FreeParsedStream(infos->stream);
@@ -244,6 +245,7 @@ void pBat_LaunchPipe(struct pipe_launch_data_t* infos)
 
 int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 {
+    STREAMSTACK* old;
 
     if (!lppssStart
         || (!(lppssStart->lpInputFile)
@@ -256,28 +258,49 @@ int pBat_ExecOutput(PARSED_STREAM* lppssStart)
 
 	}
 
-	/* open the redirections */
-	if (lppssStart->lpInputFile)
+	/* open the redirections, the stack stays the same when one fails */
+	if (lppssStart->lpInputFile) {
+
+		old = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpInputFile,
 		                PBAT_STDIN,
 		                0
 		               );
 
-	if (lppssStart->lpOutputFile)
+		if (lppsStreamStack == old)
+			return PBAT_FILE_ERROR;
+
+	}
+
+	if (lppssStart->lpOutputFile) {
+
+		old = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpOutputFile,
 		                PBAT_STDOUT,
 		                lppssStart->cOutputMode
 		               );
 
-    if (lppssStart->lpErrorFile)
+		if (lppsStreamStack == old)
+			return PBAT_FILE_ERROR;
+
+	}
+
+    if (lppssStart->lpErrorFile) {
+
+		old = lppsStreamStack;
 		lppsStreamStack = pBat_OpenOutput(lppsStreamStack,
 		                lppssStart->lpErrorFile,
 		                PBAT_STDERR,
 		                lppssStart->cErrorMode
 		               );
 
+		if (lppsStreamStack == old)
+			return PBAT_FILE_ERROR;
+
+    }
+
     switch (lppssStart->cRedir) {
 
     case PARSED_STREAM_STDERR2STDOUT:
@@ -374,10 +397,11 @@ void pBat_RunParsedLine(PARSED_LINE* line)
 
             */
 		if (!((!strnicmp(pch, "if", 2) && pBat_IsDelim(*(pch +2)))
-            || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3)))))
-            pBat_ExecOutput(line->sStream);
-
-		pBat_RunCommand(line->lpCmdLine, &line);
+            || (!strnicmp(pch, "for", 3) && pBat_IsDelim(*(pch + 3))))
+            && pBat_ExecOutput(line->sStream))
+            iErrorLevel = PBAT_FILE_ERROR;
+        else
+            pBat_RunCommand(line->lpCmdLine, &line);
 
 		lppsStreamStack = pBat_PopStreamStackUntilLock(lppsStreamStack);
 		pBat_SetStreamStackLockState(lppsStreamStack, lock);
-- 
2.43.0


From 03fdbb0e45d3381664121d1f7ca62d2a3119ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 078/111] fix: FOR /F fails when one of its files can not be
 opened

---
 pbat/command/pBat_For.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index ee31bc0..796ed46 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -568,7 +568,8 @@ error:
 int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 {
 	int iSkip=lpfrInfo->iSkip,
-        status = PBAT_NO_ERROR;
+        status = PBAT_NO_ERROR,
+        more;
 
 	ESTR* lpInputToP=pBat_EsInit_Cached();
 
@@ -580,7 +581,7 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 	if ((status = pBat_ForMakeInputInfo(lpInput, &inputInfo, lpfrInfo)))
 		goto error;
 
-	while (pBat_ForGetInputLine(lpInputToP, &inputInfo)) {
+	while ((more = pBat_ForGetInputLine(lpInputToP, &inputInfo)) > 0) {
 
 		if (iSkip > 0) {
 
@@ -612,6 +613,9 @@ int pBat_CmdForF(ESTR* lpInput, PARSED_LINE* lpplLine, FORINFO* lpfrInfo)
 
 	}
 
+	if (more < 0)
+		status = PBAT_FILE_ERROR;
+
 	pBat_ForCloseInputInfo(&inputInfo);
 	pBat_ForVarUnassign(lpfrInfo);
 
@@ -1480,7 +1484,7 @@ retry:
                             FALSE
                             );
 
-                    break;
+                    return -1;
 
                 }
 
-- 
2.43.0


From 5715b686e9e8502b64ab8b8fb9573dafbb721fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 079/111] fix: an integer division by zero ends the evaluation,
 not the interpreter

---
 libfasteval/lib/fasteval.c |  1 +
 libfasteval/lib/parser.y   | 26 +++++++++++++++++++++++---
 pbat/command/pBat_Set.c    | 29 +++++++++++++++++++++--------
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/libfasteval/lib/fasteval.c b/libfasteval/lib/fasteval.c
index 2fba6d9..9ae48ef 100644
--- a/libfasteval/lib/fasteval.c
+++ b/libfasteval/lib/fasteval.c
@@ -54,6 +54,7 @@ double fasteval_evaluate(char *expr, double (*get)(const char *),
     strcat(exprn, "\n");
 
     result.result = NAN;
+    result.fmode = 0;
     input_string = exprn;
 
     get_var = get;
diff --git a/libfasteval/lib/parser.y b/libfasteval/lib/parser.y
index 3e1e63e..7a7f7a2 100644
--- a/libfasteval/lib/parser.y
+++ b/libfasteval/lib/parser.y
@@ -140,14 +140,34 @@ expression
   INT_FLOAT_OP(*, $$, $1, $3);
 }
 | expression '/' expression {
-  INT_FLOAT_OP(/, $$, $1, $3);
+  $$.is_double  = $1.is_double || $3.is_double;
+  if (!($$.is_double)) {
+
+    /* dividing integers by zero would kill the process */
+    if ($3.i == 0) {
+      yyerror("division by zero");
+      YYABORT;
+    }
+
+    /* and the smallest integer can not be divided by -1 */
+    $$.i = ($3.i == -1) ? (long long)(0 - (unsigned long long)$1.i)
+                        : $1.i / $3.i;
+  }
+  $$.d = $1.d / $3.d;
 }
 | expression '%' expression {
 
   /* modulo may use integer operator % or fmod function */
   $$.is_double  = $1.is_double || $3.is_double;
-  if (!($$.is_double))
-    $$.i = $1.i % $3.i;
+  if (!($$.is_double)) {
+
+    if ($3.i == 0) {
+      yyerror("division by zero");
+      YYABORT;
+    }
+
+    $$.i = ($3.i == -1) ? 0 : $1.i % $3.i;
+  }
   $$.d = fmod($1.d, $3.d);
 
 }
diff --git a/pbat/command/pBat_Set.c b/pbat/command/pBat_Set.c
index 8443b6c..b510071 100644
--- a/pbat/command/pBat_Set.c
+++ b/pbat/command/pBat_Set.c
@@ -431,12 +431,6 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 #define OPERATE_INT(op1, op, op2) \
     (double)(((int)op1) op ((int)(op2)))
 
-#define OPERATE(op1, op, op2, mode) \
-    ((!mode) ? \
-        (OPERATE_INT(op1, op, op2)) \
-        : \
-        (op1 op op2))
-
 
 	switch (cLeftAssign) {
 
@@ -458,8 +452,27 @@ int pBat_CmdSetEval(ESTR* lpExpression)
 					break;
 
 				case '/':
-					dVal = OPERATE(dVal, /,
-                                    dResult, fmode);
+					if (fmode) {
+
+						dVal /= dResult;
+
+					} else if ((int)dResult == 0) {
+
+						pBat_ShowErrorMessage(PBAT_MATH_DIVIDE_BY_0, "SET",
+												FALSE);
+						status = PBAT_MATH_DIVIDE_BY_0;
+						goto error;
+
+					} else if ((int)dResult == -1) {
+
+						/* the smallest integer can not be divided by -1 */
+						dVal = -(double)(int)dVal;
+
+					} else {
+
+						dVal = OPERATE_INT(dVal, /, dResult);
+
+					}
 					break;
 
                 case '%':
-- 
2.43.0


From ae80a04b174e4c5f0374e08026dfb213d0fc7bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 080/111] fix: MORE refuses a tabulation of zero columns

---
 pbat/command/pBat_More.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index 3e9aa03..ac9937c 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -104,7 +104,7 @@ int pBat_CmdMore(char* line)
 
             tabsize = strtol(ptr, &ret, 0);
 
-            if (*ret) {
+            if (*ret || tabsize <= 0) {
 
                 pBat_ShowErrorMessage(PBAT_INVALID_NUMBER,
                                         ptr,
-- 
2.43.0


From 7f27308b3acd3f9cf7ec7153150d04722aabf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 081/111] fix: the list of completions fits terminals of any
 width

---
 pbat/core/pBat_Completion.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index 2985edc..714c343 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -105,7 +105,7 @@ void pBat_CompleteReadRaw(char* buffer, size_t size)
 void pBat_PrintCompletionList(FILELIST* files)
 {
     char *name, *pch;
-    size_t count, max = 0, cols=80;
+    size_t count, max = 0, cols=80, perline;
     FILELIST *item = files;
     int ok = PBAT_ASK_INVALID;
 
@@ -162,10 +162,15 @@ void pBat_PrintCompletionList(FILELIST* files)
         /* some utterly lengthy filename is messing with us
            apparently */
 
-        max = cols - 1;
+        max = cols ? cols - 1 : 0;
 
     }
 
+    perline = cols / (max + 1);
+
+    if (perline == 0)
+        perline = 1;
+
     count = 0;
     item = files;
 
@@ -186,13 +191,13 @@ void pBat_PrintCompletionList(FILELIST* files)
         fprintf(fOutput, "%-*s", max + 1, name);
         count ++;
 
-        if (!(count % (cols/(max + 1))))
+        if (!(count % perline))
             fputs("\r\n", fOutput);
 
         item = item->lpflNext;
     }
 
-    if ((count % (cols/(max + 1))))
+    if ((count % perline))
         fputs("\r\n", fOutput);
 
     fputs("\r\n", fOutput);
-- 
2.43.0


From 37503f17f2c7b59058354d114152948b17b7c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 082/111] fix: the line editor does not trust a terminal that
 says it has no columns

---
 pbat/linenoise/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index 905c02b..c847d86 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -413,7 +413,7 @@ static int getColumns(int ifd, int ofd) {
         /* Go to right margin and get position. */
         if (write(ofd,"\x1b[999C",6) != 6) goto failed;
         cols = getCursorPosition(ifd,ofd);
-        if (cols == -1) goto failed;
+        if (cols <= 0) goto failed;
 
         /* Restore position. */
         if (cols > start) {
-- 
2.43.0


From 40c0147838d8207fe634df8b39127f3b581d9efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:00 +0000
Subject: [PATCH 083/111] fix: a batch that can not be read leaves an error
 level

---
 pbat/core/pBat_Run.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index c40b8d1..74e1267 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -70,9 +70,16 @@ int pBat_RunBatch(INPUT_FILE* pIn)
 
         }
 
-		if (pBat_GetLine(lpLine, pIn))
+		if ((res = pBat_GetLine(lpLine, pIn))) {
+
+			/* a failure to read, and not a void line */
+			if (res == -1)
+				iErrorLevel = PBAT_FILE_ERROR;
+
 			continue;
 
+		}
+
 		lpCh=pBat_EsToChar(lpLine);
 
 		while (*lpCh==' '
-- 
2.43.0


From 2facc6763a35befb00ab6d31be0eb7cb817a60be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 084/111] fix: a failure to duplicate a descriptor prints where
 it happened

---
 pbat/command/pBat_For.c   | 2 +-
 pbat/errors/pBat_Errors.c | 2 +-
 po/ca/pbat.po             | 4 ++--
 po/en/pbat.po             | 4 ++--
 po/es/pbat.po             | 2 +-
 po/fr/pbat.po             | 4 ++--
 po/hi/pbat.po             | 4 ++--
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index 796ed46..db27e00 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1388,7 +1388,7 @@ int pBat_ForInputProcess(ESTR* lpInput, INPUTINFO* lpipInfo, int* iPipeFd)
     if (!(pFile=fdopen(iPipeFd[0], "rb"))) {
 
         pBat_ShowErrorMessage(PBAT_UNABLE_DUPLICATE_FD,
-                              iPipeFd[0],
+                              __FILE__ "/pBat_ForInputProcess()",
                               FALSE);
 
         close(iPipeFd[0]);
diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index 5753112..f427625 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -132,7 +132,7 @@ void pBat_LoadErrors(void)
 	    gettext("Error : \"%s\" is not a valid top-level block.");
 
 	lpErrorMsg[PBAT_UNABLE_DUPLICATE_FD]=
-	    gettext("Error : Unable to duplicate file descriptor (%d).");
+	    gettext("Error : Unable to duplicate file descriptor (%s).");
 
 	lpErrorMsg[PBAT_UNABLE_CREATE_PIPE]=
 	    gettext("Error : Unable to create pipe at function (%s).");
diff --git a/po/ca/pbat.po b/po/ca/pbat.po
index 3b0f649..c66d3dd 100644
--- a/po/ca/pbat.po
+++ b/po/ca/pbat.po
@@ -182,8 +182,8 @@ msgstr "Error: \"%s\" no és un bloc vàlid d'alt nivell."
 
 #: ../pbat/errors/pBat_Errors.c:135
 #, c-format
-msgid "Error : Unable to duplicate file descriptor (%d)."
-msgstr "Error: Incapaç de duplicar el descriptor de fitxers (%d)."
+msgid "Error : Unable to duplicate file descriptor (%s)."
+msgstr "Error: Incapaç de duplicar el descriptor de fitxers (%s)."
 
 #: ../pbat/errors/pBat_Errors.c:138
 #, c-format
diff --git a/po/en/pbat.po b/po/en/pbat.po
index 396e6fb..d9ea09d 100644
--- a/po/en/pbat.po
+++ b/po/en/pbat.po
@@ -177,8 +177,8 @@ msgstr "Error : \"%s\" is not a valid top-level block."
 
 #: ../pbat/errors/pBat_Errors.c:135
 #, c-format
-msgid "Error : Unable to duplicate file descriptor (%d)."
-msgstr "Error : Unable to duplicate file descriptor (%d)."
+msgid "Error : Unable to duplicate file descriptor (%s)."
+msgstr "Error : Unable to duplicate file descriptor (%s)."
 
 #: ../pbat/errors/pBat_Errors.c:138
 #, c-format
diff --git a/po/es/pbat.po b/po/es/pbat.po
index 95f5dc2..f5f8f75 100644
--- a/po/es/pbat.po
+++ b/po/es/pbat.po
@@ -169,7 +169,7 @@ msgstr ""
 
 #: ../pbat/errors/pBat_Errors.c:135
 #, c-format
-msgid "Error : Unable to duplicate file descriptor (%d)."
+msgid "Error : Unable to duplicate file descriptor (%s)."
 msgstr ""
 
 #: ../pbat/errors/pBat_Errors.c:138
diff --git a/po/fr/pbat.po b/po/fr/pbat.po
index 659e34f..9ce6cc0 100644
--- a/po/fr/pbat.po
+++ b/po/fr/pbat.po
@@ -178,8 +178,8 @@ msgstr "Erreur :   \"%s\" n'est pas un block de niveau supérieur valide."
 
 #: ../pbat/errors/pBat_Errors.c:135
 #, c-format
-msgid "Error : Unable to duplicate file descriptor (%d)."
-msgstr "Erreur : Impossible de duppliquer le descripteur de fichier  (%d)."
+msgid "Error : Unable to duplicate file descriptor (%s)."
+msgstr "Erreur : Impossible de duppliquer le descripteur de fichier  (%s)."
 
 #: ../pbat/errors/pBat_Errors.c:138
 #, c-format
diff --git a/po/hi/pbat.po b/po/hi/pbat.po
index 26a06ab..ce9029a 100644
--- a/po/hi/pbat.po
+++ b/po/hi/pbat.po
@@ -175,8 +175,8 @@ msgstr "ग़लत: \"% s\" शीर्ष-स्तरीय ब्लॉक
 
 #: ../pbat/errors/pBat_Errors.c:135
 #, c-format
-msgid "Error : Unable to duplicate file descriptor (%d)."
-msgstr "ग़लत: फ़ाइल डिस्क्रिप्टर (%d) को डुप्लिकेट करने में असमर्थ।"
+msgid "Error : Unable to duplicate file descriptor (%s)."
+msgstr "ग़लत: फ़ाइल डिस्क्रिप्टर (%s) को डुप्लिकेट करने में असमर्थ।"
 
 #: ../pbat/errors/pBat_Errors.c:138
 #, c-format
-- 
2.43.0


From 661d554269afdcdea50fc3006309f7066091d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 085/111] fix: an unknown switch on the command line is quoted

---
 pbat/init/pBat_Init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/init/pBat_Init.c b/pbat/init/pBat_Init.c
index 7277e51..90e86e2 100644
--- a/pbat/init/pBat_Init.c
+++ b/pbat/init/pBat_Init.c
@@ -364,7 +364,7 @@ char* pBat_GetParameters(char** argv, char** lpFileName, int* bExitAfterCmd, int
                     break;
 
                 default:
-                    pBat_ShowErrorMessage(PBAT_BAD_COMMAND_LINE, NULL, -1);
+                    pBat_ShowErrorMessage(PBAT_BAD_COMMAND_LINE, argv[i], -1);
 
             }
 
-- 
2.43.0


From 84ff690904a368b3adf58c237747d2169c8ea2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 086/111] fix: the completion list passes sizes to printf as it
 expects them

---
 pbat/core/pBat_Completion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Completion.c b/pbat/core/pBat_Completion.c
index 714c343..694f397 100644
--- a/pbat/core/pBat_Completion.c
+++ b/pbat/core/pBat_Completion.c
@@ -144,7 +144,7 @@ void pBat_PrintCompletionList(FILELIST* files)
 
             ok = pBat_AskConfirmation(PBAT_ASK_YN | PBAT_ASK_DEFAULT_N,
                                    COMPLETION_READ, lpManyCompletionOptions,
-                                   count);
+                                   (int)count);
 #if !defined(WIN32)
             fputs("\r", fOutput);
 #endif
@@ -188,7 +188,7 @@ void pBat_PrintCompletionList(FILELIST* files)
 
         }
 
-        fprintf(fOutput, "%-*s", max + 1, name);
+        fprintf(fOutput, "%-*s", (int)max + 1, name);
         count ++;
 
         if (!(count % perline))
-- 
2.43.0


From c1d6715a9d1aa1a6ffdc1d781c9726dfe2e4efc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 087/111] fix: WC prints its counts with their width

---
 pbat/command/pBat_Wc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 349ba5c..8ebd443 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -169,16 +169,16 @@ void pBat_PrintCounts(int mode, struct wc_count_t* cnt, const char* file)
     /* Do not pretty print, gnu does so, but we won't */
 
     if (mode & PBAT_WC_LINES)
-        fprintf(fOutput, "%lu ", cnt->lines);
+        fprintf(fOutput, "%lu ", (unsigned long)cnt->lines);
 
     if (mode & PBAT_WC_WORDS)
-        fprintf(fOutput, "%lu ", cnt->words);
+        fprintf(fOutput, "%lu ", (unsigned long)cnt->words);
 
     if (mode & PBAT_WC_BYTES)
-        fprintf(fOutput, "%lu ", cnt->bytes);
+        fprintf(fOutput, "%lu ", (unsigned long)cnt->bytes);
 
     if (mode & PBAT_WC_CHARS)
-        fprintf(fOutput, "%lu ", cnt->chars);
+        fprintf(fOutput, "%lu ", (unsigned long)cnt->chars);
 
     if (file)
         fprintf(fOutput, "%s", file);
-- 
2.43.0


From 53f92e9592a2d7a91cbc34c26ef96617e14c26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 088/111] fix: a jump to a missing label frees nothing it did
 not load

---
 pbat/core/pBat_Jump.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/core/pBat_Jump.c b/pbat/core/pBat_Jump.c
index bd24ccb..bff1626 100644
--- a/pbat/core/pBat_Jump.c
+++ b/pbat/core/pBat_Jump.c
@@ -81,7 +81,9 @@ int pBat_JumpToLabel(char* lpLabelName, char* lpFileName)
 
     if (lbl == NULL) {
 
-        pBat_FreeBatchScript(&script);
+        if (new)
+            pBat_FreeBatchScript(&script);
+
         return -1;
 
     }
-- 
2.43.0


From 2ea5c4a69527ee55eca53aefae156e280104f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 089/111] fix: a failing CALL of a label leaves the script that
 runs as it was

---
 pbat/command/pBat_Call.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pbat/command/pBat_Call.c b/pbat/command/pBat_Call.c
index caac732..104954f 100644
--- a/pbat/command/pBat_Call.c
+++ b/pbat/command/pBat_Call.c
@@ -281,6 +281,9 @@ int pBat_CmdCallFile(char* lpFile, char* lpFull, char* lpLabel, char* lpCmdLine)
 
 		pBat_ShowErrorMessage(PBAT_LABEL_ERROR, lpLabel, FALSE);
 
+		/* the script of the caller goes on, as it was */
+		memcpy(&ifIn, &ifOldFile, sizeof(INPUT_FILE));
+
 		status = PBAT_LABEL_ERROR;
 		goto error;
 
-- 
2.43.0


From e0c7a251b466421482caa838f39e3973734350b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 090/111] fix: looking for a pending key leaves the terminal as
 it was

---
 libpbat/console/pBat_Console.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/libpbat/console/pBat_Console.c b/libpbat/console/pBat_Console.c
index e1fdafd..59e540b 100644
--- a/libpbat/console/pBat_Console.c
+++ b/libpbat/console/pBat_Console.c
@@ -92,18 +92,22 @@ LIBPBAT int pBat_Getch(FILE *f)
 /* Morgan McGuire, morgan@cs.brown.edu */
 int pBat_Kbhit(FILE *f)
 {
-  int bytesWaiting;
-  struct termios term;
+  int bytesWaiting, tty;
+  struct termios oldattr, newattr;
 
-  if (tcgetattr(fileno(f), &term) == 0) {
-    term.c_lflag &= ~ICANON;
-    tcsetattr(fileno(f), TCSANOW, &term);
+  if ((tty = tcgetattr(fileno(f), &oldattr) == 0)) {
+    newattr = oldattr;
+    newattr.c_lflag &= ~ICANON;
+    tcsetattr(fileno(f), TCSANOW, &newattr);
   }
 
   setbuf(f, NULL);
 
   if (ioctl(fileno(f), FIONREAD, &bytesWaiting) == -1)
-    return 0;
+    bytesWaiting = 0;
+
+  if (tty)
+    tcsetattr(fileno(f), TCSANOW, &oldattr);
 
   return bytesWaiting;
 }
-- 
2.43.0


From bc0af78b254eb608f83b48ede7568ca3e192c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 091/111] fix: reading the mouse leaves the mode of the console
 as it was

---
 libpbat/console/pBat_ConsoleWin.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libpbat/console/pBat_ConsoleWin.c b/libpbat/console/pBat_ConsoleWin.c
index 4958290..e5782bc 100644
--- a/libpbat/console/pBat_ConsoleWin.c
+++ b/libpbat/console/pBat_ConsoleWin.c
@@ -265,8 +265,10 @@ LIBPBAT void pBat_GetMousePos(FILE* f, char on_move, CONSOLECOORD* coords, int *
 {
 
     HANDLE hin;
+    DWORD mode;
 
-    if ((hin = _pBat_GetHandle(f)) == (HANDLE)-1) {
+    if ((hin = _pBat_GetHandle(f)) == (HANDLE)-1
+        || !GetConsoleMode(hin, &mode)) {
         *b = -1;
         return;
     }
@@ -291,6 +293,8 @@ LIBPBAT void pBat_GetMousePos(FILE* f, char on_move, CONSOLECOORD* coords, int *
 		*b = tomouse_b(ir.Event.MouseEvent.dwButtonState, ir.Event.MouseEvent.dwEventFlags);
 
 	} while (!on_move && *b == CORE_NOTHING);
+
+    SetConsoleMode(hin, mode);
 }
 
 #endif
-- 
2.43.0


From 1ff72592829a6ab88c6040976568c63f569be603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 092/111] fix: the environment is taken back when a new
 interpreter can not be started on a break

---
 pbat/core/pBat_Run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pbat/core/pBat_Run.c b/pbat/core/pBat_Run.c
index 74e1267..9c4b3cb 100644
--- a/pbat/core/pBat_Run.c
+++ b/pbat/core/pBat_Run.c
@@ -931,6 +931,7 @@ void pBat_SigHandlerBreak(int sig)
     execl(lppBatExec, lppBatExec, attr->str, NULL);
 
     /* only reached if execl() failed */
+    pBat_UnApplyEnv(lpeEnv);
     pBat_EsFree_Cached(attr);
 }
 
-- 
2.43.0


From 315c4a699fbb4b9fe736669a9304209cd261877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 093/111] fix: ENDLOCAL restores the options SETLOCAL changed

---
 pbat/command/pBat_Setlocal.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_Setlocal.c b/pbat/command/pBat_Setlocal.c
index 3ed91e5..117fbc5 100644
--- a/pbat/command/pBat_Setlocal.c
+++ b/pbat/command/pBat_Setlocal.c
@@ -60,7 +60,9 @@ int pBat_CmdSetLocal(char* lpLine)
 	char lpName[FILENAME_MAX];
 	char* lpNext=lpLine+8;
 	int push = 1,
-        status = PBAT_NO_ERROR;
+        status = PBAT_NO_ERROR,
+        delayed = bDelayedExpansion,
+        cmdly = bCmdlyCorrect;
 
 	while ((lpNext=pBat_GetNextParameter(lpNext, lpName, FILENAME_MAX))) {
 
@@ -75,16 +77,16 @@ int pBat_CmdSetLocal(char* lpLine)
 
         } else if (!stricmp(lpName, "ENABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=TRUE;
+			delayed=TRUE;
 
 		} else if (!stricmp(lpName, "DISABLEDELAYEDEXPANSION")) {
 
-			bDelayedExpansion=FALSE;
+			delayed=FALSE;
 
 		} else if (!stricmp(lpName, "CMDLYCORRECT")) {
 
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=TRUE;
+			cmdly=TRUE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYCORRECT",
@@ -95,7 +97,7 @@ int pBat_CmdSetLocal(char* lpLine)
 #endif
 		} else if (!stricmp(lpName, "CMDLYINCORRECT")) {
 #if !defined(PBAT_STATIC_CMDLYCORRECT)
-			bCmdlyCorrect=FALSE;
+			cmdly=FALSE;
 #else
 			pBat_ShowErrorMessage(PBAT_UNABLE_SET_OPTION,
 						"CMDLYINCORRECT",
@@ -127,6 +129,12 @@ int pBat_CmdSetLocal(char* lpLine)
 	if (push)
         pBat_PushEnvStack();
 
+	/* what ENDLOCAL restores is what was there before */
+	bDelayedExpansion = delayed;
+#if !defined(PBAT_STATIC_CMDLYCORRECT)
+	bCmdlyCorrect = cmdly;
+#endif
+
 	return iErrorLevel;
 }
 
-- 
2.43.0


From 7797604b94b049712fe5e763130dc66070b5ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 094/111] fix: terminate the path of the executable read from
 /proc

---
 libpbat/file/pBat_StdFile.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libpbat/file/pBat_StdFile.c b/libpbat/file/pBat_StdFile.c
index 73c235e..7a8d497 100644
--- a/libpbat/file/pBat_StdFile.c
+++ b/libpbat/file/pBat_StdFile.c
@@ -40,9 +40,13 @@ int pBat_GetExeFilename(char* lpBuf, size_t iBufSize)
 {
     #ifdef PBAT_FILE_SYM_LINK
 
-        if (readlink(PBAT_FILE_SYM_LINK, lpBuf, iBufSize)==-1)
+        ssize_t iSize = readlink(PBAT_FILE_SYM_LINK, lpBuf, iBufSize - 1);
+
+        if (iSize == -1)
         	return -1;
 
+        lpBuf[iSize] = '\0';
+
     #else
 
         /* if no OS-specific symlink is available, give up with
@@ -62,9 +66,13 @@ int pBat_GetExePath(char* lpBuf, size_t iBufSize)
 
     #ifdef PBAT_FILE_SYM_LINK
 
-        if (readlink(PBAT_FILE_SYM_LINK, lpBuf, iBufSize)==-1)
+        ssize_t iSize = readlink(PBAT_FILE_SYM_LINK, lpBuf, iBufSize - 1);
+
+        if (iSize == -1)
         	return -1;
 
+        lpBuf[iSize] = '\0';
+
         if ((lpDelim=strrchr(lpBuf, '/')))
             *lpDelim='\0';
 
-- 
2.43.0


From 2ef9d0e0784bda2d677e3aae7f43fe0c3d0eb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 095/111] fix: terminate the parts of a path that fill their
 buffers

---
 pbat/core/pBat_SplitPath.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pbat/core/pBat_SplitPath.c b/pbat/core/pBat_SplitPath.c
index 4a8821b..908f82b 100644
--- a/pbat/core/pBat_SplitPath.c
+++ b/pbat/core/pBat_SplitPath.c
@@ -37,7 +37,7 @@ void pBat_SplitPath(char* lpPath,
         PBAT_DBG("Found disk_name=\"%c\"\n", *lpToken);
 
         if (lpDisk)
-            snprintf(lpDisk, FILENAME_MAX, "%c:", *lpToken);
+            snprintf(lpDisk, _MAX_DRIVE, "%c:", *lpToken);
 
         lpToken+=3;
 
@@ -56,8 +56,10 @@ void pBat_SplitPath(char* lpPath,
 
 		PBAT_DBG("found path=\"%s\"\n", lpToken);
 
-		if (lpDir)
+		if (lpDir) {
 			strncpy(lpDir, lpToken, _MAX_DIR);
+			lpDir[_MAX_DIR - 1] = '\0';
+		}
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken;
@@ -77,8 +79,10 @@ void pBat_SplitPath(char* lpPath,
 		PBAT_DBG("found name=\"%s\"\n", lpToken);
 
 
-		if (lpName)
+		if (lpName) {
 			strncpy(lpName, lpToken, _MAX_FNAME);
+			lpName[_MAX_FNAME - 1] = '\0';
+		}
 
 		*lpNextToken=cSaveChar;
 		lpToken=lpNextToken+1;
@@ -90,8 +94,10 @@ void pBat_SplitPath(char* lpPath,
 
 	} else {
 
-		if (lpName)
+		if (lpName) {
 			strncpy(lpName, lpToken, _MAX_FNAME);
+			lpName[_MAX_FNAME - 1] = '\0';
+		}
 
 		if (lpExt)
 			*lpExt='\0';
-- 
2.43.0


From 442aea45f641d40d7ad4e2a413d42902f1e21dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 096/111] fix: leave room for the end of the name when COPY
 appends an extension

---
 pbat/command/pBat_Copy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Copy.c b/pbat/command/pBat_Copy.c
index 4a4ddcf..126d030 100644
--- a/pbat/command/pBat_Copy.c
+++ b/pbat/command/pBat_Copy.c
@@ -342,7 +342,7 @@ int pBat_CmdCopyFile(char* file, const char* dest, int* flags)
 
         pBat_SplitPath(file, NULL, NULL, name, ext);
 
-        strncat(name, ext, FILENAME_MAX - strlen(name));
+        strncat(name, ext, FILENAME_MAX - strlen(name) - 1);
         name[FILENAME_MAX-1] = '\0';
 
         pBat_MakePath(dest_real, 2, dest, name);
-- 
2.43.0


From f2ef911337c7b5e46d7a2141a42c0581d38e3862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 097/111] fix: do not run over the buffer when measuring a long
 prompt

---
 pbat/linenoise/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/linenoise/linenoise.c b/pbat/linenoise/linenoise.c
index c847d86..44450db 100644
--- a/pbat/linenoise/linenoise.c
+++ b/pbat/linenoise/linenoise.c
@@ -696,7 +696,7 @@ static size_t promptTextColumnLen(const char *prompt, size_t plen) {
     char buf[LINENOISE_MAX_LINE];
     size_t buf_len = 0;
     size_t off = 0;
-    while (off < plen) {
+    while (off < plen && buf_len < LINENOISE_MAX_LINE) {
         size_t len;
         if (isAnsiEscape(prompt + off, plen - off, &len)) {
             off += len;
-- 
2.43.0


From a62dc4bdef87cd1e0c9c6459ff03d371c18f12ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 098/111] fix: do not look up entry -1 of an empty console
 history

---
 libcu8/src/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcu8/src/read.c b/libcu8/src/read.c
index c859982..3b5a0dc 100644
--- a/libcu8/src/read.c
+++ b/libcu8/src/read.c
@@ -406,7 +406,7 @@ int libcu8_readconsole(int fd, char* buf, size_t size, size_t* written)
 
             if (hid < (libcu8_history_count - 1))
                 hid ++;
-            else
+            else if (libcu8_history_count > 0)
                 hid = libcu8_history_count - 1;
 
             if (libcu8_history_count > hid
-- 
2.43.0


From 1b63717bc29eec208d78a552003bfd2802fc0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 099/111] fix: compare an error number with the number of
 messages, not with their size

---
 pbat/errors/pBat_Errors.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/errors/pBat_Errors.c b/pbat/errors/pBat_Errors.c
index f427625..c67b10f 100644
--- a/pbat/errors/pBat_Errors.c
+++ b/pbat/errors/pBat_Errors.c
@@ -252,7 +252,7 @@ void pBat_ShowErrorMessage(unsigned int iErrorNumber,
 	if (iErrorNumber & PBAT_PRINT_C_ERROR)
         msg = strerror(errno);
 
-	if ((iErrorNumber & ~PBAT_PRINT_C_ERROR) < sizeof(lpErrorMsg)) {
+	if ((iErrorNumber & ~PBAT_PRINT_C_ERROR) < sizeof(lpErrorMsg) / sizeof(lpErrorMsg[0])) {
 
         fprintf(fError,
 		        lpErrorMsg[iErrorNumber & ~PBAT_PRINT_C_ERROR],
-- 
2.43.0


From d95507595000d48a63a8e626630a14abc8005bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 100/111] fix: do not look before the start of an empty operand
 of IF

---
 pbat/command/pBat_If.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.c b/pbat/command/pBat_If.c
index c741401..17b8ca2 100644
--- a/pbat/command/pBat_If.c
+++ b/pbat/command/pBat_If.c
@@ -241,7 +241,7 @@ int pBat_CmdIf(char* lpParam, PARSED_LINE** lpplLine)
 				*/
 				char *q = (lpToken2 + strlen(lpToken2) - 1);
 
-				if (*q == '"') {
+				if (*lpToken2 && *q == '"') {
 					*q = '\0';
 					lpToken++;
 				}
-- 
2.43.0


From bfd692ab837d6819b99f07456a262244394f77f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:27 +0000
Subject: [PATCH 101/111] fix: WC reports a file it could not read to the end

---
 pbat/command/pBat_Wc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pbat/command/pBat_Wc.c b/pbat/command/pBat_Wc.c
index 8ebd443..3bc3fa9 100644
--- a/pbat/command/pBat_Wc.c
+++ b/pbat/command/pBat_Wc.c
@@ -153,6 +153,14 @@ int pBat_FileCounts(int mode, const char* file, struct wc_count_t* cnt)
         clearerr(fInput);
     }
 
+    if (size == -1) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                file ? file : "stdin", 0);
+        return PBAT_FILE_ERROR;
+
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 122909465e0da88b5e4a9efa87eb964caa599503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:27 +0000
Subject: [PATCH 102/111] fix: do not run a program in another directory than
 the one asked for

---
 pbat/core/pBat_Exec.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pbat/core/pBat_Exec.c b/pbat/core/pBat_Exec.c
index 5424b94..ed408f7 100644
--- a/pbat/core/pBat_Exec.c
+++ b/pbat/core/pBat_Exec.c
@@ -294,7 +294,7 @@ int pBat_RunFile(EXECINFO* info, int* error)
 {
 	pid_t iPid;
 	int fds[2], i;
-	char c;
+	char c, cwd[FILENAME_MAX];
 
 	int iResult = 0;
 
@@ -317,7 +317,18 @@ int pBat_RunFile(EXECINFO* info, int* error)
 		/* if we are in the son */
         pBat_ApplyEnv(lpeEnv); /* set internal variable */
         pBat_ApplyStreams(lppsStreamStack);
-        chdir(info->dir);
+
+        /* Never run the program elsewhere than in the directory it was
+           meant to be run in. */
+        if (chdir(info->dir) == -1
+            && (getcwd(cwd, sizeof(cwd)) == NULL || strcmp(cwd, info->dir))) {
+
+            write(fds[1], "x", 1);
+            close(fds[1]);
+
+            exit(-1);
+
+        }
 
         pBat_SetFdInheritance(fds[1], 0);
 
-- 
2.43.0


From 3777f7e07fb2d511e44628ecaccbb79d642013c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 103/111] fix: TYPE reports a file it could not read to the end

---
 pbat/command/pBat_Type.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pbat/command/pBat_Type.c b/pbat/command/pBat_Type.c
index 9230a71..479b764 100644
--- a/pbat/command/pBat_Type.c
+++ b/pbat/command/pBat_Type.c
@@ -81,6 +81,19 @@ int pBat_TypeFile(char* lpFileName)
     while ((size = fread(buf, 1, sizeof(buf), pFile)))
         fwrite(buf, 1, size, fOutput);
 
+    if (ferror(pFile)) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                lpFileName,
+                                FALSE
+                                );
+
+        fclose(pFile);
+
+        return PBAT_FILE_ERROR;
+
+    }
+
     fclose(pFile);
 
     return 0;
-- 
2.43.0


From 0074daf215f046c50b9bb1937d929c1624f0cddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 104/111] fix: FIND reports a file it could not read to the end

---
 pbat/command/pBat_Find.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index b3a3bcf..47f02bd 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -144,6 +144,18 @@ int pBat_FileFind(char* restrict str, char* restrict name, int count, int flag,
 
     }
 
+    if (name && ferror(pFile)) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                name,
+                                FALSE
+                                );
+        i = 0;
+
+        goto end;
+
+    }
+
     if (count == 2)
         fprintf(fOutput, "%d" PBAT_NL, i);
 
-- 
2.43.0


From e5fdd926e056fcd44739ae887cb526a2aa0e753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 105/111] fix: MORE reports a file it could not read to the end

---
 pbat/command/pBat_More.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pbat/command/pBat_More.c b/pbat/command/pBat_More.c
index ac9937c..594ced3 100644
--- a/pbat/command/pBat_More.c
+++ b/pbat/command/pBat_More.c
@@ -301,6 +301,17 @@ int pBat_MoreFile(FILE* in, int flags, int tabsize, int begin, char* filename)
      }
 
 end:
+     if (filename && ferror(file)) {
+
+        pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                                filename,
+                                FALSE
+                                );
+
+        status = PBAT_FILE_ERROR;
+
+     }
+
      if (file != fInput)
         fclose(file);
      else if (isatty(fileno(fInput)))
-- 
2.43.0


From 5bbb154e277cc615b786aa8a4912fb98c3d2f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 106/111] fix: FOR /F reports a file it could not read to the
 end

---
 pbat/command/pBat_For.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index db27e00..a0e0c73 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1460,6 +1460,20 @@ loop_begin:
 retry:
 			if ((pBat_EsGet(lpReturn, lpipInfo->Info.InputFile.pFile))) {
 
+                if (lpipInfo->cType == INPUTINFO_TYPE_STREAM
+                    && ferror(lpipInfo->Info.InputFile.pFile)) {
+
+                    pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
+                            lpipInfo->Info.InputFile.lpesFiles[
+                                lpipInfo->Info.InputFile.index
+                            ]->str,
+                            FALSE
+                            );
+
+                    return -1;
+
+                }
+
                 if (lpipInfo->Info.InputFile.lpesFiles[
                         ++ (lpipInfo->Info.InputFile.index)
                         ] == NULL) {
-- 
2.43.0


From b23fcb43d2f6b6b6153fadaa01a369f19f69288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:18 +0000
Subject: [PATCH 107/111] fix: do not run the part of a script read before an
 error

---
 pbat/core/pBat_ReadScript.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pbat/core/pBat_ReadScript.c b/pbat/core/pBat_ReadScript.c
index cf5e3ef..d13e9a5 100644
--- a/pbat/core/pBat_ReadScript.c
+++ b/pbat/core/pBat_ReadScript.c
@@ -267,6 +267,19 @@ int pBat_LoadBatchScript(struct batch_script_t* script)
 
     }
 
+    /* what could be read is not the script */
+    if (ferror(file)) {
+
+        pBat_FreeCmdlines(script->cmds);
+        pBat_FreeLabels(script->lbls);
+        script->curr = NULL;
+        script->cmds = NULL;
+        script->lbls = NULL;
+
+        goto error;
+
+    }
+
     script->curr = script->cmds;
 
     pBat_EsFree_Cached(cmd);
-- 
2.43.0


From 19394928821ef31dfedb051384074c79ab610403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:45 +0000
Subject: [PATCH 108/111] fix: FIND leaves the directories out of what it
 searches

---
 pbat/command/pBat_Find.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbat/command/pBat_Find.c b/pbat/command/pBat_Find.c
index 47f02bd..96026f7 100644
--- a/pbat/command/pBat_Find.c
+++ b/pbat/command/pBat_Find.c
@@ -297,7 +297,7 @@ int pBat_CmdFind(char* lpLine)
     }
 
     /* split directories from input */
-    pBat_AttributesSplitFileList(PBAT_CMD_ATTR_DIR_N,
+    pBat_AttributesSplitFileList(PBAT_ATTR_NO_DIR,
                                     pBegin,
                                     &pBegin,
                                     &pTmp
-- 
2.43.0


From c83fb0f46c2cb91b42c82ab26e29704638d3113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:20 +0000
Subject: [PATCH 109/111] fix: FOR /F also reports a command whose output it
 could not read to the end

---
 pbat/command/pBat_For.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pbat/command/pBat_For.c b/pbat/command/pBat_For.c
index a0e0c73..802d36f 100644
--- a/pbat/command/pBat_For.c
+++ b/pbat/command/pBat_For.c
@@ -1460,13 +1460,13 @@ loop_begin:
 retry:
 			if ((pBat_EsGet(lpReturn, lpipInfo->Info.InputFile.pFile))) {
 
-                if (lpipInfo->cType == INPUTINFO_TYPE_STREAM
-                    && ferror(lpipInfo->Info.InputFile.pFile)) {
+                if (ferror(lpipInfo->Info.InputFile.pFile)) {
 
                     pBat_ShowErrorMessage(PBAT_FILE_ERROR | PBAT_PRINT_C_ERROR,
-                            lpipInfo->Info.InputFile.lpesFiles[
-                                lpipInfo->Info.InputFile.index
-                            ]->str,
+                            (lpipInfo->cType == INPUTINFO_TYPE_STREAM) ?
+                                lpipInfo->Info.InputFile.lpesFiles[
+                                    lpipInfo->Info.InputFile.index
+                                ]->str : "FOR",
                             FALSE
                             );
 
-- 
2.43.0


From 5d217518d4fde726722d3f19f59069cc03b1a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 110/111] fix: an EXIT /B of the initialisation script or of
 the /K command does not end what runs next

---
 pbat/pBat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pbat/pBat.c b/pbat/pBat.c
index fa2b666..4caf0d9 100644
--- a/pbat/pBat.c
+++ b/pbat/pBat.c
@@ -175,6 +175,7 @@ int main(int argc, char *argv[])
 
     /* running auto batch initialisation */
     pBat_RunAutoBat();
+    bAbortCommand = 0;
 
     if (lpCmdCSwitch != NULL) {
 
@@ -182,6 +183,7 @@ int main(int argc, char *argv[])
 
         pBat_EsCpy(lpesCmd, lpCmdCSwitch);
         pBat_RunLine(lpesCmd);
+        bAbortCommand = 0;
 
         if (bExitAfterCmd == TRUE)
             goto skip;
-- 
2.43.0


From bbdc01352d6da04f7675bdc6b8193f05fb548cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 111/111] fix: IF ERRORLEVEL compares with the error level, not
 with a variable that does not exist

---
 pbat/command/pBat_If.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pbat/command/pBat_If.h b/pbat/command/pBat_If.h
index 16c279e..b20ba9e 100644
--- a/pbat/command/pBat_If.h
+++ b/pbat/command/pBat_If.h
@@ -55,7 +55,9 @@
     ret = (pBat_GetEnv(env, var) != NULL);
 
 #define PBAT_IF_ERRORLEVEL_TEST(ret, val, env) \
-    ret = !stricmp(val, pBat_GetEnv(env, "ERRORLEVEL"));
+    char _if_errorlevel[16]; \
+    snprintf(_if_errorlevel, sizeof(_if_errorlevel), "%d", iErrorLevel); \
+    ret = !strcmp(val, _if_errorlevel);
 
 int pBat_PerformExtendedTest(const char* lpCmp, const char* lpParam1, const char* lpParam2, int iFlag);
 
-- 
2.43.0

