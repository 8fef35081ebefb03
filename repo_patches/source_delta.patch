From 9ec894637a8666d268eed4b782fc053cb4fd9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 001/118] fix: consume the step when a compressed proof
 exhausts the RPN stack

---
 src/mmpars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 12c4043..ac78b70 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3164,7 +3164,9 @@ char parseCompressedProof(long statemNum)
             g_WrkProof.RPNStack[g_WrkProof.RPNStackPtr] = g_WrkProof.numSteps;
             g_WrkProof.RPNStackPtr++;
             if (returnFlag < 3) returnFlag = 3;
-            continue;
+            g_WrkProof.numSteps++;
+            labelMapIndex = 0; // Reset it for next label
+            break; // Go on to the next character
           } // End if stack exhausted
 
           numReqHyp = g_Statement[stmt].numReqHyp;
-- 
2.43.0


From 71d762103e3bf1cef9b2ce35d949bccb1393431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 002/118] fix: crash on an out-of-range compressed reference
 when there is no label to fall back on

---
 src/mmpars.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index ac78b70..6729e18 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3111,10 +3111,10 @@ char parseCompressedProof(long statemNum)
           }
           g_WrkProof.errorCount++;
           if (returnFlag < 2) returnFlag = 2;
-          labelMapIndex = 0; // Make it something legal to avoid side effects
+          stmt = -(long)'?'; // Treat it like an unknown step
+        } else {
+          stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
         }
-
-        stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
         g_WrkProof.proofString[g_WrkProof.numSteps] = stmt;
 
         // Update stack
-- 
2.43.0


From d33fb4c60079bfa8f8c0f6c8ee62eb22ced7e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 003/118] fix: don't look for obsolete compression in the last
 label of the label list

---
 src/mmpars.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 6729e18..7ed6fe3 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3061,6 +3061,7 @@ char parseCompressedProof(long statemNum)
   // Check to see if the old buggy compression is used.  If so,
   // warn the user to reformat, and switch to the buggy algorithm so that
   // parsing can proceed.
+  fbPtr = fbStartProof; // Don't look at the label list
   bggyProofLen = g_Statement[statemNum].proofSectionLen -
              (fbPtr - g_Statement[statemNum].proofSectionPtr);
   // Zap a zero at the end of the proof so we can use C string operations
-- 
2.43.0


From 4d43d7e1f0bb707d96a5a0848861f5d89bb95186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 004/118] fix: a local label before the first step of a
 compressed proof must not enter the label map

---
 src/mmpars.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 7ed6fe3..569bf65 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3204,11 +3204,6 @@ char parseCompressedProof(long statemNum)
           labelMapIndex = 0;
         }
 
-        // Put local label in label map
-        g_WrkProof.compressedPfLabelMap[g_WrkProof.compressedPfNumLabels] =
-          -1000 - (g_WrkProof.numSteps - 1);
-        g_WrkProof.compressedPfNumLabels++;
-
         hypLocUnkFlag = 0;
 
         if (g_WrkProof.numSteps == 0) {
@@ -3225,6 +3220,11 @@ char parseCompressedProof(long statemNum)
           break;
         }
 
+        // Put local label in label map
+        g_WrkProof.compressedPfLabelMap[g_WrkProof.compressedPfNumLabels] =
+          -1000 - (g_WrkProof.numSteps - 1);
+        g_WrkProof.compressedPfNumLabels++;
+
         stmt = g_WrkProof.proofString[g_WrkProof.numSteps - 1];
         if (stmt < 0) { // Local label or '?'
           hypLocUnkFlag = 1;
-- 
2.43.0


From dd482ffe07e98ffd6492e9846a81f925e21a4216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 005/118] fix: overflow of the label number in a compressed
 proof with a long run of digits

---
 src/mmpars.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 569bf65..1222e38 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3191,6 +3191,9 @@ char parseCompressedProof(long statemNum)
               chrWeight[(long)(fbPtr[0])] + 1;
           if (bggyAlgo) labelMapIndex--; // Adjust for buggy algorithm
         }
+        // Don't let a long run of digits overflow; this is well outside the
+        // range of any label list and will be reported as such.
+        if (labelMapIndex > 100000000) labelMapIndex = 100000000;
         break;
 
       case 2: // "Colon" (i.e. Z)
-- 
2.43.0


From 8123c3fa573bc034e3502feb63f1b9e28f2ed99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 006/118] fix: verifyProof must return an error when the
 proof's result is wrong or a step is ambiguous

---
 src/mmveri.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmveri.c b/src/mmveri.c
index 792740f..eff5e35 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -198,6 +198,10 @@ char verifyProof(long statemNum) {
     }
   }
 
+  // An error counted above (e.g. a wrong final result) or in parseProof()
+  // means the proof is not OK
+  if (g_WrkProof.errorCount && returnFlag < 2) returnFlag = 2;
+
   free_nmbrString(bigSubstSchemeHyp);
   free_nmbrString(bigSubstInstHyp);
 
-- 
2.43.0


From d94493144db944b108eab647410211bafc15c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 007/118] fix: out-of-bounds read when a math token is longer
 than every declared symbol

---
 src/mmpars.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 1222e38..84b279c 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1093,7 +1093,7 @@ void parseStatements(void) {
           for (; symbolLen > 0; symbolLen = 0) {
 
             // symbolLenExists means a symbol of this length was declared
-            if (!symbolLenExists[symbolLen]) continue;
+            if (symbolLen > maxSymbolLen || !symbolLenExists[symbolLen]) continue;
             wrkStrPtr[symbolLen] = 0; // Define end of trial token to look up
             g_mathKeyPtr = (void *)bsearch(wrkStrPtr, g_mathKey, (size_t)g_mathTokens,
                 sizeof(long), mathSrchCmp);
@@ -4691,7 +4691,7 @@ nmbrString *parseMathTokens(vstring userText, long statemNum)
           memcpy(wrkStrPtr, fbPtr, (size_t)symbolLen);
           for (; symbolLen > 0; symbolLen--) {
             // symbolLenExists means a symbol of this length was declared
-            if (!symbolLenExists[symbolLen]) continue;
+            if (symbolLen > maxSymbolLen || !symbolLenExists[symbolLen]) continue;
             wrkStrPtr[symbolLen] = 0; // Define end of trial token to look up
             g_mathKeyPtr = (void *)bsearch(wrkStrPtr, g_mathKey,
                 (size_t)g_mathTokens, sizeof(long), mathSrchCmp);
-- 
2.43.0


From 12743eccd724f05e91f8f757bf75484ff76b07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 008/118] fix: false internal bug report (1708) after an
 inactive variable in a $e statement was reported

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 84b279c..9abe1db 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1710,7 +1710,8 @@ void parseStatements(void) {
           g_Statement[stmt].optVarList = nmbrTmpPtr;
         }
 
-        if (optVars + reqVars != activeVarStackPtr) bug(1708);
+        // (The lists can disagree when an inactive symbol was reported above.)
+        if (optVars + reqVars != activeVarStackPtr && !g_errorCount) bug(1708);
 
         break; // Switch case break
     }
-- 
2.43.0


From 862f3f22e1aeebee9e9a912e8c8d33b985952b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 009/118] fix: endless loop compressing a proof with a label
 too long for the line

---
 src/mmdata.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index 8583bd7..fda51ac 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -2192,6 +2192,16 @@ temp_vstring compressProof(const nmbrString *proof, long statemNum,
       // far in the future.  Here we will just put the labels in the order
       // that will cause it to wrap at the desired place.
       explWidth = g_screenWidth - indentation - explOffset + 1;
+      if (explWidth < 0) explWidth = 0;
+      if (explOffset == 0) {
+        // A label that doesn't fit on a whole line must be put there anyway.
+        for (j = 0; j < explLabels; j++) {
+          if (explComprLen[j] == i && explUsedFlag[j] == 'n'
+              && explLabelLen[j] > explWidth) {
+            explWidth = explLabelLen[j];
+          }
+        }
+      }
 
       // Fill in the label list output line with labels that fit best.
       // The knapsack01() call below is always given the entire set of
-- 
2.43.0


From b74930e93e1b8d5ed34ee46223496ddf5e16fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 010/118] fix: bug 1730 from WRITE SOURCE / REWRAP when a
 comment ends with a blank line

---
 src/mmpars.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 9abe1db..73d2d24 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4395,6 +4395,9 @@ vstring rewrapComment(const char *comment1) {
   let(&comment, edit(comment, 16 /* reduce spaces */));
 
   // Remove spaces and blank lines at end of comment
+  length = (long)strlen(comment);
+  // (A newline after a blank line was not changed to a space above)
+  if (comment[length - 3] == '\n') comment[length - 3] = ' ';
   while (1) {
     length = (long)strlen(comment);
     // Should have been syntax err (no space before "$)")
-- 
2.43.0


From 1fdbc0da209fab6ba414fcf728c9897ad7844bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 011/118] fix: WRITE SOURCE / FORMAT and / REWRAP must not lose
 or truncate comments next to labels

---
 src/mmpars.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 73d2d24..3f9f110 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4045,6 +4045,12 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         break; // End of ${, $}, $v, $c, $d cases
       case a_: // $a
       case p_: // $p
+        // Take out the label, which is put back below.  (There can be a
+        // comment between the label and the keyword.)
+        pos = whiteSpaceLen(labelSection) + 1;
+        let(&labelSection, cat(left(labelSection, pos - 1),
+            right(labelSection,
+                pos + (long)strlen(g_Statement[stmt].labelName)), NULL));
         // Get last $(
         commentStart = rinstr(labelSection,  "$(");
         // Get last $)
@@ -4088,6 +4094,12 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         if (nowrapHtml == 0) {
           // This strips off leading spaces before $( (start of comment).  Don't
           // do it for <HTML>, since spacing before $( is manual.
+          if (instr(pos + 1, labelSection, "$)") != 0) {
+            // Another comment ends on this line; keep it
+            let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
+                "\n", NULL));
+            pos = (long)strlen(labelSection);
+          }
           let(&labelSection, left(labelSection, pos));
 
           if (reformatFlag == 2) {
@@ -4161,8 +4173,13 @@ vstring outputStatement(long stmt, flag reformatFlag) {
         break; // End of $a, $p cases
       case e_: // $e
       case f_: // $f
-        pos = rinstr(labelSection, g_Statement[stmt].labelName);
-        let(&labelSection, left(labelSection, pos - 1));
+        // Take out the label, which is put back below, and the rest of the
+        // label section unless there is a comment between label and keyword.
+        pos = whiteSpaceLen(labelSection) + 1;
+        let(&str1, right(labelSection,
+            pos + (long)strlen(g_Statement[stmt].labelName)));
+        if (instr(1, str1, "$(") == 0) free_vstring(str1);
+        let(&labelSection, cat(left(labelSection, pos - 1), str1, NULL));
         pos = rinstr(labelSection, "\n");
         // If there is none, insert it (unless first line in file)
         if (pos == 0 && stmt > 1) {
@@ -4170,6 +4187,12 @@ vstring outputStatement(long stmt, flag reformatFlag) {
               "\n", NULL));
           pos = (long)strlen(labelSection) + 1;
         }
+        if (instr(pos + 1, labelSection, "$)") != 0) {
+          // A comment ends on this line; keep it
+          let(&labelSection, cat(edit(labelSection, 128 /* trailing spaces */),
+              "\n", NULL));
+          pos = (long)strlen(labelSection);
+        }
         let(&labelSection, left(labelSection, pos));
         // If previous statement is $d or $e and there is no comment after it,
         // discard entire rest of label to get rid of redundant blank lines.
-- 
2.43.0


From d4356fdff82a9057423b8daf317afaba13150e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 012/118] fix: bug 1765 when an included file refers to the
 main file

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 3f9f110..38f7669 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5803,7 +5803,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
       // This file has already been included. Change Begin and $[ $] to
       // Skip. alreadyInclBy is the index of the previous g_IncludeCall that
       // included it.
-      if (!(alreadyInclBy > 0)) bug(1765);
+      if (!(alreadyInclBy >= 0)) bug(1765);
       switch (cmdType) {
         case 'B':
           // Save the included source temporarily
-- 
2.43.0


From 2ec5edd41875489a87fa987a1fc818bc6a43669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 013/118] fix: wrong line numbers after some kinds of file
 inclusion

---
 src/mmpars.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 38f7669..c99e207 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5643,13 +5643,15 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum - 1;
+          // The entry starts at the whitespace that ends the prefix
+          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum
+              - ((newFileBuf[cmdPos2 - 2] == '\n') ? 1 : 0);
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 - 1) + 1;
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              + cmdPos2 - 1, // start at cmdPos2-th character
+              endPos2 - cmdPos2);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           // Call recursively to expand any includes in the included source.
@@ -5701,7 +5703,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // Get the parent line number up to the inclusion.
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum.
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
@@ -5765,7 +5767,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
           // TODO: compute aftInclLineNum directly and eliminate befInclLineNum
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
@@ -5830,12 +5832,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos2 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 /* - 1 */);
+              + cmdPos2 - 1, // start at cmdPos2-th character
+              endPos2 - cmdPos2);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5860,12 +5862,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
+              + cmdPos1, // start at (cmdPos1+1)th character
+              cmdPos2 - cmdPos1 - 1);
           g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
@@ -5890,13 +5892,13 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           // Get the parent line number up to the inclusion
           befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
+              newFileBuf + startOffset,
               cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
           aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
+              + cmdPos1, // start at (cmdPos1+1)th character
+              cmdPos2 - cmdPos1 - 1);
+          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
           parentLineNum = aftInclLineNum;
 
           let(&inclSource, ""); // Final source to be stored - none
-- 
2.43.0


From fd6e938c8ab767ab7cf24d5ae82d0a13a9d25d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 014/118] fix: expand inclusions inside a $( Begin $[ ... $(
 End $[ section

---
 src/mmpars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index c99e207..6f91047 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5666,8 +5666,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // newInclSize = oldInclSize; // Includes new prefix and suffix
           newInclSize = (long)strlen(inclPrefix) + inclSize +
                 (long)strlen(inclSuffix); // Includes new prefix and suffix
-          // It is already a Begin comment, so leave it alone
-          // *size = *size;
+          // It is already a Begin comment, so leave it alone, but put back its
+          // source, in which includes may have been expanded
+          let(&newFileBuf, cat(left(newFileBuf, cmdPos1 - 1),
+              inclPrefix, inclSource, inclSuffix,
+              right(newFileBuf, endPos2), NULL));
+          *size = *size - oldInclSize + newInclSize;
           // Adjust starting position for next inclusion search
           // -1 since startOffset is 0-based but cmdPos2 is 1-based
           startOffset = cmdPos1 + newInclSize - 1;
-- 
2.43.0


From 31cf81c56733dbd12a08450f98ab12292a7ab36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 015/118] fix: crash on a $( Begin $[ section for a file that
 is still being included

---
 src/mmpars.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 6f91047..eb6646e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5604,6 +5604,8 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
     saveInclCalls = g_includeCalls;
 
     g_IncludeCall[saveInclCalls - 1].included_fn = ""; // Initialize string
+    // (Can be looked at before it is assigned if the file includes itself)
+    g_IncludeCall[saveInclCalls - 1].current_includeSource = "";
     // Name of the file in the inclusion statement e.g. "$( Begin $[ included_fn..."
     let(&(g_IncludeCall[saveInclCalls - 1].included_fn), includeFn);
     g_IncludeCall[saveInclCalls].included_fn = "";
-- 
2.43.0


From f983d4207a46892a42a25d8cbad008064992b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 016/118] fix: out-of-bounds read when an empty file is read

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index e6c8579..806dc48 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1416,7 +1416,7 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
   }
 
   // Make sure the last line is not a partial line
-  if (fileBuf[(*charCount) - 1] != '\n') {
+  if ((*charCount) == 0 || fileBuf[(*charCount) - 1] != '\n') {
     if (verbose) print2(
         "?Warning: the last line in file \"%s\" is incomplete.\n",
         fileName);
-- 
2.43.0


From 1cae77dab45a2ae90cf500a51ba0586235172822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 017/118] fix: WRITE SOURCE / SPLIT ignored / NO_VERSIONING;
 null pointer printed when the output can't be written

---
 src/mmcmds.c | 2 +-
 src/mmpars.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4844624..90bf724 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3764,7 +3764,7 @@ void writeSource(
   } else { // Write a non-split version
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
     if (fp == NULL) {
-      print2("?Error trying to write \"%s\".\n", fp);
+      print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     } else {
       fprintf(fp, "%s", buffer); // Write the non-split output file
       fclose(fp);
diff --git a/src/mmpars.c b/src/mmpars.c
index eb6646e..a9d8762 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5295,7 +5295,7 @@ vstring writeSourceToBuffer(void) {
         }
       }
       if (writeFlag == 1) {
-        fp = fSafeOpen(fileNameWithPath, "w", 0 /* noVersioningFlag */);
+        fp = fSafeOpen(fileNameWithPath, "w", noVersioningFlag);
         if (fp == NULL) {
           // TODO: better error msg?  Abort and don't split?
           print2("?Error: couldn't create the file \"%s\"\n", fileNameWithPath);
-- 
2.43.0


From 8e16b6282f2b49081c87b4f492b34e101dde8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 018/118] fix: WRITE SOURCE / EXTRACT must not drop a label
 that is followed by a comment

---
 src/mmdata.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index fda51ac..f741597 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3043,17 +3043,26 @@ vstring getDescription(long statemNum) {
 // comment.  The caller must deallocate the result.
 vstring getDescriptionAndLabel(long stmt) {
   vstring_def(descriptionAndLabel);
+  vstring_def(labelAndRest);
   long p1, p2;
   flag dontUseComment = 0;
 
   let(&descriptionAndLabel, space(g_Statement[stmt].labelSectionLen));
   memcpy(descriptionAndLabel, g_Statement[stmt].labelSectionPtr,
       (size_t)(g_Statement[stmt].labelSectionLen));
+  // The description is the last comment before the label.  Set aside the
+  // label and what follows it (there may be a comment between the label and
+  // the keyword).
+  p1 = whiteSpaceLen(descriptionAndLabel);
+  let(&labelAndRest, right(descriptionAndLabel, p1 + 1));
+  let(&descriptionAndLabel, left(descriptionAndLabel, p1));
   p1 = rinstr(descriptionAndLabel, "$(");
   p2 = rinstr(descriptionAndLabel, "$)");
   if (p1 == 0 || p2 == 0 || p2 < p1) {
     // The statement has no comment; just return the label and
     // surrounding spacing if any.
+    let(&descriptionAndLabel, cat(descriptionAndLabel, labelAndRest, NULL));
+    free_vstring(labelAndRest);
     return descriptionAndLabel;
   }
   // Search backwards for non-space or beginning of string
@@ -3089,6 +3098,8 @@ vstring getDescriptionAndLabel(long stmt) {
     let(&descriptionAndLabel, right(descriptionAndLabel, p2 + 2));
   }
 
+  let(&descriptionAndLabel, cat(descriptionAndLabel, labelAndRest, NULL));
+  free_vstring(labelAndRest);
   return descriptionAndLabel;
 } // getDescriptionAndLabel
 
-- 
2.43.0


From 30f8694e3e587393b71414845a7abf67aa0ec8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 019/118] fix: WRITE SOURCE / EXTRACT must put white space
 before the first statement and section header

---
 src/mmcmds.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 90bf724..b217fdd 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -8,6 +8,7 @@
 
 #include <string.h>
 #include <stdlib.h>
+#include <ctype.h>
 #include <time.h>
 #include "mmvstr.h"
 #include "mmdata.h"
@@ -4174,7 +4175,7 @@ void writeExtractedSource(
 
   fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
   if (fp == NULL) {
-    print2("?Error trying to write \"%s\".\n", fp);
+    print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     goto EXTRACT_RETURN;
   }
 
@@ -4225,18 +4226,22 @@ void writeExtractedSource(
       freeTempAlloc();
       if (hugeHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &hugeHdrComment);
+        if (!isspace((unsigned char)(hugeHdr[0]))) fprintf(fp, "\n");
         fprintf(fp, "%s", cat(hugeHdr, hugeHdrComment, hdrSuffix, NULL));
       }
       if (bigHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &bigHdrComment);
+        if (!isspace((unsigned char)(bigHdr[0]))) fprintf(fp, "\n");
         fprintf(fp, "%s", cat(bigHdr, bigHdrComment, hdrSuffix, NULL));
       }
       if (smallHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &smallHdrComment);
+        if (!isspace((unsigned char)(smallHdr[0]))) fprintf(fp, "\n");
         fprintf(fp, "%s", cat(smallHdr, smallHdrComment, hdrSuffix, NULL));
       }
       if (tinyHdrNeeded[stmt] == 'Y') {
         fixUndefinedLabels(extractNeeded, &tinyHdrComment);
+        if (!isspace((unsigned char)(tinyHdr[0]))) fprintf(fp, "\n");
         fprintf(fp, "%s", cat(tinyHdr, tinyHdrComment, hdrSuffix, NULL));
       }
     } // if header(s) needed
@@ -4253,6 +4258,8 @@ void writeExtractedSource(
 
       fixUndefinedLabels(extractNeeded, &buf);
 
+      // Make sure there is white space after whatever was written before
+      if (!isspace((unsigned char)(buf[0]))) fprintf(fp, "\n");
       fprintf(fp, "%s", buf);
       // Text below last statement isn't (currently) used - do we need it?
       if (stmt == g_statements + 1) bug(272);
-- 
2.43.0


From 9dd37be66e211df765372b5e2142285b20f216da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 020/118] fix: WRITE SOURCE / EXTRACT must not write the $t
 comment twice

---
 src/mmdata.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmdata.c b/src/mmdata.c
index f741597..4550b1b 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3091,6 +3091,11 @@ vstring getDescriptionAndLabel(long stmt) {
     dontUseComment = 1;
   }
 
+  // Remove the $t comment (WRITE SOURCE / EXTRACT writes it separately)
+  if (instr(1, descriptionAndLabel, "$t") != 0) {
+    dontUseComment = 1;
+  }
+
   if (dontUseComment == 1) {
     // Get everything that follows the comment
     p2 = rinstr(descriptionAndLabel, "$)");
-- 
2.43.0


From 24e9254d29910695fc487efb9dc0388619f36f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 021/118] fix: WRITE SOURCE / EXTRACT must declare every
 variable of the $d statements it keeps

---
 src/mmcmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index b217fdd..ba83ff0 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3934,11 +3934,12 @@ void writeExtractedSource(
   print2("Determining which $c and $v statements are needed...\n");
   for (stmt = 1; stmt <= g_statements; stmt++) {
     if (extractNeeded[stmt] == 'Y'
-        // All $a, $p, $f, $e
+        // All $a, $p, $f, $e, $d
         && (g_Statement[stmt].type == a_
              || g_Statement[stmt].type == p_
              || g_Statement[stmt].type == e_
              || g_Statement[stmt].type == f_
+             || g_Statement[stmt].type == d_
            )) {
       nmbrLet(&mstring, g_Statement[stmt].mathString);
       mtkns = g_Statement[stmt].mathStringLen;
-- 
2.43.0


From 8dd9ca6b22dbb63a80ab8467fb6bcbeaaf5e6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 022/118] fix: measure a statement's source indentation inside
 its label section

After SAVE PROOF added a date to the description, the label section is in its
own buffer, and walking from the math section back to it compared and
dereferenced pointers into different buffers: saving again lost the proof's
indentation, and could read outside the source.
---
 src/mmdata.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 4550b1b..d131dda 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -2997,9 +2997,12 @@ long getSourceIndentation(long statemNum) {
   long indentation = 0;
 
   fbPtr = g_Statement[statemNum].mathSectionPtr;
-  if (fbPtr[0] == 0) return 0;
+  if (fbPtr[0] == 0 || fbPtr[0] == '\n') return 0;
   startLabel = g_Statement[statemNum].labelSectionPtr;
   if (startLabel[0] == 0) return 0;
+  // Scan the label section itself, since the math section doesn't follow it
+  // in memory when one of them was changed
+  fbPtr = startLabel + g_Statement[statemNum].labelSectionLen - 1;
   while (1) { // Go back to first line feed prior to the label
     if (fbPtr <= startLabel) break;
     if (fbPtr[0] == '\n') break;
-- 
2.43.0


From ee31209ddae682565047efaff669692bdc521d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 023/118] fix: do not continue stale hypothesis unifications in
 replaceStatement()

When a pass is broken out of with postponed $e hypotheses, the reentry flags
and state vectors of the hypotheses belong to the previous unification of the
statement.  Continuing them produced unsound subproofs (IMPROVE / 2, / 3).
---
 src/mmpfas.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 14f0b0b..04305fe 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -526,6 +526,15 @@ nmbrString *replaceStatement(long replStatemNum, long prfStep,
     // hypothesis.
     free_nmbrString(proof);
     noHypMatch = 0;
+
+    // Start over with the hypotheses.  If the previous pass was broken out of
+    // (see "Force breakout" below), its hypothesis unifications must not be
+    // continued, because they belong to the previous substitutions.
+    for (hyp = 0; hyp < schReqHyps; hyp++) {
+      hypReEntryFlagList[hyp] = 1;
+      purgeStateVector((pntrString **)(&(hypStateVectorList[hyp])));
+    }
+
     for (hyp = 0; hyp < schReqHyps; hyp++) {
 
       // Make substitutions from replacement statement's stateVector
-- 
2.43.0


From ce09fecc579c28b58a924ed327d7024c7274e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 024/118] fix: UNDO and REDO must not let new working variables
 reuse the proof's own

INITIALIZE ALL restarts the numbering of working variables; after undoing it,
newly assigned statements got variables already used in the proof, so that
valid assignments were refused.
---
 src/mmpfas.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 04305fe..170a1bf 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -3185,6 +3185,26 @@ void deallocProofStruct(struct pip_struct *proofStruct)
   return;
 } // deallocProofStruct
 
+// Make sure that no dummy variable in the proof will be taken for a new one.
+// (INITIALIZE ALL restarts the numbering, so a proof restored by UNDO or REDO
+// may have higher numbers.)
+static void reserveDummyVars(const struct pip_struct *proofStruct)
+{
+  long step, list, pos;
+  const nmbrString *mString;
+  for (step = 0; step < nmbrLen(proofStruct->proof); step++) {
+    for (list = 0; list < 3; list++) {
+      mString = (nmbrString *)(list == 0 ? proofStruct->target[step] :
+          list == 1 ? proofStruct->source[step] : proofStruct->user[step]);
+      for (pos = 0; mString[pos] != -1; pos++) {
+        if (mString[pos] > g_mathTokens + g_pipDummyVars) {
+          g_pipDummyVars = mString[pos] - g_mathTokens;
+        }
+      }
+    }
+  }
+} // reserveDummyVars
+
 #define DEFAULT_UNDO_STACK_SIZE 20
 // This function handles the UNDO/REDO commands.  It is called
 // with action PUS_INIT then with PUS_PUSH upon entering MM-PA.  It is
@@ -3380,6 +3400,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr--;
       // Restore the version of the proof before that action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       break;
 
     case PUS_REDO:
@@ -3392,6 +3413,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr++;
       // Restore the last undo and print the message for its action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       printLongLine(cat("Redid:  ", infoStack[stackPtr],
               NULL), "", " ");
       break;
-- 
2.43.0


From 5e0c6e0d0512124504819266b113493cb6ce3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 025/118] fix: end of input at a question of the Proof
 Assistant must not loop forever

UNIFY and MATCH asked again and again at end of input, and with a narrow screen
the EXIT question was not recognized, as only its last line was looked at.
---
 src/mminou.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 806dc48..6bcd837 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -873,10 +873,12 @@ vstring cmdInput1(const char *ask) {
   // Warning: the calling program must deallocate the returned string.
   vstring_def(commandLn);
   vstring_def(ask1);
+  vstring_def(wholeAsk); // ask1 before breaking into lines
   long p, i;
   // In case ask is temporarily allocated (i.e in case it will
   // become deallocated at next let().
   let(&ask1, ask);
+  let(&wholeAsk, ask1);
   // Look for lines too long
   while ((signed)(strlen(ask1)) > g_screenWidth) {
     p = g_screenWidth - 1;
@@ -905,13 +907,19 @@ vstring cmdInput1(const char *ask) {
       if (!commandLn) {
         commandLn = ""; // Init vstring (was NULL)
         // Allow ^D to exit
-        if (strcmp(left(ask1, 2), "Do")) {
-          // ^Z or ^D found at MM>, MM-PA>, or TOOLS> prompt
-          let(&commandLn, "EXIT");
-        } else {
+        if (!strncmp(wholeAsk, "Do ", 3)) {
           // Detected the question "Do you want to EXIT anyway (Y, N) <N>?"
           // Force exit with Y, to prevent infinite loop
           let(&commandLn, "Y");
+        } else if (!strncmp(wholeAsk, "  Accept (A)", 12)) {
+          // Unification question of MM-PA; an answer it does not know would
+          // be asked for forever
+          let(&commandLn, "Q");
+        } else if (!strncmp(wholeAsk, "What statement to select ", 25)) {
+          // MATCH question of MM-PA; bypass it (as with <return>)
+        } else {
+          // ^Z or ^D found at MM>, MM-PA>, or TOOLS> prompt
+          let(&commandLn, "EXIT");
         }
         printf("%s\n", commandLn); // Let user see what's happening
       }
@@ -965,6 +973,7 @@ vstring cmdInput1(const char *ask) {
   }
 
   free_vstring(ask1);
+  free_vstring(wholeAsk);
   return commandLn;
 } // cmdInput1
 
-- 
2.43.0


From 01155e9c3120b028e5d466ec08edbff7c0e8d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 026/118] fix: MATCH must refuse two labels as the answer to
 its question

---
 src/mmpfas.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 170a1bf..de7db70 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -182,7 +182,8 @@ void interactiveMatch(long step, long maxEssential)
         free_nmbrString(timeoutList);
         return;
       }
-      if (!instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
+      if (instr(1, tmpStr2, " ") // More than one label
+          || !instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
            cat(" ", tmpStr2, " ", NULL))) {
         print2("\"%s\" is not one of the choices.  Try again.\n", tmpStr2);
       } else {
-- 
2.43.0


From 7dbb1f1454406eabe43a7c1fb6f34e4130ea19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 027/118] fix: DELETE STEP must check the step number before
 using it

---
 src/metamath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 4850a68..f90e876 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5585,15 +5585,15 @@ void command(int argc, char *argv[]) {
       } else {
         s = nmbrLen(g_ProofInProgress.proof);
       }
-      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
-        print2("?Step %ld is unknown and cannot be deleted.\n", s);
-        continue;
-      }
       m = nmbrLen(g_ProofInProgress.proof); // Original proof length
       if (s > m || s < 1) {
         print2("?The step must be in the range from 1 to %ld.\n", m);
         continue;
       }
+      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
+        print2("?Step %ld is unknown and cannot be deleted.\n", s);
+        continue;
+      }
 
       deleteSubProof(s - 1);
       n = nmbrLen(g_ProofInProgress.proof); // New proof length
-- 
2.43.0


From b6ed132e1741e2fa89345672732c64d6e29b83d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 028/118] fix: MATCH ALL must push the unified proof on the
 UNDO stack

It pushed the proof before unifying it, so that REDO restored less than what
was there.
---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index f90e876..9e4038a 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4337,11 +4337,13 @@ void command(int argc, char *argv[]) {
         }
         if (k) {
           g_proofChangedFlag = 1; // Restore it
-          g_proofChanged = 1; // Cumulative flag
-          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
           print2("Steps %ld and above have been renumbered.\n", k);
         }
         autoUnify(1);
+        if (g_proofChangedFlag) {
+          g_proofChanged = 1; // Cumulative flag
+          processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
+        }
 
         continue;
       } // End if MATCH ALL
-- 
2.43.0


From da4a00cf2d207e0df0fe34712608bd677cb34aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 029/118] fix: MINIMIZE_WITH must see $d violations whatever
 the screen width

With a narrow screen the message it looks for was broken into lines, and a
proof violating a $d condition was installed.
---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 9e4038a..8c7769a 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5353,6 +5353,9 @@ void command(int argc, char *argv[]) {
               g_Statement[g_proveStatement].proofSectionPtr = str1;
 
               g_outputToString = 1; // Suppress error messages
+              // The message looked for below must not be broken into lines
+              long saveScreenWidth = g_screenWidth;
+              g_screenWidth = MAX_LEN;
               // parseProof, verifyProof, cleanWrkProof must be
               // called in sequence to assign the g_WrkProof structure, verify
               // the proof, and deallocate the g_WrkProof structure.  Either none
@@ -5361,6 +5364,7 @@ void command(int argc, char *argv[]) {
               // Must be called even if error occurred in parseProof,
               // to init RPN stack for cleanWrkProof().
               verifyProof(g_proveStatement);
+              g_screenWidth = saveScreenWidth;
               // don't change proof if there is an error
               // (which could be pre-existing).
               i = (g_WrkProof.errorSeverity > 1);
-- 
2.43.0


From f22a412ca66d47879565ed61e9fcb21365460c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 030/118] fix: end of input at the scroll prompt must not loop
 forever

---
 src/mminou.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 6bcd837..75f9cd2 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -244,6 +244,13 @@ flag print2(const char* fmt, ...) {
 #endif
       }
       c = (char)(getchar());
+      if (feof(stdin)) {
+        // No more input, so nobody can answer; scroll to the end
+        printf("\n");
+        if (!backFromCmdInput)
+          localScrollMode = 0; // Continuous scroll
+        break;
+      }
       if (c == '\n') {
         if (backBufferPos == pntrLen(backBuffer)) {
           // Normal output
@@ -297,7 +304,7 @@ flag print2(const char* fmt, ...) {
 #endif
         continue;
       }
-      while (c != '\n') c = (char)(getchar());
+      while (c != '\n' && !feof(stdin)) c = (char)(getchar());
     } // While 1
 
     if (backFromCmdInput)
-- 
2.43.0


From e3f1ba3203bbc5aae966471a568e871dcfe7a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 031/118] fix: SEARCH must let a $* at either end match zero
 tokens

---
 src/metamath.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 8c7769a..cad4f3e 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5799,7 +5799,8 @@ void command(int argc, char *argv[]) {
             str3[p + s] = str1[p];
           }
         }
-        let(&str1, left(str3, q + s));
+        // The spaces at both ends let a "$*" there match zero tokens
+        let(&str1, cat(" ", left(str3, q + s), " ", NULL));
 
         // Find single-character-match wildcard argument "$?"
         // (or "?" for convenience).  Use ASCII 3 for the exactly-1-char
@@ -5852,7 +5853,7 @@ void command(int argc, char *argv[]) {
         }
 
         // Add wildcards to beginning and end to match middle of any string
-        let(&str1, cat(chr(2), " ", str1, " ", chr(2), NULL));
+        let(&str1, cat(chr(2), str1, chr(2), NULL));
       } // End no COMMENTS switch
 
       for (i = 1; i <= g_statements; i++) {
-- 
2.43.0


From bda53a83d989d18e0657679bc034ff90230f5f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 032/118] fix: SEARCH / COMMENTS must not join words across
 lines

---
 src/metamath.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index cad4f3e..7c06cff 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5867,13 +5867,17 @@ void command(int argc, char *argv[]) {
         if (n) { // COMMENTS switch
           free_vstring(str2);
           str2 = getDescription(i); // str2 must be deallocated here
-          // Strip linefeeds and reduce spaces; cvt to uppercase
+          // Change linefeeds to spaces, so as not to join words
+          for (p = 0; str2[p] != 0; p++) {
+            if (str2[p] == '\n') str2[p] = ' ';
+          }
+          // Reduce spaces; cvt to uppercase
           j = instr(1, edit(str2, 4 + 8 + 16 + 128 + 32), str1);
           if (!j) { // No match
             free_vstring(str2);
             continue;
           }
-          // Strip linefeeds and reduce spaces
+          // Reduce spaces
           let(&str2, edit(str2, 4 + 8 + 16 + 128));
           j = j + ((long)strlen(str1) / 2); // Center of match location
           p = g_screenWidth - 7 - (long)strlen(str((double)i)) -
-- 
2.43.0


From e18fb29a66dea34407814c00ed1396c4876cf329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 033/118] fix: TOOLS commands read before the start of
 one-character file names

The test for a version suffix (x~1) looked at the second last character
of the file name without checking that there is one.  A name consisting
of the suffix alone would have given an empty output file name.
---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 7c06cff..1d2b1cb 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1350,7 +1350,8 @@ void command(int argc, char *argv[]) {
           rewind(list1_fp);
         }
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)(strlen(list2_fname)) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
@@ -1701,7 +1702,8 @@ void command(int argc, char *argv[]) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 2
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)strlen(list2_fname) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
-- 
2.43.0


From 988784982e6531e07d13430e8c7a4234acf1a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 034/118] fix: TOOLS SUBSTITUTE of \n must not lose blank lines

When a line did not match together with the next one, the next line was
kept for the next pass; a blank one was taken for none, and lost.
---
 src/metamath.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 1d2b1cb..8aa7dea 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -913,6 +913,7 @@ void command(int argc, char *argv[]) {
   flag cmdMode, changedFlag, outMsgFlag;
   double sum;
   vstring_def(bufferedLine);
+  flag lineIsBuffered; // bufferedLine holds the next line to process
   vstring_def(tagStartMatch);  // For TAG command
   long tagStartCount = 0;      // For TAG command
   vstring_def(tagEndMatch);    // For TAG command
@@ -1429,13 +1430,15 @@ void command(int argc, char *argv[]) {
             outMsgFlag = 1;
         } // End switch
         free_vstring(bufferedLine);
+        lineIsBuffered = 0;
   
         // while (linput(list1_fp, NULL, &str1)) {
         while (1) {
-          if (bufferedLine[0]) {
+          if (lineIsBuffered) { // (It may be a blank line)
             // Get input from buffered line (from rejected \n replacement)
             let(&str1, bufferedLine);
             free_vstring(bufferedLine);
+            lineIsBuffered = 0;
           } else {
             if (!linput(list1_fp, NULL, &str1)) break;
           }
@@ -1501,6 +1504,7 @@ void command(int argc, char *argv[]) {
                     free_vstring(bufferedLine);
                   } else {
                     k = 0; // No match - leave bufferedLine for next pass
+                    lineIsBuffered = 1;
                   }
                 } else { // EOF reached
                   print2("Warning: file %s has an odd number of lines\n",
-- 
2.43.0


From ebf7985ae69821a8265de507528b10d322d3d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 035/118] fix: TOOLS CLEAN U overran its buffer on lines of
 tabs

A tab can become eight spaces, but there was room for seven.
---
 src/mmvstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index c0d6836..d129357 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,7 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 7; // Allow for max possible length
+  if (untab_flag) i = i * 8; // Allow for max possible length
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
-- 
2.43.0


From b5d6787dd503a6db805470566cd873dee945aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 036/118] fix: TOOLS CLEAN R,Q must not reduce spaces inside
 quotes

HELP CLEAN says that Q is ignored by T and U only.
---
 src/mmvstr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index d129357..291dc6b 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -503,8 +503,11 @@ temp_vstring edit(const char *sin, long control) {
   // Reduce multiple space/tab to a single space
   if (reduce_flag) {
     i = j = last_char_is_blank = 0;
+    processing_inside_quote = 0;
     while (i <= k - 1) {
-      if (!isblank_(sout[i])) {
+      if (quote_flag && ((sout[i] == '"') || (sout[i] == '\'')))
+        processing_inside_quote = ~ processing_inside_quote;
+      if (!isblank_(sout[i]) || processing_inside_quote) {
         sout[j++] = sout[i++];
         last_char_is_blank = 0;
       } else {
-- 
2.43.0


From 6a30af3e56fd11c8ab666c2c097c49c468050755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 037/118] fix: TOOLS NUMBER with increment 0 wrote numbers
 forever

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 8aa7dea..b474bc4 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1882,6 +1882,10 @@ void command(int argc, char *argv[]) {
       }
 
       if (cmdMatches("NUMBER")) {
+        if ((long)val(g_fullArg[4]) < 1) {
+          print2("?The increment must be 1 or greater.\n");
+          continue;
+        }
         list1_fp = fSafeOpen(g_fullArg[1], "w", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         j = (long)strlen(str(val(g_fullArg[2])));
-- 
2.43.0


From cd866854e2b0a4c13114ca03247928a889072fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 038/118] fix: TOOLS COPY left its temporary file behind on
 error

---
 src/metamath.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index b474bc4..9b707bf 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2031,8 +2031,11 @@ void command(int argc, char *argv[]) {
           }
           fclose(list1_fp);
         }
-        if (j) continue; // One of the input files couldn't be opened
         fclose(list2_fp);
+        if (j) { // One of the input files couldn't be opened
+          remove(list2_ftmpname);
+          continue;
+        }
         print2("The output file \"%s\" has %ld lines.\n", g_fullArg[2], lines);
         fSafeRename(list2_ftmpname, g_fullArg[2]);
         continue;
-- 
2.43.0


From b1a39a0f60b6557e01bf92115f2fd38d3aeb2416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 039/118] fix: numbers of more than 43 digits overran the
 buffer of str()

TOOLS COUNT adds up lines of any length, and every number argument of a
command passes through str(), which had room for 50 characters.
---
 src/mmvstr.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 291dc6b..400cce8 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -807,15 +807,18 @@ temp_vstring str(double f) {
   // the one after the decimal point are stripped; e.g., it returns 7.
   // instead of 7.000000000000000.
   long i;
-  temp_vstring s = tempAlloc(50);
-  sprintf(s,"%f", f);
+  // The largest double has 309 digits before the period
+  char buffer[400];
+  sprintf(buffer, "%f", f);
+  temp_vstring s = tempAlloc((long)strlen(buffer) + 1);
+  strcpy(s, buffer);
   if (strchr(s, '.') != 0) { // The string has a period in it
     for (i = (long)strlen(s) - 1; i > 0; i--) { // Scan string backwards
       if (s[i] != '0') break; // 1st non-zero digit
       s[i] = 0; // Delete the trailing 0
     }
     if (s[i] == '.') s[i] = 0; // Delete trailing period
-/*E*/INCDB1(-(49 - (long)strlen(s)));
+/*E*/INCDB1(-((long)strlen(buffer) - (long)strlen(s)));
   }
   return s;
 } // str
-- 
2.43.0


From 06ee83fcb7168614728022ee443eb9704cdde51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 040/118] fix: TOOLS CLEAN U counted one character too many for
 each tab

The line was taken to be longer and longer than it is, and what was
moved to make room for spaces ran over the end of the buffer.
---
 src/mmvstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index 400cce8..ac1a016 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -563,7 +563,7 @@ temp_vstring edit(const char *sin, long control) {
       for (j = i; j < i + 8 - ((m - 1) & 7); j++) {
         sout[j - 1] = ' ';
       }
-      k = k + 8 - ((m - 1) & 7);
+      k = k + 8 - ((m - 1) & 7) - 1; // (The tab itself is replaced)
     }
   }
 
-- 
2.43.0


From fbabb053900592489768157a4da32feb2f40624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 041/118] fix: a failed or partial WRITE SOURCE counted as
 having saved the changes

WRITE SOURCE cleared the flag behind "You have not saved changes to the
source" and reported that all statements were written even when the output
file couldn't be created, when writing to it failed (disk full), when it was
refused, and when / EXTRACT wrote only a part.  The included files were also
removed after a failed write.
---
 src/metamath.c |  8 +++++---
 src/mmcmds.c   | 19 ++++++++++++-------
 src/mmcmds.h   |  5 +++--
 src/mminou.c   | 13 +++++++++++++
 src/mminou.h   |  4 ++++
 src/mmpars.c   | 14 ++++++++++----
 src/mmpars.h   |  4 ++--
 7 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 9b707bf..674718f 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2129,13 +2129,15 @@ void command(int argc, char *argv[]) {
         let(&str1, ""); // Empty string means full db
       }
 
-      writeSource((char)r, // Rewrap type
+      if (writeSource((char)r, // Rewrap type
         ((switchPos("SPLIT") > 0) ? 1 : 0),
         ((switchPos("NO_VERSIONING") > 0) ? 1 : 0),
         ((switchPos("KEEP_INCLUDES") > 0) ? 1 : 0),
         str1 // Label list to extract
-          );
-      g_sourceChanged = 0;
+          )) {
+        // Everything was written, so no changes are left to be saved
+        g_sourceChanged = 0;
+      }
 
       free_vstring(str1); // Deallocate
       continue;
diff --git a/src/mmcmds.c b/src/mmcmds.c
index ba83ff0..b328483 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3695,7 +3695,8 @@ void readInput(void)
 // Note that the labelSection, mathSection, and proofSection do not
 // contain keywords ($a, $p,...; $=; $.).  The keywords are added
 // by outputStatement.
-void writeSource(
+// Returns 1 if the whole source was written, 0 if it wasn't.
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
@@ -3710,6 +3711,7 @@ void writeSource(
   vstring_def(buffer);
   vstring_def(fullOutput_fn);
   FILE *fp;
+  flag written = 0; // Becomes 1 when everything has been written
 
   let(&fullOutput_fn, cat(g_rootDirectory, g_output_fn, NULL));
 
@@ -3761,26 +3763,29 @@ void writeSource(
 
     // Note that writeSplitSource requires a file name without path since
     // it is called recursively for file inclusions where path is added.
-    writeSplitSource(&buffer, g_output_fn, noVersioningFlag, keepSplitsFlag);
+    written = writeSplitSource(&buffer, g_output_fn, noVersioningFlag,
+        keepSplitsFlag);
   } else { // Write a non-split version
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
     if (fp == NULL) {
       print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     } else {
       fprintf(fp, "%s", buffer); // Write the non-split output file
-      fclose(fp);
-      if (keepSplitsFlag == 0) {
+      written = !fSafeClose(fp, fullOutput_fn);
+      if (written && keepSplitsFlag == 0) {
         deleteSplits(&buffer, noVersioningFlag); // Delete any old includes
       }
     }
   }
 
-  print2("%ld source statement(s) were written.\n", g_statements);
+  if (written) {
+    print2("%ld source statement(s) were written.\n", g_statements);
+  }
 
  RETURN_POINT:
   free_vstring(buffer); // Deallocate vstring
   free_vstring(fullOutput_fn); // Deallocate vstring
-  return;
+  return written;
 } // writeSource
 
 // Get info for WRITE SOURCE ... / EXTRACT
@@ -4318,7 +4323,7 @@ void writeExtractedSource(
   }
 
   // Write the non-split output file
-  fclose(fp);
+  if (fSafeClose(fp, fullOutput_fn)) goto EXTRACT_RETURN;
   j = 0; p1 = 0; p2 = 0; p3 = 0; p4 = 0;
   for (stmt = 1; stmt <= g_statements; stmt++) {
     if (extractNeeded[stmt] == 'Y') {
diff --git a/src/mmcmds.h b/src/mmcmds.h
index d1b2974..d72f39f 100644
--- a/src/mmcmds.h
+++ b/src/mmcmds.h
@@ -67,8 +67,9 @@ vstring htmlDummyVars(long showStmt);
 vstring htmlAllowedSubst(long showStmt);
 
 void readInput(void);
-/*! WRITE SOURCE command */
-void writeSource(
+/*! WRITE SOURCE command.  Returns 1 if the whole source was written, 0 if it
+   wasn't (because of an error or because only a part was extracted). */
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
diff --git a/src/mminou.c b/src/mminou.c
index 75f9cd2..4ef942d 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1228,6 +1228,19 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
   return NULL;
 } // fSafeOpen()
 
+// Closes a file that was opened for writing with fSafeOpen().  If not
+// everything could be written (e.g. the disk is full), an error message is
+// printed and a non-zero value is returned.
+int fSafeClose(FILE *fp, const char *fileName) {
+  int error;
+  error = ferror(fp);
+  if (fclose(fp)) error = -1;
+  if (error) {
+    print2("?Error: couldn't write all of the file \"%s\".\n", fileName);
+  }
+  return error;
+} // fSafeClose
+
 // Renames a file with backup of previous version. If non-zero
 // is returned, there was an error.
 int fSafeRename(const char *oldFileName, const char *newFileName) {
diff --git a/src/mminou.h b/src/mminou.h
index 7e1586d..f6b30af 100644
--- a/src/mminou.h
+++ b/src/mminou.h
@@ -725,6 +725,10 @@ void errorMessage(vstring line, long lineNum, long column, long tokenLength,
    backup of previous version.   Mode must be "r" or "w". */
 FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag);
 
+/*! Closes a file opened for writing with \ref fSafeOpen.  If not everything
+   could be written, an error message is printed and non-zero is returned. */
+int fSafeClose(FILE *fp, const char *fileName);
+
 /*! Renames a file with backup of previous version.  If non-zero
    is returned, there was an error. */
 int fSafeRename(const char *oldFileName, const char *newFileName);
diff --git a/src/mmpars.c b/src/mmpars.c
index a9d8762..292a6b9 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5220,7 +5220,8 @@ vstring writeSourceToBuffer(void) {
 // caller decide whether to say re-use fileBuf to create an unsplit version
 // of the .mm file in case the split version generation encounters an error.
 //                                     TODO ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
-/* flag(TODO) */ void writeSplitSource(vstring *fileBuf, const char *fileName,
+// Returns 1 if successful, 0 if some file couldn't be written.
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag) {
   FILE *fp;
   vstring_def(tmpStr1);
@@ -5230,6 +5231,7 @@ vstring writeSourceToBuffer(void) {
   vstring_def(fileNameWithPath);
   long size;
   flag writeFlag;
+  flag success = 1;
   long startOffset;
   long cmdPos1;
   long cmdPos2;
@@ -5301,11 +5303,12 @@ vstring writeSourceToBuffer(void) {
           print2("?Error: couldn't create the file \"%s\"\n", fileNameWithPath);
           print2("  Make sure any directories needed have been created.\n");
           print2("  Try WRITE SOURCE without / SPLIT to recover your work.\n");
+          success = 0;
           break;
         } else {
           print2("Writing \"%s\"...\n", fileNameWithPath);
           fprintf(fp, "%s", *fileBuf);
-          fclose(fp);
+          if (fSafeClose(fp, fileNameWithPath)) success = 0;
           break;
         }
       } // if (writeFlag == 1 )
@@ -5327,8 +5330,10 @@ vstring writeSourceToBuffer(void) {
       let(&includeBuf, seg(*fileBuf, cmdPos2, endPos1 - 1));
       let(&(*fileBuf), cat(left(*fileBuf, cmdPos1 - 1), tmpStr1,
           right(*fileBuf, endPos2), NULL));
-      // TODO: intercept error from deeper calls?
-      writeSplitSource(&includeBuf, includeFn, noVersioningFlag, noDeleteFlag);
+      if (!writeSplitSource(&includeBuf, includeFn, noVersioningFlag,
+          noDeleteFlag)) {
+        success = 0;
+      }
       continue;
     } else if (cmdType == 'I') {
       bug(1752); // Any real $[ $] should have been converted to comment.
@@ -5354,6 +5359,7 @@ vstring writeSourceToBuffer(void) {
   free_vstring(includeFn);
   free_vstring(includeBuf);
   free_vstring(fileNameWithPath);
+  return success;
 } // writeSplitSource
 
 // When "write source" does not have the "/split" qualifier, by default
diff --git a/src/mmpars.h b/src/mmpars.h
index bb22709..ac1859d 100644
--- a/src/mmpars.h
+++ b/src/mmpars.h
@@ -171,8 +171,8 @@ vstring writeSourceToBuffer(void);
 /*! This function creates split files containing $[ $] inclusions, from
    an unsplit source with $( Begin $[... etc. inclusions
   \note that *fileBuf is assigned to the empty string upon return, to
-   conserve memory */
-void writeSplitSource(vstring *fileBuf, const char *fileName,
+   conserve memory.  Returns 1 if successful, 0 if a file couldn't be written */
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag);
 
 /*! When "write source" does not have the "/split" qualifier, by default
-- 
2.43.0


From 44bdb0d3f36bb9cde2127a48a4794374707810da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:38 +0000
Subject: [PATCH 042/118] fix: WRITE SOURCE to the name of an included file
 lost what it wrote

Without / SPLIT, the output file was renamed to a backup (or deleted, with
/ NO_VERSIONING) as one of the included files, and with / KEEP_INCLUDES it
could not be read back.  Refuse the name, as is done with / SPLIT.
---
 src/mmcmds.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index b328483..b1ad55e 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3715,12 +3715,6 @@ flag writeSource(
 
   let(&fullOutput_fn, cat(g_rootDirectory, g_output_fn, NULL));
 
-  if (splitFlag == 0 // If 1, it will have message from writeSplitSource()
-      // If non-zero, it will have messages from writeExtractedSource()
-      && extractLabelList[0] == 0) {
-    print2("Writing \"%s\"...\n", fullOutput_fn);
-  }
-
   if (extractLabelList[0] != 0) {
     writeExtractedSource(
        extractLabelList, // EXTRACT label list argument provided by user
@@ -3747,9 +3741,9 @@ flag writeSource(
   // Get put the g_Statement[] array into one linear buffer
   free_vstring(buffer);
   buffer = writeSourceToBuffer();
-  if (splitFlag == 1) { // Write includes as separate files
-
-    // Make sure we aren't overwriting one of the include files
+  // Make sure we aren't overwriting one of the include files.  (Without
+  // / SPLIT, the main file may keep its name even if it includes itself.)
+  if (splitFlag == 1 || strcmp(g_output_fn, g_input_fn)) {
     for (i = 1; i <= g_includeCalls; i++) { // Start at 1 to skip main file
       if (g_IncludeCall[i].pushOrPop == 0 // Don't include pop back to main file
           && !strcmp(g_output_fn, g_IncludeCall[i].included_fn)) {
@@ -3760,12 +3754,16 @@ flag writeSource(
         goto RETURN_POINT;
       }
     }
+  }
+
+  if (splitFlag == 1) { // Write includes as separate files
 
     // Note that writeSplitSource requires a file name without path since
     // it is called recursively for file inclusions where path is added.
     written = writeSplitSource(&buffer, g_output_fn, noVersioningFlag,
         keepSplitsFlag);
   } else { // Write a non-split version
+    print2("Writing \"%s\"...\n", fullOutput_fn);
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
     if (fp == NULL) {
       print2("?Error trying to write \"%s\".\n", fullOutput_fn);
-- 
2.43.0


From 80157536e1c09c837b71c292ce6ef8fb5c6be653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 043/118] fix: SAVE PROOF put the contributor into file
 inclusion and $t comments

When the comment before a theorem was a "$( End $[ ... $] $)" mark or a
$t comment rather than a description, the "(Contributed by...)" text was
inserted into it, which destroyed the inclusion structure or the
typesetting definitions.
---
 src/metamath.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 674718f..2dc9fa8 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3777,6 +3777,12 @@ void command(int argc, char *argv[]) {
               memcpy(str3, g_Statement[outStatement].labelSectionPtr,
                   (size_t)(g_Statement[outStatement].labelSectionLen));
               i = rinstr(str3, "$)"); // The last "$)" occurrence
+              // Comments with file inclusion markup, typesetting definitions
+              // ($t) or additional information ($j) aren't descriptions and
+              // must not be changed.
+              let(&str5, seg(str3, rinstr(str3, "$("), i - 1));
+              if (instr(1, str5, "$[") || instr(1, str5, "$t")
+                  || instr(1, str5, "$j")) i = 0;
               if (i != 0 // A description comment exists
                   && saveFlag) { // and we are saving the proof
                 // This isn't a perfect wrapping but we assume
-- 
2.43.0


From 1cb7d6f2f86ed599ba6bc715e12ebc7dcd43194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 044/118] fix: error messages about an empty line read before
 its start

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 4ef942d..3c44f0d 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1013,7 +1013,7 @@ void errorMessage(vstring line, long lineNum, long column, long tokenLength,
 
   // Add a newline to line1 if there is none
   if (line) {
-    if (line[strlen(line) - 1] != '\n') {
+    if (!line[0] || line[strlen(line) - 1] != '\n') {
       let(&line1, line);
     } else {
       bug(1509);
-- 
2.43.0


From 94cec1c7176abf597d853d3174dc8b88d857899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:01 +0000
Subject: [PATCH 045/118] fix: WRITE SOURCE / EXTRACT read out of bounds on a
 $t outside of a comment

---
 src/mmcmds.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index b1ad55e..55d042d 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3983,13 +3983,19 @@ void writeExtractedSource(
       let(&dollarTCmt, left(tmpPtr, p2 + 1));
       // We need the above because rinstr doesn't have starting arg
       p1 = rinstr(dollarTCmt, "$(");
-      // Search backwards for non-space or beginning of string
-      p1--;
-      while (p1 != 0) {
-        if (dollarTCmt[p1 - 1] != ' ') break;
+      if (p1 == 0 || p2 == 0) {
+        // It isn't in a comment (a source error), so it isn't a $t statement
+        dollarTStmt = 0;
+        let(&dollarTCmt, "");
+      } else {
+        // Search backwards for non-space or beginning of string
         p1--;
+        while (p1 != 0) {
+          if (dollarTCmt[p1 - 1] != ' ') break;
+          p1--;
+        }
+        let(&dollarTCmt, cat("\n", seg(dollarTCmt, p1 + 1, p2 + 1), NULL));
       }
-      let(&dollarTCmt, cat("\n", seg(dollarTCmt, p1 + 1, p2 + 1), NULL));
     }
     tmpPtr[j] = zapChar; // Restore the xxx.mm input file buffer
     if (dollarTStmt != 0) {
-- 
2.43.0


From cf49c700774f794b67100345d31c1fe86c40a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 046/118] fix: prompts read out of bounds on screens narrower
 than 11 columns

---
 src/mminou.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 3c44f0d..18b5c28 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -897,8 +897,8 @@ vstring cmdInput1(const char *ask) {
   // Allow 10 characters for answer
   if ((signed)(strlen(ask1)) > g_screenWidth - 10) {
     p = g_screenWidth - 11;
-    while (ask1[p] != ' ' && p > 0) p--;
-    if (p) { // (Give up if no spaces)
+    while (p > 0 && ask1[p] != ' ') p--;
+    if (p > 0) { // (Give up if no spaces)
       print2("%s\n", left(ask1, p));
       let(&ask1, right(ask1, p + 1));
     }
-- 
2.43.0


From 397b741bef67f536a628696e51a3cd9789b97647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 047/118] fix: WRITE SOURCE / EXTRACT used an uninitialized
 index for an undeclared symbol

---
 src/mmpars.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 292a6b9..87de9f5 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1179,6 +1179,10 @@ void parseStatements(void) {
             let(&g_MathToken[tokenNum].tokenName, left(fbPtr,symbolLen));
             g_MathToken[tokenNum].length = symbolLen;
             g_MathToken[tokenNum].tokenType = (char)var_;
+            g_MathToken[tokenNum].active = 0;
+            g_MathToken[tokenNum].scope = 0;
+            g_MathToken[tokenNum].statement = 0; // Not declared anywhere
+            g_MathToken[tokenNum].endStatement = g_statements;
             // Prevent stray pointers later
             g_MathToken[tokenNum].tmp = 0; // Location in active variable stack
             if (!activeVarStackPtr) { // Make a fictitious entry
-- 
2.43.0


From eb0d3a845f12bf35a63492c45e0708b5ff961e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:28 +0000
Subject: [PATCH 048/118] fix: READ of a file with a null character ended in an
 internal error

---
 src/mminou.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 18b5c28..9727d9f 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1464,14 +1464,16 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
   if ((*charCount) != i) {
     if (verbose) {
       print2(
-          "?Warning: the file \"%s\" is not an ASCII file.\n",
+          "?Sorry, the file \"%s\" is not an ASCII file.\n",
           fileName);
       print2(
           "Its size is %ld characters with null at character %ld.\n",
-          (*charCount), strlen(fileBuf));
+          (*charCount), i);
     }
+    free(fileBuf);
+    return NULL;
   }
-/*E*/db = db + i; // For memory usage tracking (ignore stuff after null)
+/*E*/db = db + i; // For memory usage tracking
 
   //******* For debugging
   // print2("In binary mode the file has %ld bytes.\n", fileBufSize - 10);
-- 
2.43.0


From 7157075a518c5999ace6d6c7d0fc0acf43dd5b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 049/118] fix: VERIFY MARKUP read out of bounds after WRITE
 SOURCE / REWRAP

---
 src/mmcmds.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 55d042d..768c81f 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4700,6 +4700,7 @@ void verifyMarkup(vstring labelMatch,
   flag errFound = 0;
   long stmtNum, p1, p2, p3;
   long flen, lnum, lstart; // For line length check
+  char *sourceText = NULL; // For line length check
 
   vstring_def(mmVersionDate); // Version date at top of .mm file
   vstring_def(mostRecentDate); // For entire .mm file
@@ -4955,6 +4956,18 @@ void verifyMarkup(vstring labelMatch,
     str2 = g_Statement[g_statements + 1].labelSectionPtr
        // g_statements + 1 is dummy statement to hold text after last statement
        + g_Statement[g_statements + 1].labelSectionLen; // End of input file
+    for (p1 = 1; p1 <= g_statements + 1; p1++) {
+      if (g_Statement[p1].labelSectionChanged
+          || g_Statement[p1].mathSectionChanged
+          || g_Statement[p1].proofSectionChanged) {
+        // Changed sections are no longer in the input buffer, so check the
+        // text that WRITE SOURCE would write.
+        sourceText = writeSourceToBuffer();
+        str1 = sourceText;
+        str2 = str1 + strlen(str1);
+        break;
+      }
+    }
     if (str2[0] != 0) bug(258); // Should be end of (giant) string
     if (str2[-1] != '\n') bug(259); // End of last line
     flen = str2 - str1; // Length of input file
@@ -5008,6 +5021,7 @@ void verifyMarkup(vstring labelMatch,
         errFound = 1;
       }
     } // next p1
+    free(sourceText);
     str1 = ""; // Restore pointer for use as vstring
   } // end of line length check - if (g_statements >= 1...
 
-- 
2.43.0


From 7f179a69c12b841d02dd2e3ac4e92241a8d451e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:28 +0000
Subject: [PATCH 050/118] fix: section headings were read out of bounds after
 SAVE PROOF or / REWRAP

---
 src/mmwtex.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 484acf0..239731d 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -4380,6 +4380,7 @@ flag getSectionHeadings(long stmt,
 
   // for table of contents
   vstring_def(labelStr);
+  vstring_def(sectionStr);
   long pos, pos1, pos2, pos3, pos4;
   flag errorFound = 0;
   flag saveOutputToString;
@@ -4406,7 +4407,7 @@ flag getSectionHeadings(long stmt,
 
   // Get header area between this statement and the statement after the
   // previous $a or $p statement.
-  // pos3 and pos4 are used temporarily here; not related to later use
+  // pos3 is used temporarily here; not related to later use
   if (fineResolution == 0) {
     // Statement immediately after the previous $a or $p statement
     // (will be this statement if previous statement is $a or $p).
@@ -4416,12 +4417,26 @@ flag getSectionHeadings(long stmt,
     pos3 = stmt;
   }
   if (pos3 == 0 || pos3 > stmt) bug(2241);
-  pos4 = (g_Statement[stmt].labelSectionPtr
-        - g_Statement[pos3].labelSectionPtr)
-        + g_Statement[stmt].labelSectionLen; // Length of the header area
-  let(&labelStr, space(pos4));
-  memcpy(labelStr, g_Statement[pos3].labelSectionPtr,
-      (size_t)(pos4));
+  // Collect the header area.  This is done statement by statement because
+  // sections that were changed since READ aren't next to each other in memory.
+  free_vstring(labelStr);
+  for (; pos3 <= stmt; pos3++) {
+    free_vstring(sectionStr);
+    let(&sectionStr, space(g_Statement[pos3].labelSectionLen));
+    memcpy(sectionStr, g_Statement[pos3].labelSectionPtr,
+        (size_t)(g_Statement[pos3].labelSectionLen));
+    let(&labelStr, cat(labelStr, sectionStr, NULL));
+    if (pos3 < stmt) {
+      let(&sectionStr, space(g_Statement[pos3].mathSectionLen));
+      memcpy(sectionStr, g_Statement[pos3].mathSectionPtr,
+          (size_t)(g_Statement[pos3].mathSectionLen));
+      let(&labelStr, cat(labelStr, "$", chr(g_Statement[pos3].type),
+          sectionStr,
+          (g_Statement[pos3].type == lb_ || g_Statement[pos3].type == rb_)
+              ? "" : "$.", NULL));
+    }
+  }
+  free_vstring(sectionStr);
 
   pos = 0;
   pos2 = 0;
-- 
2.43.0


From 4be8dc2014fda47d0c83b1eeef2d1af21ef608ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 051/118] fix: VERIFY MARKUP read before a description whose
 contributor has no date

---
 src/mmdata.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index d131dda..484b0c1 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3519,7 +3519,7 @@ vstring getContrib(long stmtNum, char mode) {
         NULL), "    ", " ");
   }
 
-  if (cStart != 0 && description[cMid - 2] != ',') {
+  if (cStart != 0 && (cMid < 2 || description[cMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between contributor and date",
@@ -3528,7 +3528,7 @@ vstring getContrib(long stmtNum, char mode) {
         str((double)stmtNum), ", label \"", g_Statement[stmtNum].labelName, "\".",
         NULL), "    ", " ");
   }
-  if (rStart != 0 && description[rMid - 2] != ',') {
+  if (rStart != 0 && (rMid < 2 || description[rMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between reviser and date",
@@ -3537,7 +3537,7 @@ vstring getContrib(long stmtNum, char mode) {
         str((double)stmtNum), ", label \"", g_Statement[stmtNum].labelName, "\".",
         NULL), "    ", " ");
   }
-  if (sStart != 0 && description[sMid - 2] != ',') {
+  if (sStart != 0 && (sMid < 2 || description[sMid - 2] != ',')) {
     err = 1;
     if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
         "?Warning: There is no comma between proof shortener and date",
-- 
2.43.0


From 63a49b4e5d2f3f891cbc019457830ab4d6b4f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:35 +0000
Subject: [PATCH 052/118] fix: an 8-bit character in a compressed proof read
 out of bounds

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 87de9f5..f6bd390 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3090,7 +3090,7 @@ char parseCompressedProof(long statemNum)
   breakFlag = 0;
   labelMapIndex = 0;
   while (1) {
-    switch (chrType[(long)(fbPtr[0])]) {
+    switch (chrType[(unsigned char)(fbPtr[0])]) {
       case 0: // "Letter" (i.e. A...T)
         if (!labelMapIndex) labelStart = fbPtr; // Save for error msg
 
-- 
2.43.0


From 4a06b92d445dee45536ae7867350811301d69296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 053/118] fix: statements with missing math symbols made
 commands read out of bounds

---
 src/mmpars.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index f6bd390..3c4227e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1064,7 +1064,7 @@ void parseStatements(void) {
       case p_:
         // Make sure we have enough working space
         mathSectionLen = g_Statement[stmt].mathSectionLen;
-        if (wrkLen < mathSectionLen) {
+        if (wrkLen < mathSectionLen + 2) {
           free(wrkNmbrPtr);
           free(wrkStrPtr);
           wrkLen = mathSectionLen + 100;
@@ -1250,6 +1250,12 @@ void parseStatements(void) {
                   "A \"$f\" statement requires two math symbols.");
             }
           }
+          // Commands assume that the first (two for $f) symbols exist, so put
+          // the special "$|$" token in place of the missing ones
+          while (mathStringLen < (type == f_ ? 2 : 1)) {
+            wrkNmbrPtr[mathStringLen] = g_mathTokens;
+            mathStringLen++;
+          }
         }
 
         // Assign mathString to statement array
-- 
2.43.0


From 64d1e483b4a76263a98f3324dd52cb9b1a818e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:04 +0000
Subject: [PATCH 054/118] fix: VERIFY MARKUP and HTML output lost the open
 LaTeX file

---
 src/metamath.c | 17 +++++++++++++++++
 src/mmcmds.c   |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 2dc9fa8..3f800c6 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2143,6 +2143,23 @@ void command(int argc, char *argv[]) {
       continue;
     } // End of WRITE SOURCE
 
+    // These commands produce HTML with the global variables that the open
+    // LaTeX file uses
+    if (g_texFileOpenFlag
+        && (cmdMatches("WRITE THEOREM_LIST")
+            || cmdMatches("WRITE BIBLIOGRAPHY")
+            || cmdMatches("WRITE RECENT_ADDITIONS")
+            || cmdMatches("MARKUP")
+            || (cmdMatches("SHOW STATEMENT")
+                && (switchPos("HTML") || switchPos("ALT_HTML")
+                    || switchPos("BRIEF_HTML") || switchPos("BRIEF_ALT_HTML")
+                    || switchPos("MNEMONICS"))))) {
+      print2(
+"?The LaTeX file \"%s\" is open.  Use CLOSE TEX before creating HTML.\n",
+          g_texFileName);
+      continue;
+    }
+
     if (cmdMatches("WRITE THEOREM_LIST")) {
       // Write out an HTML summary of the theorems to
       // mmtheorems.html, mmtheorems1.html,...
diff --git a/src/mmcmds.c b/src/mmcmds.c
index 768c81f..016905a 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4697,6 +4697,7 @@ void verifyMarkup(vstring labelMatch,
 {
   flag f;
   flag saveHtmlFlag, saveAltHtmlFlag;
+  FILE *saveTexFilePtr;
   flag errFound = 0;
   long stmtNum, p1, p2, p3;
   long flen, lnum, lstart; // For line length check
@@ -4727,6 +4728,7 @@ void verifyMarkup(vstring labelMatch,
   vstring_def(dupCheck);
 
   saveHtmlFlag = g_htmlFlag;  saveAltHtmlFlag = g_altHtmlFlag;
+  saveTexFilePtr = g_texFilePtr;
 
   print2("Checking statement label conventions...\n");
 
@@ -5330,6 +5332,7 @@ void verifyMarkup(vstring labelMatch,
   }
 
   g_htmlFlag = saveHtmlFlag;  g_altHtmlFlag = saveAltHtmlFlag;
+  g_texFilePtr = saveTexFilePtr;
   // Force reread to get current mode defaults for future user commands
   eraseTexDefs();
 
-- 
2.43.0


From 5e16a7bc849032bc799974d0409548f83acf32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:31 +0000
Subject: [PATCH 055/118] fix: malformed explicit proofs made READ fail with
 internal errors

---
 src/mmpars.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 3c4227e..a0d612a 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2279,9 +2279,13 @@ char parseProof(long statemNum)
           k = m; // Larger step number
         }
         // Find the token - back up a step then move forward to loc label
-        fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
-        fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
-        fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        if (k > 0) {
+          fbPtr = g_WrkProof.stepSrcPtrPntr[k - 1]; // Previous step
+          fbPtr = fbPtr + g_WrkProof.stepSrcPtrNmbr[k - 1];
+          fbPtr = fbPtr + whiteSpaceLen(fbPtr);
+        } else {
+          fbPtr = g_WrkProof.tokenSrcPtrPntr[0];
+        }
         if (!g_WrkProof.errorCount) {
           sourceError(fbPtr,
               proofTokenLen(fbPtr), statemNum,
@@ -2476,7 +2480,7 @@ char parseProof(long statemNum)
     // For proofs saved with /EXPLICIT, the user may have changed the order
     // of hypotheses.  First, get the subproofs for the hypotheses.  Then
     // reassemble them in the right order.
-    if (explicitTargets == 1) {
+    if (explicitTargets == 1 && !g_WrkProof.errorCount) {
       // nmbrString to rearrange proof then when done reassign to
       // g_WrkProof.proofString structure component.
       nmbrLet(&wrkProofString, g_WrkProof.proofString);
@@ -2605,7 +2609,7 @@ char parseProof(long statemNum)
     if (returnFlag < 3) returnFlag = 3;
   }
 
-  if (explicitTargets) {
+  if (explicitTargets && !g_WrkProof.errorCount) {
     // Correct the local label refs in the rearranged proof
     for (step = 0; step < g_WrkProof.numSteps; step++) {
       // This is slow lookup with n^2 behavior, but should be ok since
@@ -2729,7 +2733,9 @@ char parseProof(long statemNum)
         } // if k<= -1000
       } // next step
     } while (subProofMoved);
+  }
 
+  if (explicitTargets) {
     // Deallocate
     free_pntrString(targetPntr);
     free_nmbrString(targetNmbr);
@@ -3430,7 +3436,13 @@ void rawSourceError(char *startFile, char *ptr, long tokLen, vstring errMsg) {
 
   let(&errorMsg, errMsg); // Prevent deallocation of errMsg
 
-  fileName = getFileAndLineNum(startFile /* =g_sourcePtr */, ptr, &lineNum);
+  if (startFile == g_sourcePtr) {
+    fileName = getFileAndLineNum(startFile, ptr, &lineNum);
+  } else {
+    // It is a section that was changed since READ, so there is no line number
+    let(&fileName, g_input_fn);
+    lineNum = 0;
+  }
 
   // Get the line with the error on it
   startLine = ptr;
-- 
2.43.0


From a578d03adeb2d544a63e0a4edf287f3630f93c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:31 +0000
Subject: [PATCH 056/118] fix: an error in the $t comment after WRITE SOURCE /
 REWRAP was an internal error

---
 src/mmwtex.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 239731d..7f85b4a 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -186,6 +186,7 @@ flag readTexDefs(
   flag warningFound = 0; // 1 if a warning was found
   // Pointer to label section of statement with the $t comment
   char *dollarTStmtPtr = NULL;
+  char *dollarTSourcePtr = NULL;
   // bsearch returned values for use in error-checking
   void *g_mathKeyPtr; // bsearch returned value for math symbol lookup
   void *texDefsPtr; // For binary search
@@ -249,6 +250,9 @@ flag readTexDefs(
       let(&fileBuf, tmpPtr);
       tmpPtr[j] = zapChar;
       dollarTStmtPtr = g_Statement[i].labelSectionPtr;
+      // A changed label section is not in the raw input buffer
+      dollarTSourcePtr = g_Statement[i].labelSectionChanged
+          ? dollarTStmtPtr : g_sourcePtr;
       // break; // Continue to end to detect double $t
     }
     tmpPtr[j] = zapChar; // Restore the xxx.mm input file buffer
@@ -370,7 +374,7 @@ flag readTexDefs(
         for (i = 0; i < (fbPtr - fileBuf); i++) {
           if (fileBuf[i] == '\n') lineNum++;
         }
-        rawSourceError(/* fileBuf */ g_sourcePtr,
+        rawSourceError(/* fileBuf */ dollarTSourcePtr,
             /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf), tokenLength,
             cat("Expected \"latexdef\", \"htmldef\", \"htmlvarcolor\",",
             " \"htmltitle\", \"htmlhome\", \"althtmldef\",",
@@ -404,7 +408,7 @@ flag readTexDefs(
           for (i = 0; i < (fbPtr - fileBuf); i++) {
             if (fileBuf[i] == '\n') lineNum++;
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
+          rawSourceError(/* fileBuf */ dollarTSourcePtr,
             /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
               tokenLength,
               "Expected a quoted string here.");
@@ -462,7 +466,7 @@ flag readTexDefs(
           for (i = 0; i < (fbPtr - fileBuf); i++) {
             if (fileBuf[i] == '\n') lineNum++;
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
+          rawSourceError(/* fileBuf */ dollarTSourcePtr,
             /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
               tokenLength,
               "Expected the keyword \"as\" here.");
@@ -493,7 +497,7 @@ flag readTexDefs(
           for (i = 0; i < (fbPtr - fileBuf); i++) {
             if (fileBuf[i] == '\n') lineNum++;
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
+          rawSourceError(/* fileBuf */ dollarTSourcePtr,
             /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
               tokenLength,
               "Expected a quoted string here.");
@@ -529,7 +533,7 @@ flag readTexDefs(
               if (fileBuf[i] == '\n') lineNum++;
             }
 
-            rawSourceError(/* fileBuf */ g_sourcePtr,
+            rawSourceError(/* fileBuf */ dollarTSourcePtr,
                 /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
                 tmpPtr2 - partialToken + 1 /* tokenLength on current line */,
                 "String should be on a single line.");
@@ -555,7 +559,7 @@ flag readTexDefs(
               lineNum++;
             }
           }
-          rawSourceError(/* fileBuf */ g_sourcePtr,
+          rawSourceError(/* fileBuf */ dollarTSourcePtr,
             /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
               tokenLength, // lineNum, g_input_fn,
               "Expected \"+\" or \";\" here.");
-- 
2.43.0


From f3a0cf042bab1a5a0fe3205961b0f51073f43e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 057/118] fix: SHOW USAGE read past a compressed proof without
 closing parenthesis

---
 src/mmcmds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 016905a..693286d 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3604,9 +3604,12 @@ vstring traceUsage(long statemNum,
       fbPtr = fbPtr + whiteSpaceLen(fbPtr); // Get past white space
       if (fbPtr[0] == '(') { // "(" is flag for compressed proof
         fbPtr2 = fbPtr;
-        while (fbPtr2[0] != ')') {
+        // (If the closing ')' is missing, which is an error that is reported
+        // when the proof is parsed, use the whole proof)
+        while (fbPtr2[0] != ')'
+            && fbPtr2 < g_Statement[stmt].proofSectionPtr
+                + g_Statement[stmt].proofSectionLen) {
           fbPtr2++;
-          if (fbPtr2[0] == 0) bug(217); // Didn't find closing ')'
         }
       } else {
         // A non-compressed proof; use whole proof
-- 
2.43.0


From f4978d0c7bb574538c84125629f167347166d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 058/118] fix: a database with $$ could overflow the statement
 array

---
 src/mmpars.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index a0d612a..ac998d1 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -273,9 +273,8 @@ void parseKeywords(void)
     }
     fbPtr++;
     switch (fbPtr[0]) {
-      case '$': // "$$" means literal "$"
-        fbPtr++;
-        continue;
+      // ("$$" isn't special; like in readRawSource(), which counts the
+      // statements, the second "$" may start a keyword.)
       case '(': // Start of comment
         insideComment = 1;
         continue;
-- 
2.43.0


From 9f9de7f5a49a8426e965281c82f9ea6658776618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:59 +0000
Subject: [PATCH 059/118] fix: proofs using an erroneous statement read
 uninitialized variables

---
 src/mmveri.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mmveri.c b/src/mmveri.c
index eff5e35..6b4fba7 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -272,6 +272,20 @@ nmbrString *assignVar(nmbrString *bigSubstSchemeAss,
     g_MathToken[bigSubstSchemeVars[i]].tmp = i;
   }
 
+  // If the database has errors, the assertion may have variables that don't
+  // occur in the hypotheses.
+  for (long i = 0; g_Statement[substScheme].mathString[i] != -1; i++) {
+    long tokenNum = g_Statement[substScheme].mathString[i];
+    if (g_MathToken[tokenNum].tokenType == (char)var_) {
+      long v1 = g_MathToken[tokenNum].tmp;
+      if (v1 < 0 || v1 >= bigSubstSchemeVarLen
+          || bigSubstSchemeVars[v1] != tokenNum) {
+        if (!unkHypFlag && !g_WrkProof.errorCount) bug(2103);
+        goto returnPoint;
+      }
+    }
+  }
+
   // Scan bigSubstSchemeAss to get substSchemeFrstVarOcc[] (1st var occurrence).
   for (long i = 0; i < bigSubstSchemeLen; i++) {
     if (g_MathToken[bigSubstSchemeAss[i]].tokenType ==
-- 
2.43.0


From a472455ea293b35ea56a22b6e65d9d120f13d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 060/118] fix: READ of an unterminated Begin inclusion or of
 $$. read out of bounds

---
 src/mmpars.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index ac998d1..2596fb3 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -368,6 +368,11 @@ void parseKeywords(void)
           // Add proof section to statement
           g_Statement[g_statements].proofSectionPtr = startSection;
           g_Statement[g_statements].proofSectionLen = fbPtr - startSection - 1;
+          // After an erroneous "$$" that ended the math section, the "$" of
+          // "$." belongs to the "$$" and there is no proof section
+          if (g_Statement[g_statements].proofSectionLen < 0) {
+            g_Statement[g_statements].proofSectionLen = 0;
+          }
           startSection = fbPtr + 1;
           mode = 0;
           continue;
@@ -5588,7 +5593,8 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
     if (cmdType == 'E') {
       // TODO: Better error msg here or in getNextInclude
       print2("?Error: \"$( Begin $[...\" without matching \"$( End $[...\"\n");
-      startOffset = cmdPos2; // Get passed the bad "$( Begin $[..."
+      startOffset = cmdPos2 - 2; // Get passed the bad "$( Begin $[..."
+          // (0-based position of the character after it)
       *errorFlag = 1;
       continue;
     }
-- 
2.43.0


From 7bc78df021c2031d1c0d82c6a88044f546660c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 061/118] fix: HTML dummy variables read out of bounds for an
 undeclared $d variable

---
 src/mmcmds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 693286d..24e9750 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -1026,7 +1026,8 @@ vstring htmlDummyVars(long showStmt)
 
     // Create an array of Y/N indicators that variable is occurs in a
     // $d statement as a dummy variable.
-    let(&dummyVarUsed, string(g_mathTokens, 'N'));
+    // (Tokens of an erroneous $d that were not declared follow the declared ones)
+    let(&dummyVarUsed, string(g_MAX_MATHTOKENS, 'N'));
     for (k = 0; k < numDVs; k++) {
       for (l = 1; l <= 2; l++) {
         if (l == 1) {
-- 
2.43.0


From 566014da8de44aa36817ebe530fc3f9ace343041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:17 +0000
Subject: [PATCH 062/118] fix: input lines over 1998 characters were internal
 errors

---
 src/mminou.c | 27 ++++++++++-----------------
 src/mminou.h |  7 +++----
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 9727d9f..1b51e3c 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -755,7 +755,8 @@ vstring cmdInput(FILE *stream, const char *ask) {
   // New memory is allocated each time linput is called. This space must
   // be freed by the caller.
   vstring_def(g); // Always init vstrings to "" for let(&...) to work
-  long i;
+  long i, j;
+  char more[CMD_BUFFER_SIZE]; // For continuation of long lines
 
   while (1) { // For "B" backup loop
     if (ask != NULL && !g_commandFileSilentFlag) {
@@ -766,22 +767,21 @@ vstring cmdInput(FILE *stream, const char *ask) {
     }
     let(&g, space(CMD_BUFFER_SIZE)); // Allocate CMD_BUFFER_SIZE+1 bytes
     if (g[CMD_BUFFER_SIZE]) bug(1520); // Bug in let() (improbable)
-    g[CMD_BUFFER_SIZE - 1] = 0; // For overflow detection
     if (!fgets(g, CMD_BUFFER_SIZE, stream)) {
       // End of file
       free_vstring(g); // Deallocate memory
       return NULL;
     }
-    if (g[CMD_BUFFER_SIZE - 1]) {
-      // Detect input overflow
-      // Warning:  Don't call bug() - it calls print2 which may call this.
-      printf("***BUG #1508\n");
-#if __STDC__
-      fflush(stdout);
-#endif
-    }
     i = (long)strlen(g);
 /*E*/db = db - (CMD_BUFFER_SIZE - i); // Adjust string usage to detect leaks.
+    // Read the rest of a line that is longer than the buffer
+    j = i;
+    while (j == CMD_BUFFER_SIZE - 1 && g[i - 1] != '\n'
+        && fgets(more, CMD_BUFFER_SIZE, stream)) {
+      j = (long)strlen(more);
+      let(&g, cat(g, more, NULL));
+      i = i + j;
+    }
     // Detect operating system bug of inputting no characters.
     if (!i) {
       printf("***BUG #1507\n");
@@ -791,13 +791,6 @@ vstring cmdInput(FILE *stream, const char *ask) {
     } else {
       // The last line in the file has no new-line
       if (g[i - 1] != '\n') {
-        // Warning:  Don't call bug() - it calls print2 which may call this.
-        if (!feof(stream)) {
-          printf("***BUG #1525\n");
-#if __STDC__
-          fflush(stdout);
-#endif
-        }
         // Add a new-line so processing below will behave correctly.
         let(&g, cat(g, chr('\n'), NULL));
 /*E*/db = db + (CMD_BUFFER_SIZE - i); // Cancel extra piece of string
diff --git a/src/mminou.h b/src/mminou.h
index f6b30af..8af1f08 100644
--- a/src/mminou.h
+++ b/src/mminou.h
@@ -547,8 +547,8 @@ void printLongLine(const char *line, const char *startNextLine, const char *brea
  * Returns the first not interpreted line as a \ref vstring.
  *
  * A line in the \p stream is terminated by a LF character (0x0D) character
- * alone.  It is read, but removed from the result.  The maximum line length
- * without the LF is \ref CMD_BUFFER_SIZE - 1.  Reaching EOF (end of file,
+ * alone.  It is read, but removed from the result.  A line can have any
+ * length.  Reaching EOF (end of file,
  * CTRL-D) is equivalent to reading LF, if at least 1 byte was read before.
  * Note that the NUL character can be part of the line.  Reading a NUL is not
  * sufficiently supported in the current implementation and may or may not
@@ -556,8 +556,7 @@ void printLongLine(const char *line, const char *startNextLine, const char *brea
  *
  * Reading from an empty \p stream (or one that is at EOF position, on the
  * console CTRL-D) returns NULL, not the empty string, and is formally
- * signalled as an error.  Overflowing the buffer is also an error.  No
- * truncated value is returned.
+ * signalled as an error.  No truncated value is returned.
  *
  * This routine interprets some input without returning it to the caller under
  * following two conditions:
-- 
2.43.0


From 13c1edb523996273b08514352786bb2ae88af7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 063/118] fix: $! in a proof was skipped with the rest of the
 line, including the $.

---
 src/mmpars.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 2596fb3..55eec3e 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3284,10 +3284,10 @@ char parseCompressedProof(long statemNum)
           break;
         }
         // Otherwise, it must be a comment
-        if (fbPtr[1] != '(' && fbPtr[1] != '!') {
+        if (fbPtr[1] != '(') {
           if (!g_WrkProof.errorCount) {
             sourceError(fbPtr + 1, 1, statemNum,
-             "Expected \".\", \"(\", or \"!\" here.");
+             "Expected \".\" or \"(\" here.");
           }
           g_WrkProof.errorCount++;
           if (returnFlag < 2) returnFlag = 2;
@@ -3725,12 +3725,6 @@ long whiteSpaceLen(char *ptr) {
         i = ptr1 - ptr + 2;
         continue;
       } else {
-        if (ptr[i + 1] == '!') {
-          ptr1 = strchr(ptr + i + 2, '\n');
-          if (!ptr1) bug(1716);
-          i = ptr1 - ptr + 1;
-          continue;
-        }
         return i;
       }
     } // if (tmpchr == '$')
-- 
2.43.0


From 4be0d4aa3c195ecc40fd97950b9f0c48072528a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 064/118] fix: closing a LaTeX file on a narrow screen was an
 internal error

---
 src/mminou.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mminou.c b/src/mminou.c
index 1b51e3c..82a0cdc 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -460,8 +460,8 @@ flag print2(const char* fmt, ...) {
     let(&g_printString, cat(g_printString, printBuffer, NULL));
   }
 
-  // Check for lines too long
-  if (lineLen > g_screenWidth + 1) { // The +1 ignores \n
+  // Check for lines too long (the screen width doesn't matter for a string)
+  if (!g_outputToString && lineLen > g_screenWidth + 1) { // The +1 ignores \n
     // Warning:  Do not call bug(), because it calls print2.
     // If this bug occurs, the calling function should be fixed.
     printf("*** PROGRAM BUG #1505 (not serious, but please report it)\n");
-- 
2.43.0


From d354da6d2d0593e681c0b5669eac0c0222a7531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:27 +0000
Subject: [PATCH 065/118] fix: WRITE THEOREM_LIST / THEOREMS_PER_PAGE 0 divided
 by zero

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 3f800c6..8eb78cc 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2170,6 +2170,10 @@ void command(int argc, char *argv[]) {
       i = switchPos("THEOREMS_PER_PAGE");
       if (i != 0) {
         theoremsPerPage = (long)val(g_fullArg[i + 1]); // Use user's value
+        if (theoremsPerPage < 1) {
+          print2("?The number of theorems per page must be greater than 0.\n");
+          continue;
+        }
       } else {
         theoremsPerPage = THEOREMS_PER_PAGE; // Use the default value
       }
-- 
2.43.0


From f15bd8762592ef65a2078d49fda34601c4bb5b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 066/118] fix: typing a proof in a database with errors used
 unrelated variables

---
 src/mmpfas.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index de7db70..2373444 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -1767,6 +1767,9 @@ nmbrString *proveFloating(const nmbrString *mString, long statemNum, long maxEDe
       for (sym = 0; sym < hypLen; sym++) {
         if (g_MathToken[hypSchemePtr[sym]].tokenType
             != (char)var_) continue;
+        // An erroneous hypothesis can have a variable that is not required
+        if (!nmbrElementIn(1, g_Statement[stmt].reqVarList,
+            hypSchemePtr[sym])) continue;
         // Use dummy var mapping from g_MathToken[].tmp field
         hypSchemePtr[sym] = g_MathToken[hypSchemePtr[sym]].tmp;
       }
-- 
2.43.0


From eda07745e8db02ba019c7a91ef4868a403c5645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 067/118] fix: <HTML> in a comment copied a string onto itself

---
 src/mmwtex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 7f85b4a..5f86c85 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -981,12 +981,12 @@ vstring asciiToTt(vstring s) {
         case '<':
           // Leave in HTML tags (case must match)
           if (!strcmp(mid(ttstr, i + 1, 6), "<HTML>")) {
-            let(&ttstr, ttstr); // Purge stack to prevent overflow by 'mid'
+            freeTempAlloc(); // Purge stack to prevent overflow by 'mid'
             i = i + 6;
             break;
           }
           if (!strcmp(mid(ttstr, i + 1, 7), "</HTML>")) {
-            let(&ttstr, ttstr); // Purge stack to prevent overflow by 'mid'
+            freeTempAlloc(); // Purge stack to prevent overflow by 'mid'
             i = i + 7;
             break;
           }
-- 
2.43.0


From 3381e743b88e3634d2cae44f57359bb5efa63c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:51 +0000
Subject: [PATCH 068/118] fix: numbers that don't fit into a long were
 undefined

---
 src/mmvstr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index ac1a016..b950dbc 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -726,6 +726,9 @@ double val(const char *s) {
         break;
     }
   }
+  // A number that is too large (or not a number after an overflow of power)
+  // is limited to a value that can be converted to a long
+  if (!(v < 1.0e18)) v = 1.0e18;
   if (signFound) v = - v;
   return v;
   // return (atof(s));
-- 
2.43.0


From 4f5124f51dee55d83bec3a813dcf68beb4a7453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 069/118] fix: SAVE PROOF on a screen narrower than the
 indentation was an internal error

---
 src/metamath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 8eb78cc..e7644d3 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3744,6 +3744,12 @@ void command(int argc, char *argv[]) {
             print2(
 "---------Clip out the proof below this line to put it in the source file:\n");
           }
+          // On a very narrow screen there may be no room left for the
+          // indentation; this must not break the saved proof.
+          n = g_screenWidth;
+          if (saveFlag && g_screenWidth < indentation + 20) {
+            g_screenWidth = indentation + 20;
+          }
           if (switchPos("COMPRESSED")) {
             // "&" is special flag to break compressed part of proof anywhere.
             printLongLine(cat(space(indentation), str1, " $.", NULL),
@@ -3752,6 +3758,7 @@ void command(int argc, char *argv[]) {
             printLongLine(cat(space(indentation), str1," $.", NULL),
               space(indentation), " ");
           }
+          g_screenWidth = n;
 
           l = (long)(strlen(str1)); // Save length for printout below
 
-- 
2.43.0


From e913cdec48aaf95f1ba39e52039e241266e77f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 070/118] fix: messages couldn't be broken into lines on
 screens narrower than 10 columns

---
 src/metamath.c | 5 +++--
 src/mmhlpb.c   | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index e7644d3..7b62da1 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6066,8 +6066,9 @@ void command(int argc, char *argv[]) {
     if (cmdMatches("SET WIDTH")) {
       s = (long)val(g_fullArg[2]); // Screen width value
 
-      // TODO: figure out why s=2 crashes program!
-      if (s < 3) s = 3; // Less than 3 may cause a segmentation fault
+      // Lines can't be broken correctly (see printLongLine()) when the screen
+      // has no room for the indentation and a few characters.
+      if (s < 10) s = 10;
       i = g_screenWidth;
       g_screenWidth = s;
       print2("Screen width has been changed from %ld to %ld.\n",
diff --git a/src/mmhlpb.c b/src/mmhlpb.c
index 86e89e5..3bc5a43 100644
--- a/src/mmhlpb.c
+++ b/src/mmhlpb.c
@@ -513,6 +513,8 @@ H("");
 H("Note:  The default width is 79 because Windows Command Prompt issues a");
 H("spurious blank line after an 80-character line (try it!).");
 H("");
+H("Note:  The smallest width is 10.");
+H("");
 H("Note:  This command was SET SCREEN_WIDTH prior to Version 0.07.9.");
 H("");
 }
-- 
2.43.0


From b99e623ecd60b4cdf32ece04d9661b7b5754116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 071/118] fix: a directory given as a file to read overflowed
 its size

---
 src/mminou.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mminou.c b/src/mminou.c
index 82a0cdc..2555ea0 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -10,6 +10,7 @@
  */
 
 #include <string.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <stdarg.h>
 #include <time.h>
@@ -1333,9 +1334,18 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
     if (verbose) print2(
         "?Sorry, \"%s\" doesn't seem to be a regular file.\n",
         fileName);
+    fclose(inputFp);
     return NULL;
   }
   fileBufSize = ftell(inputFp);
+  // (The size of a directory may be given as the largest number)
+  if (fileBufSize < 0 || fileBufSize == LONG_MAX) {
+    if (verbose) print2(
+        "?Sorry, \"%s\" doesn't seem to be a regular file.\n",
+        fileName);
+    fclose(inputFp);
+    return NULL;
+  }
 
   // Close and reopen the input file in text mode.
   // Text mode is needed for VAX, DOS, etc. with non-Unix end-of-lines.
-- 
2.43.0


From de046becf9ec5537e3a5806e01f5db0d2677e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 072/118] fix: a proof without steps after an error was read
 out of bounds

---
 src/mmpars.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 55eec3e..fe02e4b 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2603,8 +2603,8 @@ char parseProof(long statemNum)
   // The stack should have one entry
   if (g_WrkProof.RPNStackPtr != 1) {
     tmpStrPtr = shortDumpRPNStack();
-    fbPtr = g_WrkProof.stepSrcPtrPntr[g_WrkProof.numSteps - 1];
     if (!g_WrkProof.errorCount) {
+      fbPtr = g_WrkProof.stepSrcPtrPntr[g_WrkProof.numSteps - 1];
       sourceError(fbPtr, proofTokenLen(fbPtr), statemNum, cat("After proof step ",
           str((double)(g_WrkProof.numSteps))," (the last step), the ",
           tmpStrPtr,".  It should contain exactly one entry.",NULL));
@@ -3382,8 +3382,8 @@ char parseCompressedProof(long statemNum)
   // The stack should have one entry
   if (g_WrkProof.RPNStackPtr != 1) {
     tmpStrPtr = shortDumpRPNStack();
-    fbPtr = g_WrkProof.stepSrcPtrPntr[g_WrkProof.numSteps - 1];
     if (!g_WrkProof.errorCount) {
+      fbPtr = g_WrkProof.stepSrcPtrPntr[g_WrkProof.numSteps - 1];
       sourceError(fbPtr, proofTokenLen(fbPtr), statemNum,
           cat("After proof step ",
           str((double)(g_WrkProof.numSteps))," (the last step), the ",
-- 
2.43.0


From 5c9f00c450f64b8be90297abe520bf6e85cff7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:16 +0000
Subject: [PATCH 073/118] fix: LET STEP with an empty symbol sequence and SHOW
 NEW_PROOF / TEX crashed

---
 src/metamath.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 7b62da1..18a6156 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3602,6 +3602,10 @@ void command(int argc, char *argv[]) {
         if (!pipFlag) let(&labelMatch, g_fullArg[2]);
       }
 
+      if (texFlag && pipFlag) {
+        print2("?Unsupported:  HTML or LaTeX proof for NEW_PROOF.\n");
+        continue;
+      }
       if (texFlag) {
         if (!g_texFileOpenFlag) {
           print2(
@@ -4436,6 +4440,11 @@ void command(int argc, char *argv[]) {
             0); // ALL not allowed
         if (s == -1) continue; // Error; message was provided already
 
+        if (nmbrLen(nmbrTmp) == 0) {
+          print2("?A step can't be assigned an empty symbol sequence.\n");
+          continue;
+        }
+
         // Check to see if the statement selected is allowed
         if (!checkMStringMatch(nmbrTmp, s - 1)) {
           printLongLine(cat("?Step ", str((double)s), " cannot be unified with \"",
-- 
2.43.0


From 9e9181194043dd7f4bce76dc70c6bc19f1567116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 074/118] fix: TOOLS BREAK with repeated spaces in its second
 argument needed exponential time and memory

---
 src/metamath.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 18a6156..2f29898 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1555,6 +1555,9 @@ void command(int argc, char *argv[]) {
               let(&str2, str1);
               changedLines++;
               for (i = 0; i < (signed)(strlen(g_fullArg[2])); i++) {
+                // A repeated token would only add more spaces
+                if (strchr(g_fullArg[2], ((vstring)(g_fullArg[2]))[i])
+                    != (vstring)(g_fullArg[2]) + i) continue;
                 p = 0;
                 while (1) {
                   p = instr(p + 1, str2, chr(((vstring)(g_fullArg[2]))[i]));
-- 
2.43.0


From cdf11b933f6f471aca16f1c2eae2a4c37d382df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 075/118] fix: TOOLS CLEAN T of a line with tabs wrote out of
 bounds

---
 src/mmvstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index b950dbc..6635c88 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -387,7 +387,7 @@ temp_vstring edit(const char *sin, long control) {
 
   // Copy string
   i = (long)strlen(sin) + 1;
-  if (untab_flag) i = i * 8; // Allow for max possible length
+  if (untab_flag || tab_flag) i = i * 8; // Allow for max possible length
   temp_vstring sout = tempAlloc(i);
   strcpy(sout, sin);
 
-- 
2.43.0


From 1f87204e6202f3e147c26838577d28394ab4efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 076/118] fix: converting a text for LaTeX freed the temporary
 strings of its caller

---
 src/mmwtex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 5f86c85..871efac 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1015,7 +1015,13 @@ vstring asciiToTt(vstring s) {
 } // asciiToTt
 
 temp_vstring asciiToTt_temp(vstring s) {
-  return makeTempAlloc(asciiToTt(s));
+  // The let()s in asciiToTt() must not free the temporary strings that the
+  // caller made before it, e.g. other arguments of the same cat()
+  long saveTempAllocStack = g_startTempAllocStack;
+  g_startTempAllocStack = g_tempAllocStackTop;
+  vstring ttstr = asciiToTt(s);
+  g_startTempAllocStack = saveTempAllocStack;
+  return makeTempAlloc(ttstr);
 }
 
 // Convert ascii token to LaTeX equivalent.
-- 
2.43.0


From 923f402f8cba88e273225c923ff76af3abbe3255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:44 +0000
Subject: [PATCH 077/118] fix: OPEN TEX after a refused HTML command opened an
 HTML file

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 2f29898..0c34302 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -6219,6 +6219,10 @@ void command(int argc, char *argv[]) {
         }
       }
 
+      // An earlier refused HTML command may have left these on
+      g_htmlFlag = 0;
+      g_altHtmlFlag = 0;
+
       // Open a TeX file
       let(&g_texFileName,g_fullArg[2]);
       if (switchPos("NO_HEADER")) {
-- 
2.43.0


From 2caa3bcc58665606f7914df8993d00f6414fb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:14 +0000
Subject: [PATCH 078/118] fix: SHOW PROOF / DETAILED_STEP gave the wrong number
 for the step of a local label

---
 src/mmcmds.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 24e9750..a8c9349 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2320,9 +2320,9 @@ void showDetailStep(long statemNum, long detailStep) {
         // This statement declares a local label.
         // First, get a name for the local label, using the next integer that
         // does not match any integer used for a statement label.
-        let(&tmpStr1, str((double)nextLocLabNum));
         while (1) {
-          voidPtr = (void *)bsearch(tmpStr,
+          let(&tmpStr1, str((double)nextLocLabNum));
+          voidPtr = (void *)bsearch(tmpStr1,
               g_allLabelKeyBase, (size_t)g_numAllLabelKeys,
               sizeof(long), labelSrchCmp);
           if (!voidPtr) break; // It does not conflict
@@ -2383,7 +2383,7 @@ void showDetailStep(long statemNum, long detailStep) {
     if (stmt <= -1000) {
       stmt = -1000 - stmt;
       // stmt is now the step number a local label refers to
-      let(&tmpStr, cat(tmpStr, "step ", str((double)stmt),
+      let(&tmpStr, cat(tmpStr, "step ", str((double)stmt + 1),
           " (via local label reference \"",
           str((double)(localLabelNames[stmt])), "\") to ", NULL));
     } else {
-- 
2.43.0


From 9d02fb80dc8173bfcbaea9927f8c62b80f2167dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:32 +0000
Subject: [PATCH 079/118] fix: underscore markup next to the start or the end
 of a description swallowed HTML tags

---
 src/mmwtex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 871efac..7b3629b 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2000,10 +2000,14 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
       // Opening "_" must be <whitespace>_<alphanum> for <I> tag
       if (pos1 > 1) {
         // Check for not whitespace and not opening punctuation
+        // (">" ends an HTML tag such as the "</B>" before the comment.)
         if (!isspace((unsigned char)(cmt[pos1 - 2]))
+            && cmt[pos1 - 2] != '>'
             && strchr(OPENING_PUNCTUATION, cmt[pos1 - 2]) == NULL) {
           // Check for not whitespace and not closing punctuation
+          // ("<" is an HTML tag such as the "</TD>" appended to the comment.)
           if (!isspace((unsigned char)(cmt[pos1]))
+            && cmt[pos1] != '<'
             && strchr(CLOSING_PUNCTUATION, cmt[pos1]) == NULL) {
 
             // Found <nonwhitespace>_<nonwhitespace> - assume subscript.
@@ -2017,6 +2021,7 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
               if (!cmt[pos2]) break; // End of string
               // Look for whitespace or closing punctuation
               if (isspace((unsigned char)(cmt[pos2]))
+                  || cmt[pos2] == '<' // "</TD>" when it ends the comment
                   || strchr(OPENING_PUNCTUATION, cmt[pos2]) != NULL
                   || strchr(CLOSING_PUNCTUATION, cmt[pos2]) != NULL) break;
               pos2++; // Move forward through subscript
-- 
2.43.0


From 3c55e74a709b9464afd267b2b87a7073d25f65bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 080/118] fix: bibliographic tags of one character were not
 found in the bibliography

---
 src/mmwtex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 7b3629b..f105225 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2217,7 +2217,7 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
               htmlpos2--; // Move to character before ">"
               if (bibFileContents[htmlpos2 - 1] == '\''
                   || bibFileContents[htmlpos2 - 1] == '"') htmlpos2--;
-              if (htmlpos2 <= htmlpos1) continue; // Ignore bad HTML syntax
+              if (htmlpos2 < htmlpos1) continue; // Ignore bad HTML syntax
               let(&tmp, cat("[",
                   seg(bibFileContents, htmlpos1, htmlpos2), "]", NULL));
               // Check if tag is already in list
-- 
2.43.0


From bc9d48d9e50a6428847771976a26fafe227f2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:36 +0000
Subject: [PATCH 081/118] fix: MARKUP without / SYMBOLS took an escaped
 backquote for the start of a formula

---
 src/mmwtex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index f105225..0b3fa06 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2292,6 +2292,8 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
           // Escaped ` = actual `
           let(&cmt, cat(left(cmt, i + 1), right(cmt, i + 3), NULL));
           clen--;
+        } else {
+          i++; // Leave `` as it is, but don't take the 2nd ` for math mode
         }
       } else {
         // We will still enter and exit math mode when
-- 
2.43.0


From 54407cae1ae20b19a999f65cd4c8a17904b8563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:36 +0000
Subject: [PATCH 082/118] fix: "[[" was not replaced after a "[" without "]" in
 a comment

---
 src/mmwtex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 0b3fa06..6f8cf09 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -2143,7 +2143,7 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
 
       // Only look at non-math part of comment
       pos2 = instr(pos1 + 1, cmtMasked, "]");
-      if (!pos2) break;
+      if (!pos2) continue; // Not a tag, but a "[[" may follow
 
       // Get bibTag from cmtMasked as extra precaution
       let(&bibTag, seg(cmtMasked, pos1, pos2));
-- 
2.43.0


From 1df664168c494b46e685d872fc1571e32368604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 083/118] fix: the web page of an axiom with a one-character
 syntax breakdown crashed if no proof had been parsed

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index fe02e4b..bc2b94f 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -1956,7 +1956,8 @@ char parseProof(long statemNum)
   // plus the number of active hypotheses.
 
   numOptHyp = nmbrLen(g_Statement[statemNum].optHypList);
-  if (g_Statement[statemNum].proofSectionLen + g_Statement[statemNum].numReqHyp
+  if (g_wrkProofMaxSize == 0 // First allocation
+      || g_Statement[statemNum].proofSectionLen + g_Statement[statemNum].numReqHyp
       + numOptHyp > g_wrkProofMaxSize) {
     if (g_wrkProofMaxSize) { // Not the first allocation
       free(g_WrkProof.tokenSrcPtrNmbr);
-- 
2.43.0


From 90fe6a6d7a609ac2f7a2352f4f8b008c7bb4018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 084/118] fix: SET ECHO ON showed arguments with "/" or "="
 without the quotes they need

---
 src/metamath.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 0c34302..d877dbf 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1114,6 +1114,11 @@ void command(int argc, char *argv[]) {
       for (i = 0; i < k; i++) {
         if (instr(1, g_fullArg[i], " ") || instr(1, g_fullArg[i], "\t")
             || instr(1, g_fullArg[i], "\"") || instr(1, g_fullArg[i], "'")
+            // The one-character tokens "/" and "=" need no quotes, but
+            // would split an argument that contains them
+            || (!g_toolsMode && ((char *)(g_fullArg[i]))[0] != 0
+                && ((char *)(g_fullArg[i]))[1] != 0
+                && (instr(1, g_fullArg[i], "/") || instr(1, g_fullArg[i], "=")))
             || ((char *)(g_fullArg[i]))[0] == 0) {
           // If the argument has spaces or tabs or quotes
           // or is empty string, put quotes around it.
-- 
2.43.0


From 42ca21d4764c6df2a5720f792959301f4d780e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:34 +0000
Subject: [PATCH 085/118] fix: SET WIDTH and SET HEIGHT proposed wrong current
 values

---
 src/mmcmdl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmdl.c b/src/mmcmdl.c
index 476a423..5f830ef 100644
--- a/src/mmcmdl.c
+++ b/src/mmcmdl.c
@@ -1124,7 +1124,7 @@ flag processCommandLine(void) {
       if (cmdMatches("SET WIDTH")) {
         if (!getFullArg(2, cat(
            "# What is maximum line length on your screen <",
-            str((double)g_screenHeight), ">? ", NULL)))
+            str((double)g_screenWidth), ">? ", NULL)))
           goto pclbad;
         goto pclgood;
       }
@@ -1132,7 +1132,7 @@ flag processCommandLine(void) {
       if (cmdMatches("SET HEIGHT")) {
         if (!getFullArg(2, cat(
            "# What is number of lines your screen displays <",
-            str((double)g_screenHeight), ">? ", NULL)))
+            str((double)(g_screenHeight + 1)), ">? ", NULL)))
           goto pclbad;
         goto pclgood;
       }
-- 
2.43.0


From 59cd53f7ea03344fba0b957b6a3533aecfaf927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 086/118] fix: tags in descriptions were not recognized across
 or after a line break

---
 src/mmdata.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 484b0c1..d983312 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3127,6 +3127,7 @@ flag getMarkupFlag(long statemNum, flag mode) {
   static vstring_def(proofFlags); // Y if proof discouragement, else N
   static vstring_def(usageFlags); // Y if usage discouragement, else N
   vstring_def(str1);
+  long i;
 
   if (mode == RESET) { // Deallocate // Should be called by ERASE command
     free_vstring(commentSearchedFlags);
@@ -3166,7 +3167,10 @@ flag getMarkupFlag(long statemNum, flag mode) {
         bug(1393);
       }
       str1 = getDescription(statemNum); // str1 must be deallocated here
-      // Strip linefeeds and reduce spaces
+      // Change linefeeds to spaces and reduce spaces
+      for (i = 0; str1[i] != 0; i++) {
+        if (str1[i] == '\n') str1[i] = ' ';
+      }
       let(&str1, edit(str1, 4 + 8 + 16 + 128));
       if (instr(1, str1, g_proofDiscouragedMarkup)) {
         proofFlags[statemNum] = 'Y';
@@ -3352,6 +3356,10 @@ vstring getContrib(long stmtNum, char mode) {
 
     free_vstring(description);
     description = getDescription(stmtNum);
+    // A line break separates words like a space does
+    for (p = 0; description[p] != 0; p++) {
+      if (description[p] == '\n') description[p] = ' ';
+    }
     let(&description, edit(description,
         4 // ctrl 
         + 8 // leading 
-- 
2.43.0


From 13508eb14ae2d7512862ce91db7cfd48fcbc9828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:24 +0000
Subject: [PATCH 087/118] fix: VERIFY MARKUP missed reserved file names after
 the first axiom

---
 src/mmcmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index a8c9349..5aab1d6 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4802,8 +4802,8 @@ void verifyMarkup(vstring labelMatch,
     if (g_Statement[stmtNum].type == (char)a_) {
       if (!strcmp("|-", g_MathToken[
           (g_Statement[stmtNum].mathString)[0]].tokenName)) {
-        let(&str1, left(g_Statement[stmtNum].labelName, 3));
-        if (strcmp("ax-", str1) && strcmp("df-", str1)) {
+        let(&str2, left(g_Statement[stmtNum].labelName, 3));
+        if (strcmp("ax-", str2) && strcmp("df-", str2)) {
           assignStmtFileAndLineNum(stmtNum);
           printLongLine(cat("?Warning: In the $a statement \"",
               g_Statement[stmtNum].labelName, "\" at line ",
-- 
2.43.0


From 1820393d35f3fe9f2448cbbb7044d4c119948ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:25 +0000
Subject: [PATCH 088/118] fix: impossible days and unknown months in dates were
 not reported

---
 src/mmdata.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index d983312..2131f34 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3259,6 +3259,7 @@ vstring getContrib(long stmtNum, char mode) {
   long stmt, p, dd, mmm, yyyy;
   flag errorCheckFlag = 0;
   flag err = 0;
+  flag f;
   vstring_def(returnStr); // Return value
 #define CONTRIB_MATCH " (Contributed by "
 #define REVISE_MATCH " (Revised by "
@@ -3635,9 +3636,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (contribDate[0] != 0) {
-    parseDate(contribDate, &dd, &mmm, &yyyy);
+    f = parseDate(contribDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(contribDate, tmpDate0)) {
+    if (f || strcmp(contribDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3652,9 +3653,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (reviseDate[0] != 0) {
-    parseDate(reviseDate, &dd, &mmm, &yyyy);
+    f = parseDate(reviseDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(reviseDate, tmpDate0)) {
+    if (f || strcmp(reviseDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3669,9 +3670,9 @@ vstring getContrib(long stmtNum, char mode) {
   }
 
   if (shortenDate[0] != 0) {
-    parseDate(shortenDate, &dd, &mmm, &yyyy);
+    f = parseDate(shortenDate, &dd, &mmm, &yyyy);
     buildDate(dd, mmm, yyyy, &tmpDate0);
-    if (strcmp(shortenDate, tmpDate0)) {
+    if (f || strcmp(shortenDate, tmpDate0)) {
       err = 1;
       if (mode == GC_ERROR_CHECK_PRINT) printLongLine(cat(
           // convenience prefix to assist massive revisions
@@ -3786,7 +3787,7 @@ flag parseDate(vstring dateStr, long *dd, long *mmm, long *yyyy) {
   j = instr(1, dateStr, "-");
   *dd = (long)val(left(dateStr, j - 1)); // Day
 #define MONTHS "JanFebMarAprMayJunJulAugSepOctNovDec"
-  *mmm = ((instr(1, MONTHS, mid(dateStr, j + 1, 3)) - 1) / 3) + 1; // 1 = Jan
+  *mmm = (instr(1, MONTHS, mid(dateStr, j + 1, 3)) + 2) / 3; // 1 = Jan
   j = instr(j + 1, dateStr, "-");
   *yyyy = (long)val(right(dateStr, j + 1));
   if (*yyyy < 100) { // 2-digit year (obsolete)
-- 
2.43.0


From 2edf1ed6fc908ad721d056c51ee7878a8338143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:08 +0000
Subject: [PATCH 089/118] fix: VERIFY MARKUP aborted when a mathbox used a
 statement before the first mathbox

---
 src/mmcmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 5aab1d6..1553f20 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -5280,6 +5280,8 @@ void verifyMarkup(vstring labelMatch,
           if (stmt < 0) continue; // Local step or '?' step
           if (stmt == 0) bug(266);
           if (stmt > g_mathboxStmt && stmt < g_mathboxStart[pmbox - 1]) {
+            mbox = getMathboxNum(stmt);
+            if (mbox == 0) continue; // It precedes the first mathbox
             // A statement in another mathbox is referenced
 
             // Eliminate duplicate error messages:
@@ -5291,8 +5293,6 @@ void verifyMarkup(vstring labelMatch,
                   (dupCheck[0] == 0) ? "" : ",", str1, NULL)); // Add to list
             }
 
-            mbox = getMathboxNum(stmt);
-            if (mbox == 0) bug(267);
             if (verboseMode == 0) {
               printLongLine(cat("?Warning: The proof of \"",
                   g_Statement[pstmt].labelName,
-- 
2.43.0


From f1f13af84f7704d77c825c4c99f0058c567d5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:37 +0000
Subject: [PATCH 090/118] fix: a section header before a larger one is ignored
 in the theorem list and WRITE SOURCE / EXTRACT

---
 src/mmwtex.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 6f8cf09..1904712 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -4399,6 +4399,7 @@ flag getSectionHeadings(long stmt,
   vstring_def(labelStr);
   vstring_def(sectionStr);
   long pos, pos1, pos2, pos3, pos4;
+  long hdrPos = 0; // Position of the last larger header found, if any
   flag errorFound = 0;
   flag saveOutputToString;
 
@@ -4479,6 +4480,7 @@ flag getSectionHeadings(long stmt,
   }
   if (pos2) { // Extract "huge" header
     pos1 = pos2; // Save "$(" position
+    hdrPos = pos2; // Ignore any smaller headers before this one
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of #### line
     pos2 = instr(pos + 1, labelStr, "\n"); // Find end of title line
 
@@ -4517,8 +4519,9 @@ flag getSectionHeadings(long stmt,
       let(&(*hugeHdrComment), seg(labelStr, pos3 + 1, pos4 + 1));
     }
   }
-  // pos = 0; // Leave pos alone so that we start with "huge" header pos,
-  // to ignore any earlier "tiny" or "small" or "big" header.
+  // Start with the "huge" header pos, if any, to ignore any earlier
+  // "tiny" or "small" or "big" header.
+  pos = hdrPos;
   pos2 = 0;
   while (1) { // Find last "big" header, if any
     pos1 = pos;
@@ -4531,6 +4534,7 @@ flag getSectionHeadings(long stmt,
   }
   if (pos2) { // Extract "big" header
     pos1 = pos2; // Save "$(" position
+    hdrPos = pos2; // Ignore any smaller headers before this one
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of #*#* line
     pos2 = instr(pos + 1, labelStr, "\n"); // Find end of title line
 
@@ -4569,8 +4573,9 @@ flag getSectionHeadings(long stmt,
       let(&(*bigHdrComment), seg(labelStr, pos3 + 1, pos4 + 1));
     }
   }
-  // pos = 0; // Leave pos alone so that we start with "big" header pos,
-  // to ignore any earlier "tiny" or "small" header
+  // Start with the last larger header pos, if any, to ignore any earlier
+  // "tiny" or "small" header.
+  pos = hdrPos;
   pos2 = 0;
   while (1) { // Find last "small" header, if any
     pos1 = pos;
@@ -4583,6 +4588,7 @@ flag getSectionHeadings(long stmt,
   }
   if (pos2) { // Extract "small" header
     pos1 = pos2; // Save "$(" position
+    hdrPos = pos2; // Ignore any smaller headers before this one
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of =-=- line
     pos2 = instr(pos + 1, labelStr, "\n"); // Find end of title line
 
@@ -4622,8 +4628,9 @@ flag getSectionHeadings(long stmt,
     }
   }
 
-  // pos = 0; // Leave pos alone so that we start with "small" header pos,
-  // to ignore any earlier "tiny" header.
+  // Start with the last larger header pos, if any, to ignore any earlier
+  // "tiny" header.
+  pos = hdrPos;
   pos2 = 0;
   while (1) { // Find last "tiny" header, if any
     pos1 = pos;
@@ -4636,6 +4643,7 @@ flag getSectionHeadings(long stmt,
   }
   if (pos2) { // Extract "tiny" header
     pos1 = pos2; // Save "$(" position
+    hdrPos = pos2; // Ignore any smaller headers before this one
     pos = instr(pos2 + 4, labelStr, "\n"); // Get to end of -.-. line
     pos2 = instr(pos + 1, labelStr, "\n"); // Find end of title line
 
-- 
2.43.0


From 6f065e37755536da15caaf906883480f5f1d8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:53 +0000
Subject: [PATCH 091/118] fix: subsubsections in the theorem list have their
 own link target

---
 src/mmwtex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 1904712..863050c 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3740,7 +3740,7 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
                 printLongLine(cat(
                     "&nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; &nbsp; ",
                     hdrCommentAnchor,
-                    "<A HREF=\"", str3, "s\">",
+                    "<A HREF=\"", str3, "t\">",
                     hdrCommentMarker,
                     tinyHdr, "</A>",
                     " &nbsp; <A HREF=\"",
@@ -4101,7 +4101,7 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
                  "<TR BGCOLOR=\"#FFFFF2\"><TD COLSPAN=3",
                  "><CENTER><B>",
                  "<A NAME=\"mm", str((double)(g_Statement[s].pinkNumber)),
-                     "s\"></A>", // Anchor for table of contents
+                     "t\"></A>", // Anchor for table of contents
                  (vstring)(pntrTinyHdr[s]),
                  "</B></CENTER>",
                  NULL),
-- 
2.43.0


From 3db60abd91c6a9e0d9a7fe6789fffe4a830c5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:07 +0000
Subject: [PATCH 092/118] fix: WRITE THEOREM_LIST stopped with a bug check when
 there is an extended section but no mathbox

---
 src/mmwtex.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 863050c..8362153 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3808,9 +3808,13 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
       print2("&nbsp;Hilbert Space Explorer</A>\n");
 
       free_vstring(str3);
-      if (g_Statement[g_mathboxStmt].pinkNumber <= 0) bug(2333);
-      str3 = pinkRangeHTML(g_extHtmlStmt,
-         nmbrStmtNmbr[g_Statement[g_mathboxStmt].pinkNumber - 1]);
+      if (g_mathboxStmt > g_statements) { // There are no mathboxes
+        i = assertions;
+      } else {
+        i = g_Statement[g_mathboxStmt].pinkNumber - 1;
+      }
+      if (i < 0) bug(2333);
+      str3 = pinkRangeHTML(g_extHtmlStmt, nmbrStmtNmbr[i]);
       printLongLine(cat("<BR>(", str3, ")", NULL),
         " ", // Start continuation line with space
         "\""); // Don't break inside quotes e.g. "Arial Narrow"
@@ -3820,22 +3824,24 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
       print2("<TD WIDTH=10>&nbsp;</TD>\n");
       print2("\n");
 
-      // Mathbox stuff
-      print2("<TD BGCOLOR=%s NOWRAP><A\n", SANDBOX_COLOR);
-      print2(" HREF=\"mathbox.html\"><IMG SRC=\"_sandbox.gif\"\n");
-      print2("BORDER=0 ALT=\"Users' Mathboxes\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
-      print2("&nbsp;Users' Mathboxes</A>\n");
-
-      free_vstring(str3);
-      str3 = pinkRangeHTML(g_mathboxStmt, nmbrStmtNmbr[assertions]);
-      printLongLine(cat("<BR>(", str3, ")", NULL),
-        " ", // Start continuation line with space
-        "\""); // Don't break inside quotes e.g. "Arial Narrow"
+      if (g_mathboxStmt <= g_statements) {
+        // Mathbox stuff
+        print2("<TD BGCOLOR=%s NOWRAP><A\n", SANDBOX_COLOR);
+        print2(" HREF=\"mathbox.html\"><IMG SRC=\"_sandbox.gif\"\n");
+        print2("BORDER=0 ALT=\"Users' Mathboxes\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
+        print2("&nbsp;Users' Mathboxes</A>\n");
+
+        free_vstring(str3);
+        str3 = pinkRangeHTML(g_mathboxStmt, nmbrStmtNmbr[assertions]);
+        printLongLine(cat("<BR>(", str3, ")", NULL),
+          " ", // Start continuation line with space
+          "\""); // Don't break inside quotes e.g. "Arial Narrow"
 
-      print2("</TD>\n");
-      print2("\n");
-      print2("<TD WIDTH=10>&nbsp;</TD>\n");
-      print2("\n");
+        print2("</TD>\n");
+        print2("\n");
+        print2("<TD WIDTH=10>&nbsp;</TD>\n");
+        print2("\n");
+      }
 
       print2("</TR></TABLE></CENTER>\n");
     } // if (g_extHtmlStmt < g_mathboxStmt)
-- 
2.43.0


From 176b3e58eafcaeeda882a357865811411e14210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:42 +0000
Subject: [PATCH 093/118] fix: MINIMIZE_WITH without / OVERRIDE used syntax
 whose usage is discouraged

---
 src/metamath.c | 3 ++-
 src/mmpfas.c   | 5 +++--
 src/mmpfas.h   | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index d877dbf..f174d80 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5229,7 +5229,8 @@ void command(int argc, char *argv[]) {
           nmbrLet(&nmbrTmp, g_ProofInProgress.proof);
           minimizeProof(k, // trial statement
               g_proveStatement, // statement being proved in MM-PA
-              (char)mayGrowFlag); // mayGrowFlag
+              (char)mayGrowFlag, // mayGrowFlag
+              overrideFlag);
 
           n = nmbrLen(g_ProofInProgress.proof); // New proof length
           if (!nmbrEq(nmbrTmp, g_ProofInProgress.proof)) {
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 2373444..f318676 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2027,13 +2027,14 @@ INLINE flag quickMatchFilter(long trialStmt, const nmbrString *mString,
 
 // Shorten proof by using specified statement.
 void minimizeProof(long repStatemNum, long prvStatemNum,
-    flag allowGrowthFlag)
+    flag allowGrowthFlag, flag overrideFlag)
 {
   // repStatemNum is the statement number we're trying to use
   // in the proof to shorten it.
   // prvStatemNum is the statement number we're proving.
   // allowGrowthFlag means to make the replacement when possible,
   // even if it doesn't shorten the proof length.
+  // overrideFlag means to allow discouraged statements for $f hypotheses.
 
   long plen, step, mlen, sym, sublen;
   long startingPlen = 0;
@@ -2083,7 +2084,7 @@ void minimizeProof(long repStatemNum, long prvStatemNum,
             0, // noDistinct=0 OK since searchMethod=0 will only call proveFloating for $f's
             0, // searchMethod=0: call proveFloating only for $f's
             0, // improveDepth=0 OK since we call proveFloating only for $f's
-            2, // overrideFlag=2(silent) OK since MINIMIZE_WITH checked it
+            overrideFlag ? 2 : 0, // 2 = silent
             1 // mathboxFlag=1 since MINIMIZE_WITH has checked it before here
             );
       }
diff --git a/src/mmpfas.h b/src/mmpfas.h
index 7d73a2c..8e19063 100644
--- a/src/mmpfas.h
+++ b/src/mmpfas.h
@@ -129,7 +129,8 @@ char quickMatchFilter(long trialStmt, const nmbrString *mString,
     long dummyVarFlag /*!< 0 if no dummy vars in mString */);
 
 /*! Shorten proof by using specified statement. */
-void minimizeProof(long repStatemNum, long prvStatemNum, flag allowGrowthFlag);
+void minimizeProof(long repStatemNum, long prvStatemNum, flag allowGrowthFlag,
+    flag overrideFlag);
 
 /*! Initialize g_ProofInProgress.source of the step, and .target of all
    hypotheses, to schemes using new dummy variables. */
-- 
2.43.0


From 5f787884be94644ead03687ec13c3f332cd29cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:16 +0000
Subject: [PATCH 094/118] fix: the place of an error in a typed formula is
 shown wherever the text is in memory

---
 src/mmpars.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index bc2b94f..34331bd 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3496,6 +3496,10 @@ void sourceError(char *ptr, long tokLen, long stmtNum, vstring errMsg)
 
   if (!stmtNum) {
     lineNum = 0;
+    if (ptr < g_sourcePtr || ptr > g_sourcePtr + g_sourceLen) {
+      // The text isn't in the source buffer; it starts after a newline
+      locSourcePtr = NULL;
+    }
     goto SKIP_LINE_NUM; // This isn't a source file parse
   }
   if (ptr < g_sourcePtr || ptr > g_sourcePtr + g_sourceLen) {
-- 
2.43.0


From 62e00541c85facff2e4a2f8673c23ad1c7ba4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 095/118] fix: SAVE PROOF in the Proof Assistant does not take
 the new proof for saved

---
 src/metamath.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index f174d80..ae4c159 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3853,12 +3853,14 @@ void command(int argc, char *argv[]) {
 
           if (saveFlag) {
             g_sourceChanged = 1;
-            g_proofChanged = 0;
-            if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
-              // The UNDO stack may not be empty.
-              // UNDO stack empty no longer reliably indicates that
-              // proof hasn't changed.
-              proofSavedFlag = 1; 
+            if (pipFlag) { // (SAVE PROOF does not save the new proof)
+              g_proofChanged = 0;
+              if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
+                // The UNDO stack may not be empty.
+                // UNDO stack empty no longer reliably indicates that
+                // proof hasn't changed.
+                proofSavedFlag = 1; 
+              }
             }
 
             // Add an initial \n which will go after the "$=" and the
-- 
2.43.0


From c9c1e8320945e667bca9951f00a4ea9fc1acb9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:03 +0000
Subject: [PATCH 096/118] fix: many underscores in a comment do not overflow
 the temporary string stack

---
 src/mmwtex.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 8362153..85b7d53 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1966,13 +1966,14 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
         if (pos2 == 0 || isspace((unsigned char)(cmt[pos2]))) break;
         pos2--;
       }
-      if (!strcmp(mid(cmt, pos2 + 2, 7), "http://")) {
+      // (No mid() here: its temporary strings would pile up in the loop.)
+      if (!strncmp(cmt + pos2 + 1, "http://", 7)) {
         continue;
       }
-      if (!strcmp(mid(cmt, pos2 + 2, 8), "https://")) {
+      if (!strncmp(cmt + pos2 + 1, "https://", 8)) {
         continue;
       }
-      if (!strcmp(mid(cmt, pos2 + 2, 2), "mm")) {
+      if (!strncmp(cmt + pos2 + 1, "mm", 2)) {
         continue;
       }
       // Double-underscore handling: double-underscores are "escaped
-- 
2.43.0


From c9b26b29bfbce535ac10f8170f7bed5f94c07d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:20 +0000
Subject: [PATCH 097/118] fix: ERASE also forgets a source without statements

---
 src/mmcmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 1553f20..0ebe8da 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4491,8 +4491,8 @@ void eraseSource(void) // ERASE command
     g_wrkProofMaxSize = 0;
   }
 
-  if (g_statements == 0) {
-    // Already called
+  if (!g_sourceHasBeenRead) {
+    // Already called (a source that was read may have no statements)
     memFreePoolPurge(0);
     return;
   }
-- 
2.43.0


From 5ec433579d9f38d3712cb462e25016061e13b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:58 +0000
Subject: [PATCH 098/118] fix: the number of a dummy variable that is entered
 is limited, and not zero

---
 src/mmpars.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 34331bd..365f40f 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4807,15 +4807,17 @@ nmbrString *parseMathTokens(vstring userText, long statemNum)
                 if (fbPtr[i] < '0' || fbPtr[i] > '9') break;
               }
               symbolLen = i;
-              if (symbolLen == 1) {
-                symbolLen = 0; // No # after '$' -- error
+              // The dummy variables are $1, $2,...; all of those up to the
+              // one used are declared, so their number must be reasonable.
+              if (symbolLen == 1 || symbolLen > 7 || fbPtr[1] == '0') {
+                symbolLen = 0; // No (or a wrong) # after '$' -- error
               } else {
                 memcpy(wrkStrPtr, fbPtr + 1, (size_t)i - 1);
                 wrkStrPtr[i - 1] = 0; // End of string
                 tokenNum = (long)(val(wrkStrPtr)) + g_mathTokens;
                 // See if dummy var has been declared; if not, declare it
-                if (tokenNum > g_pipDummyVars + g_mathTokens) {
-                  declareDummyVars(tokenNum - g_pipDummyVars - g_mathTokens);
+                if (tokenNum > g_dummyVars + g_mathTokens) {
+                  declareDummyVars(tokenNum - g_dummyVars - g_mathTokens);
                 }
               }
             } // End if fbPtr == '$'
-- 
2.43.0


From 179e6bf0a0deddd654c9f3310ed5d77e3e4dabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:35 +0000
Subject: [PATCH 099/118] fix: SHOW PROOF does not run out of memory with a
 huge / START_COLUMN

---
 src/metamath.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index ae4c159..5ad596b 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3575,7 +3575,13 @@ void command(int argc, char *argv[]) {
       i = switchPos("LEMMON");
       if (i) noIndentFlag = 1;
       i = switchPos("START_COLUMN");
-      if (i) splitColumn = (long)val(g_fullArg[i + 1]);
+      if (i) {
+        splitColumn = (long)val(g_fullArg[i + 1]);
+        if (splitColumn > 10000) { // A huge one would use up the memory
+          print2("?The START_COLUMN may not be greater than 10000.\n");
+          continue;
+        }
+      }
       i = switchPos("NO_REPEATED_STEPS");
       if (i) skipRepeatedSteps = 1;
 
-- 
2.43.0


From a66fbfa3231bbc957f704af22aa6140574d711ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:45 +0000
Subject: [PATCH 100/118] fix: WRITE BIBLIOGRAPHY shows pages that are not
 numbers of up to four digits

---
 src/mmwtex.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 85b7d53..3e10b18 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5279,23 +5279,23 @@ flag writeBibliography(vstring bibFile,
         } // if (k == 0)
       } // next j
 
-      // Put spaces before page #s (up to 4 digits) for sorting
+      // Put spaces before page #s (up to 4 characters) for sorting
       j = 0;
       while (1) {
         j = instr(j + 1, str1, " p. "); // Heuristic - match " p. "
         if (!j) break;
-        if (j) {
-          for (k = j + 4; k <= (signed)(strlen(str1)) + 1; k++) {
-            if (!isdigit((unsigned char)(str1[k - 1]))) {
-              let(&str1, cat(left(str1, j + 2),
-                  space(4 - (k - (j + 4))), right(str1, j + 3), NULL));
-              // Add ### after page number as marker
-              let(&str1, cat(left(str1, j + 7), "###", right(str1, j + 8),
-                  NULL));
-              break;
-            }
-          }
-        }
+        // The page after a reference may be any alphanumeric string e.g. a
+        // Roman numeral
+        k = j + 4;
+        while (isdigit((unsigned char)(str1[k - 1]))
+            || (j > 1 && str1[j - 2] == ']'
+                && isalnum((unsigned char)(str1[k - 1])))) k++;
+        if (k == j + 4) continue; // No page number
+        m = 4 - (k - (j + 4));
+        if (m < 0) m = 0;
+        // Add ### after page number as marker
+        let(&str1, cat(left(str1, j + 2), space(m), seg(str1, j + 3, k - 1),
+            "###", right(str1, k), NULL));
       }
       // Process any bibliographic references in comment
       j = 0;
-- 
2.43.0


From 5c8f5023b61a049bfead9faa824551069faf4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:45 +0000
Subject: [PATCH 101/118] fix: WRITE BIBLIOGRAPHY does not take the inside of a
 word for a keyword

---
 src/mmwtex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 3e10b18..5d43349 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5332,6 +5332,9 @@ flag writeBibliography(vstring bibFile,
         // (The string search below is rather inefficient; maybe improve
         // the algorithm if speed becomes a problem.)
         for (k = j - 1; k >= 1; k--) {
+          // The keyword may not start inside of a word
+          // (e.g. "Section" in "Subsection").
+          if (k > 1 && isalnum((unsigned char)(str2[k - 2]))) continue;
           // **IMPORTANT** Make sure to update mmhlpa.c HELP WRITE BIBLIOGRAPHY
           // if new items are added to this list.
           if (0
-- 
2.43.0


From d98a16f28bebd0d518b5df7ff11ef4edf694abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:45 +0000
Subject: [PATCH 102/118] fix: WRITE BIBLIOGRAPHY does not mix up the keyword
 or page of two references

---
 src/mmwtex.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 5d43349..6afb53d 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -5300,6 +5300,7 @@ flag writeBibliography(vstring bibFile,
       // Process any bibliographic references in comment
       j = 0;
       n = 0;
+      q = 0; // End of previous reference
       while (1) {
         j = instr(j + 1, str1, "["); // Find reference (not robust)
         if (!j) break;
@@ -5325,13 +5326,16 @@ flag writeBibliography(vstring bibFile,
         }
         if (!isalnum((unsigned char)(str1[j]))) continue; // Not start of reference
         n++;
-        // Backtrack from [reference] to a starting keyword
+        // Backtrack from [reference] to a starting keyword (which must not
+        // be the one of the previous reference)
         m = 0;
+        p = q; // End of previous reference
+        q = jend;
         let(&str2, edit(str1, 32)); // to uppercase
 
         // (The string search below is rather inefficient; maybe improve
         // the algorithm if speed becomes a problem.)
-        for (k = j - 1; k >= 1; k--) {
+        for (k = j - 1; k > p; k--) {
           // The keyword may not start inside of a word
           // (e.g. "Section" in "Subsection").
           if (k > 1 && isalnum((unsigned char)(str2[k - 2]))) continue;
@@ -5402,18 +5406,10 @@ flag writeBibliography(vstring bibFile,
           continue; // Not a bib ref - ignore
         }
         // m is at the start of a keyword
-        p = instr(m, str1, "["); // Start of bibliography reference
-        q = instr(p, str1, "]"); // End of bibliography reference
-        if (q == 0) {
-          if (p2 == 1) {
-            print2("?Warning: Bibliography reference not found in HTML file in \"%s\".\n",
-              g_Statement[i].labelName);
-            warnFlag = 1;
-          }
-          continue; // Pretend it is not a bib ref - ignore
-        }
+        p = j; // Start of bibliography reference (whose end is at q)
         s = instr(q, str1, "###"); // Page number marker
-        if (!s) {
+        k = instr(q, str1, "["); // The page number must be before the next one
+        if (!s || (k && k < s)) {
           if (p2 == 1) {
             print2("?Warning: No page number after [<author>] bib ref in \"%s\".\n",
               g_Statement[i].labelName);
-- 
2.43.0


From 8789d6c2fd7cf351c173d440ba142344a6956f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:43 +0000
Subject: [PATCH 103/118] fix: the brief lists link to the page of the theorem
 list that has the statement

---
 src/metamath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 5ad596b..97599b8 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2878,7 +2878,8 @@ void command(int argc, char *argv[]) {
                       "<FONT COLOR=ORANGE>",
                       str((double)(g_Statement[i].pinkNumber)), "</FONT> ",
                       "<FONT COLOR=GREEN><A HREF=\"",
-                      "mmtheorems", (k == 1) ? "" : str((double)k), ".html#",
+                      // (mmtheorems.html is the table of contents)
+                      "mmtheorems", str((double)k), ".html#",
                       g_Statement[i].labelName,
                       "\">", g_Statement[i].labelName,
                       "</A></FONT>", NULL));
-- 
2.43.0


From be5a8d35a883fd3709816d10922724e8b7f06143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:43 +0000
Subject: [PATCH 104/118] fix: the list of theorems shows descriptions with <
 and > in them

---
 src/metamath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 97599b8..7d1b492 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2913,7 +2913,8 @@ void command(int argc, char *argv[]) {
                   str1 = getDescription(i);
                   if (strlen(str1) > 29)
                     let(&str1, cat(left(str1, 26), "...", NULL));
-                  let(&str1, cat(str1, "</TD></TR>", NULL));
+                  // asciiToTt_temp() is where "<" is converted to "&lt;" etc.
+                  let(&str1, cat(asciiToTt_temp(str1), "</TD></TR>", NULL));
                   printLongLine(str1, "", "\"");
                 }
                 // Close out the string now to prevent overflow
-- 
2.43.0


From 3da8dd4e3ac8bfc91054d9e7992c2d9a8fe78a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:24 +0000
Subject: [PATCH 105/118] fix: the lists of theorems and definitions name the
 user mathboxes when there is no extended database

---
 src/metamath.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 7d1b492..941531c 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2788,7 +2788,8 @@ void command(int argc, char *argv[]) {
               // Print a row that identifies the start of the extended
               // database (e.g. Hilbert Space Explorer) or the user
               // sandboxes.
-              if (i == g_extHtmlStmt) {
+              // (Without an extended database, g_extHtmlStmt = g_mathboxStmt)
+              if (i != g_mathboxStmt) {
                 let(&bgcolor, PURPLISH_BIBLIO_COLOR);
               } else {
                 let(&bgcolor, SANDBOX_COLOR);
@@ -2797,7 +2798,7 @@ void command(int argc, char *argv[]) {
                   "><TD COLSPAN=2 ALIGN=CENTER><A NAME=\"startext\"></A>",
                   "The list of syntax, axioms (ax-) and definitions (df-) for",
                   " the <B><FONT COLOR=", GREEN_TITLE_COLOR, ">",
-                  (i == g_extHtmlStmt) ?
+                  (i != g_mathboxStmt) ?
                     g_extHtmlTitle :
                     "User Mathboxes",
                   "</FONT></B> starts here</TD></TR>", NULL), "", "\"");
-- 
2.43.0


From 6c71f4888da4b9270d5901dd9a1286fda4e53589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:06 +0000
Subject: [PATCH 106/118] fix: WRITE THEOREM_LIST does not crash when the
 extended part starts with a hypothesis

---
 src/mmwtex.c | 53 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 6afb53d..4ef6aee 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -3229,6 +3229,8 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
   vstring_def(hdrCommentAnchor);
   flag hdrCommentAnchorDone = 0;
 
+  long extAssertion; // First assertion of the extended section
+
   // Populate the statement map.
   // ? ? ? Future:  is assertions same as g_Statement[g_statements].pinkNumber?
   nmbrLet(&nmbrStmtNmbr, nmbrSpace(g_statements + 1));
@@ -3788,13 +3790,22 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
       print2("ALT=\"Metamath Proof Explorer\" HEIGHT=32 WIDTH=32\n");
       print2("ALIGN=MIDDLE> &nbsp;Metamath Proof Explorer</A>\n");
 
-      free_vstring(str3);
-      if (g_Statement[g_extHtmlStmt].pinkNumber <= 0) bug(2332);
-      str3 = pinkRangeHTML(nmbrStmtNmbr[1],
-          nmbrStmtNmbr[g_Statement[g_extHtmlStmt].pinkNumber - 1]);
-      printLongLine(cat("<BR>(", str3, ")", NULL),
-        " ", // Start continuation line with space
-        "\""); // Don't break inside quotes e.g. "Arial Narrow"
+      // Find the first assertions of the extended section and of the
+      // mathboxes (the sections may start with a hypothesis)
+      for (extAssertion = 1; extAssertion <= assertions; extAssertion++) {
+        if (nmbrStmtNmbr[extAssertion] >= g_extHtmlStmt) break;
+      }
+      for (i = extAssertion; i <= assertions; i++) {
+        if (nmbrStmtNmbr[i] >= g_mathboxStmt) break;
+      }
+
+      if (extAssertion > 1) {
+        free_vstring(str3);
+        str3 = pinkRangeHTML(nmbrStmtNmbr[1], nmbrStmtNmbr[extAssertion - 1]);
+        printLongLine(cat("<BR>(", str3, ")", NULL),
+          " ", // Start continuation line with space
+          "\""); // Don't break inside quotes e.g. "Arial Narrow"
+      }
 
       print2("</TD>\n");
       print2("\n");
@@ -3808,17 +3819,13 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
  "BORDER=0 ALT=\"Hilbert Space Explorer\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
       print2("&nbsp;Hilbert Space Explorer</A>\n");
 
-      free_vstring(str3);
-      if (g_mathboxStmt > g_statements) { // There are no mathboxes
-        i = assertions;
-      } else {
-        i = g_Statement[g_mathboxStmt].pinkNumber - 1;
+      if (i > extAssertion) {
+        free_vstring(str3);
+        str3 = pinkRangeHTML(nmbrStmtNmbr[extAssertion], nmbrStmtNmbr[i - 1]);
+        printLongLine(cat("<BR>(", str3, ")", NULL),
+          " ", // Start continuation line with space
+          "\""); // Don't break inside quotes e.g. "Arial Narrow"
       }
-      if (i < 0) bug(2333);
-      str3 = pinkRangeHTML(g_extHtmlStmt, nmbrStmtNmbr[i]);
-      printLongLine(cat("<BR>(", str3, ")", NULL),
-        " ", // Start continuation line with space
-        "\""); // Don't break inside quotes e.g. "Arial Narrow"
 
       print2("</TD>\n");
       print2("\n");
@@ -3832,11 +3839,13 @@ void writeTheoremList(long theoremsPerPage, flag showLemmas, flag noVersioning)
         print2("BORDER=0 ALT=\"Users' Mathboxes\" HEIGHT=32 WIDTH=32 ALIGN=MIDDLE>\n");
         print2("&nbsp;Users' Mathboxes</A>\n");
 
-        free_vstring(str3);
-        str3 = pinkRangeHTML(g_mathboxStmt, nmbrStmtNmbr[assertions]);
-        printLongLine(cat("<BR>(", str3, ")", NULL),
-          " ", // Start continuation line with space
-          "\""); // Don't break inside quotes e.g. "Arial Narrow"
+        if (i <= assertions) {
+          free_vstring(str3);
+          str3 = pinkRangeHTML(nmbrStmtNmbr[i], nmbrStmtNmbr[assertions]);
+          printLongLine(cat("<BR>(", str3, ")", NULL),
+            " ", // Start continuation line with space
+            "\""); // Don't break inside quotes e.g. "Arial Narrow"
+        }
 
         print2("</TD>\n");
         print2("\n");
-- 
2.43.0


From d4f49e56e37e02607c4a4a44701665eaaba2411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:44 +0000
Subject: [PATCH 107/118] fix: SHOW STATEMENT / HTML looks up the wff symbol
 again after ERASE and READ

---
 src/mmcmds.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 0ebe8da..c77cc99 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -74,9 +74,9 @@ void typeStatement(long showStmt,
 
   // For syntax breakdown of definitions in HTML page
   long zapStatement1stToken;
-  // Array index of the hard-coded token "wff" - static so we only
-  // have to look it up once - set to -2 if not found.
-  static long wffToken = -1;
+  // Array index of the hard-coded token "wff" - looked up each time,
+  // since ERASE and READ can change it - set to -2 if not found.
+  long wffToken = -1;
   subType = 0; // Assign to prevent compiler warnings - not theoretically necessary
 
   if (!showStmt) bug(225); // Must be 1 or greater
@@ -1973,9 +1973,9 @@ void typeProof(long statemNum,
       // list in the HTML pages, parse the wffs comprising the hypotheses
       // and the statement, and add their syntax to the hints list.
 
-      // Array index of the hard-coded token "wff" - static so we only have
-      // to look it up once - set to -2 if not found.
-      static long wffToken = -1;
+      // Array index of the hard-coded token "wff" - looked up each time,
+      // since ERASE and READ can change it - set to -2 if not found.
+      long wffToken = -1;
       // Look up the token "wff" (hard-coded) if we haven't found it before
       if (wffToken == -1) { // First time
         // In case it's not found because the user's source used a convention
-- 
2.43.0


From 8f524e404f704f3890c86b536ae93fb97e762f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:46 +0000
Subject: [PATCH 108/118] fix: the Henty filter drops every unification that
 only renames the temporary variables of another one

---
 src/mmunif.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmunif.c b/src/mmunif.c
index a622719..50dd94a 100644
--- a/src/mmunif.c
+++ b/src/mmunif.c
@@ -1537,8 +1537,8 @@ void hentyNormalize(nmbrString **hentyVars, nmbrString **hentyVarStart,
           (*hentyVars)[i] = var2;
           schLen = nmbrLen(*hentySubstList);
           for (j = 0; j < schLen; j++) {
-            if ((*hentySubstList)[(*hentyVarStart)[i]] == var2) {
-              (*hentySubstList)[(*hentyVarStart)[i]] = var1;
+            if ((*hentySubstList)[j] == var2) {
+              (*hentySubstList)[j] = var1;
             }
           } // Next j
         } // End if (var1 > var2)
-- 
2.43.0


From 576baaa752c30e26ff34237cb85072b156b3bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 109/118] fix: MATCH can assign a statement whose unification
 timed out

---
 src/mmpfas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index f318676..6f3fb6d 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -211,7 +211,7 @@ void interactiveMatch(long step, long maxEssential)
   } // End if matchCount == 1
 
   // Add to statement to the proof
-  assignStatement(matchList[matchListPos], step);
+  assignStatement(stmt, step);
   g_proofChangedFlag = 1; // Flag for 'undo' stack
 
   free_vstring(tmpStr1);
-- 
2.43.0


From abfe9bea46d6a8d2f3950e5f57a2647a067411f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:51 +0000
Subject: [PATCH 110/118] fix: LaTeX output keeps the labels and hyperlinks of
 comments

---
 src/mmwtex.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 4ef6aee..be1470a 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1915,6 +1915,17 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
       // (imperfect - only works if `...` is not split across lines?).
       if (cmt[pos1 - 1] == '`') tmpMathMode = (flag)(1 - tmpMathMode);
       if (tmpMathMode) continue;
+      if (cmt[pos1 - 1] == '~') {
+        if (cmt[pos1] == '~') { // Skip ~~ escape
+          pos1++;
+          continue;
+        }
+        // Don't modify a label or hyperlink
+        while (isspace((unsigned char)(cmt[pos1]))) pos1++;
+        while (cmt[pos1] != 0 && cmt[pos1] != '<' && cmt[pos1] != '`'
+            && !isspace((unsigned char)(cmt[pos1]))) pos1++;
+        continue;
+      }
       if (pos1 > 1) {
         if (cmt[pos1 - 1] == '_' && cmt[pos1 - 2] == '$') {
           // The _ is part of "$_{...}$" earlier conversion
@@ -2580,23 +2591,18 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
                   "\">", tmpStr, "</A>", tmp, NULL));
             } else {
 
-              // Generate LaTeX version of the URL
-              i = instr(1, tmpStr, "\\char`\\~");
-              // The url{} function automatically converts ~ to LaTeX
-              if (i != 0) {
-                let(&tmpStr, cat(left(tmpStr, i - 1), right(tmpStr, i + 7),
-                    NULL));
-              }
-              let(&outputLine, cat(outputLine, "\\url{", tmpStr,
+              // Generate LaTeX version of the URL.  The url{} function
+              // automatically converts the special characters to LaTeX.
+              let(&outputLine, cat(outputLine, "\\url{", modeSection,
                   "}", tmp, NULL));
             }
           } else {
             // Do binary search through just $a's and $p's (there
             // are no html pages for local labels).
-            i = lookupLabel(tmpStr);
+            i = lookupLabel(modeSection);
             if (i < 0) {
               g_outputToString = 0;
-              printLongLine(cat("?Warning: The label token \"", tmpStr,
+              printLongLine(cat("?Warning: The label token \"", modeSection,
                   "\" (referenced in comment of statement \"",
                   g_Statement[g_showStatement].labelName,
                   "\") is not a $a or $p statement label.", NULL), "", " ");
-- 
2.43.0


From 4eadc16629b56c52dff336b695bb17034d191b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:06 +0000
Subject: [PATCH 111/118] fix: LaTeX output keeps the double quotes in the math
 symbols of comments

---
 src/mmwtex.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index be1470a..ab4f32f 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1874,6 +1874,24 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
         }
       }
     } // while (1)
+  } else { // LaTeX
+    // Replace math symbols with spaces in cmtMasked (as above) so that the
+    // sections below won't confuse them with text.
+    tmpMathMode = 0;
+    for (i = 0; cmtMasked[i] != 0; i++) {
+      if (cmtMasked[i] == '`') {
+        if (cmtMasked[i + 1] != '`') {
+          tmpMathMode = (flag)(1 - tmpMathMode);
+          continue;
+        }
+        if (!tmpMathMode) { // Skip `` escape
+          i++;
+          continue;
+        }
+        cmtMasked[i + 1] = ' ';
+      }
+      if (tmpMathMode) cmtMasked[i] = ' ';
+    }
   } // if g_htmlFlag
 
   // Handle dollar signs in comments converted to LaTeX.
-- 
2.43.0


From 63ce369a323708956b18eef58a3414565e8a5399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:52 +0000
Subject: [PATCH 112/118] fix: IMPROVE of an incomplete subproof reports the
 true length and step numbers

---
 src/metamath.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 941531c..3f4a648 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4859,22 +4859,24 @@ void command(int argc, char *argv[]) {
         if (q > 1) deleteSubProof(s - 1);
         addSubProof(nmbrTmpPtr, s - q);
         assignKnownSteps(s - q, nmbrLen(nmbrTmpPtr));
+        // (q is not 1 if an incomplete subproof was replaced.)
+        k = nmbrLen(nmbrTmpPtr); // Length of the new subproof
         free_nmbrString(nmbrTmpPtr);
 
         n = nmbrLen(g_ProofInProgress.proof); // New proof length
         if (m == n) {
-          print2("A 1-step proof was found for step %ld.\n", s);
+          print2("A %ld-step proof was found for step %ld.\n", k, s);
         } else {
-          if (s != m || q != 1) {
-            printLongLine(cat("A ", str((double)(n - m + 1)),
+          if (s != m) {
+            printLongLine(cat("A ", str((double)k),
                 "-step proof was found for step ", str((double)s),
                 ".  Steps ", str((double)s), ":",
-                str((double)m), " are now ", str((double)(s - q + 1 - m + n)),
+                str((double)m), " are now ", str((double)(s - m + n)),
                 ":", str((double)n), ".",
                 NULL),
                 "", " ");
           } else {
-            printLongLine(cat("A ", str((double)(n - m + 1)),
+            printLongLine(cat("A ", str((double)k),
                 "-step proof was found for step ", str((double)s),
                 ".  Step ", str((double)m), " is now step ", str((double)n), ".",
                 NULL),
-- 
2.43.0


From bb351a2fb41ece587016cf2632bb58cece96ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:59 +0000
Subject: [PATCH 113/118] fix: IMPROVE ALL names the first renumbered step, if
 there is one

---
 src/metamath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 3f4a648..5d1745d 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5006,7 +5006,8 @@ void command(int argc, char *argv[]) {
             print2("A proof of length %ld was found for step %ld.\n",
                 nmbrLen(nmbrTmpPtr), s);
             // Save earliest step changed
-            if (nmbrLen(nmbrTmpPtr) || q != 1) n = s - q + 1;            
+            if ((nmbrLen(nmbrTmpPtr) != 1 || q != 1)
+                && (n == 0 || n > s - q + 1)) n = s - q + 1;
             free_nmbrString(nmbrTmpPtr);
             g_proofChangedFlag = 1;
             s = s - q + 1; // Adjust step position to account for deleted subpr
-- 
2.43.0


From 4a200e61d7b55cd757ba8a674235064ad9b8318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:14 +0000
Subject: [PATCH 114/118] fix: IMPROVE ALL without / SUBPROOFS never replaces
 known steps in its last pass

---
 src/metamath.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 5d1745d..74d4042 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4938,7 +4938,8 @@ void command(int argc, char *argv[]) {
 
             // I think this is really too conservative, even
             // with the old algorithm, but keep it to imitate the old one.
-            if (improveAllIter == 1 || searchAlg == 1) {
+            if (improveAllIter == 1 || searchAlg == 1
+                || (improveAllIter == 4 && !searchUnkSubproofs)) {
               // If the step is known and unified, don't do it, since nothing
               // would be accomplished.
               if (!proofStepUnk) {
-- 
2.43.0


From 7c8247aa89133bb38d75621ce2bad3a7ae14789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:37 +0000
Subject: [PATCH 115/118] fix: REPLACE tells from the hypothesis itself whether
 it has working variables

---
 src/mmpfas.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 6f3fb6d..64e8bf0 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -570,6 +570,18 @@ nmbrString *replaceStatement(long replStatemNum, long prfStep,
         hypMakeSubstList[hypSortMap[hyp]] = makeSubstPtr;
       }
 
+      // The flags from makeSubstUnif don't tell whether dummy vars were
+      // substituted in, so check the resulting hypothesis itself.
+      dummyVarFlag = 0;
+      hypLen = nmbrLen(hypMakeSubstList[hypSortMap[hyp]]);
+      for (sym = 0; sym < hypLen; sym++) {
+        k = ((nmbrString *)(hypMakeSubstList[hypSortMap[hyp]]))[sym];
+        if (k > g_mathTokens /* global */) {
+          dummyVarFlag = 1;
+          break;
+        }
+      }
+
       if (hyp < schEHyps) {
         // It's a $e hypothesis
         if (g_Statement[g_Statement[replStatemNum].reqHypList[hypSortMap[hyp]]
-- 
2.43.0


From 87de5a398f2d00a7bfb048b73603f3a8fb0042b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:57 +0000
Subject: [PATCH 116/118] fix: DELETE FLOATING_HYPOTHESES names the first
 renumbered step, if there is one

---
 src/metamath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index 74d4042..e6a1b6b 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5746,7 +5746,7 @@ void command(int argc, char *argv[]) {
 
         deleteSubProof(s - 1);
 
-        n = s - q + 1; // Save earliest step changed
+        if (q > 1) n = s - q + 1; // Save earliest step changed
         g_proofChangedFlag = 1;
         s = s - q + 1; // Adjust step position to account for deleted subpr
       } // Next step s
-- 
2.43.0


From fbb609534b8b1f3d255e3fb423de833ef2d623fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:08 +0000
Subject: [PATCH 117/118] fix: INITIALIZE ALL must not reuse the working
 variables of LET STEP formulas

---
 src/metamath.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index e6a1b6b..18f26b2 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5790,8 +5790,15 @@ void command(int argc, char *argv[]) {
       if (cmdMatches("INITIALIZE ALL")) {
         i = nmbrLen(g_ProofInProgress.proof);
 
-        // Reset the dummy variable counter (all will be refreshed)
+        // Reset the dummy variable counter (all will be refreshed, except
+        // those in LET STEP assignments, which must not be used again)
         g_pipDummyVars = 0;
+        for (j = 0; j < i; j++) {
+          for (k = 0; k < nmbrLen((g_ProofInProgress.user)[j]); k++) {
+            n = ((nmbrString *)((g_ProofInProgress.user)[j]))[k] - g_mathTokens;
+            if (n > g_pipDummyVars) g_pipDummyVars = n;
+          }
+        }
 
         // Initialize all steps
         for (j = 0; j < i; j++) {
-- 
2.43.0


From f23ac738815c81f2816e8a4e9b000d1ba223f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:21 +0000
Subject: [PATCH 118/118] fix: MATCH ALL names the first renumbered step, if
 there is one

---
 src/metamath.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 18f26b2..15bbedd 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4400,15 +4400,13 @@ void command(int argc, char *argv[]) {
             if (!nmbrTmp[s - 1]) continue;
           }
 
+          n = nmbrLen(g_ProofInProgress.proof);
           interactiveMatch(s - 1, maxEssential);
-          if (g_proofChangedFlag) {
-            k = s; // Save earliest step changed
-            g_proofChangedFlag = 0;
-          }
+          // Save earliest step renumbered, if any
+          if (nmbrLen(g_ProofInProgress.proof) != n) k = s;
           print2("\n");
         }
         if (k) {
-          g_proofChangedFlag = 1; // Restore it
           print2("Steps %ld and above have been renumbered.\n", k);
         }
         autoUnify(1);
-- 
2.43.0

