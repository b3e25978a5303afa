From 12a4b9b825d88166e8bb104bdd7424ba5610ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 01/48] fix: translate CRLF line ends that straddle the line
 reader's buffer

If "\r\n" was split across two QFile::readLine calls, the carriage return
stayed in the line and hid a line continuation in front of it.
---
 src/jomlib/makefilelinereader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index ee20d86..cbf90e5 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -127,6 +127,13 @@ MakefileLine MakefileLineReader::readLine_impl_local8bit()
             if (moreBytesRead <= 0)
                 break;
             bytesRead += moreBytesRead;
+            if (moreBytesRead == 1 && m_lineBuffer[bytesRead - 1] == '\n'
+                    && m_lineBuffer[bytesRead - 2] == '\r') {
+                // "\r\n" was split across two reads. QIODevice only translates it to "\n",
+                // if it reads both characters at once.
+                m_lineBuffer[bytesRead - 2] = '\n';
+                --bytesRead;
+            }
         }
 
     } while (m_lineBuffer[0] == '#');
-- 
2.43.0


From 1ed7056150cb04ce2c6e9c0357665bc7a1ec8a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 02/48] fix: read inline files of unicode makefiles through the
 text stream

The text stream has already buffered data from the file. Reading inline file
lines directly from the file skipped the buffered text.
---
 src/jomlib/makefilelinereader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index cbf90e5..a1bad65 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -92,6 +92,13 @@ MakefileLine MakefileLineReader::readLine(bool bInlineFileMode)
 {
     if (bInlineFileMode) {
         m_nLineNumber++;
+        if (m_readLineImpl == &NMakeFile::MakefileLineReader::readLine_impl_unicode) {
+            // The text stream buffers. We must not bypass it by reading from the file directly.
+            QString str = m_textStream.readLine();
+            if (!str.isNull())
+                str += QLatin1Char('\n');
+            return MakefileLine{ str };
+        }
         return MakefileLine{ QString::fromLatin1(m_file.readLine()) };
     }
 
-- 
2.43.0


From 5a776a40c778c73c783398b086c7a77d1ec78416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 03/48] fix: recognize a comment that directly follows an
 escaped hash

removeInlineComments continued its search one character too far after the
removal of the escape character.
---
 src/jomlib/preprocessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b0e001c..f20df78 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -503,7 +503,8 @@ void Preprocessor::removeInlineComments(QString& line)
     while (true) {
         idx = line.indexOf(QLatin1Char('#'), idx + 1);
         if (idx > 0 && line.at(idx - 1) == QLatin1Char('^')) {
-            line.remove(idx - 1, 1);
+            --idx;  // the # character moves to the place of the ^ character
+            line.remove(idx, 1);
             continue;
         }
         break;
-- 
2.43.0


From 41fa03ba3e67b16eab0600a5ef7d939e8465b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:53 +0000
Subject: [PATCH 04/48] fix: remove the escape character of ^# in every
 dependency line

It was kept if the line contained no comment or a command separator.
---
 src/jomlib/parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8862405..3dcdcb4 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -205,18 +205,23 @@ static int removeCommentsAndFindCommandSeparator(QString& line)
         cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
     } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
 
-    if (commentIdx == cmdSepIdx)  // equality means, they are both -1
-        return -1;
-
-    if ((0 <= commentIdx && commentIdx < cmdSepIdx) || cmdSepIdx == -1) {
+    if (commentIdx >= 0 && (commentIdx < cmdSepIdx || cmdSepIdx == -1)) {
         // The # indicates a comment.
         line.truncate(commentIdx);
-        for (int i=toRemove.count() - 1; i >= 0; i--)
-            line.remove(toRemove.at(i), 1);
         cmdSepIdx = -1;
     } else {
         // The # is inside the command and not a comment.
     }
+
+    // Remove the escape characters. A ^# inside the command is left alone.
+    for (int i=toRemove.count() - 1; i >= 0; i--) {
+        if (cmdSepIdx >= 0) {
+            if (toRemove.at(i) > cmdSepIdx)
+                continue;
+            --cmdSepIdx;
+        }
+        line.remove(toRemove.at(i), 1);
+    }
     return cmdSepIdx;
 }
 
-- 
2.43.0


From 86318c691d7be160c06ac0b5c181631fca18cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:07 +0000
Subject: [PATCH 05/48] fix: ignore comments in dot directives and after
 inference rule heads

The comment was removed after the line had been matched, so it became part
of the directive's value, and a commented inference rule was not recognized.
---
 src/jomlib/parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 3dcdcb4..910dd12 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -84,15 +84,14 @@ void Parser::apply(Preprocessor* pp,
         readLine();
         while (!m_line.isNull()) {
             QString expandedLine = m_preprocessor->macroTable()->expandMacros(m_line);
+            Preprocessor::removeInlineComments(expandedLine);
             if (isEmptyLine(expandedLine)) {
                 readLine();
             } else if (isDotDirective(expandedLine)) {
                 m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
                 parseDotDirective();
             } else if (isInferenceRule(expandedLine)) {
                 m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
                 parseInferenceRule();
             } else if (isDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos)) {
                 parseDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos);
-- 
2.43.0


From edd1ea814a52117aba5a23a3c116e696b9cf7547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 06/48] fix: accept a comment directly after the name of a
 preprocessing directive

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index f20df78..7d63711 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -40,7 +40,7 @@ Preprocessor::Preprocessor()
     m_expressionParser(0),
     m_bInlineFileMode(false)
 {
-    m_rexPreprocessingDirective.setPattern(QLatin1String("^!\\s*(\\S+)(.*)"));
+    m_rexPreprocessingDirective.setPattern(QLatin1String("^!\\s*([^\\s#]+)(.*)"));
 }
 
 Preprocessor::~Preprocessor()
-- 
2.43.0


From e63078daec2231166cbff7efd0e953efa2830e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 07/48] fix: remove escape characters on the left side of a
 macro substitution

They were counted from the equals sign, so a character of the right side was
removed instead.
---
 src/jomlib/macrotable.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index ff4d3f6..68fbac5 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -413,8 +413,13 @@ MacroTable::Substitution MacroTable::parseSubstitutionStatement(const QString &s
     Substitution result;
     result.before = str.mid(substitutionStartIdx, equalsSignIdx - substitutionStartIdx);
     result.after = str.mid(equalsSignIdx + 1, macroInvokationEndIdx - equalsSignIdx - 1);
-    for (int i=quotePositions.count() - 1; i >= 0; --i)
-        result.after.remove(quotePositions.at(i) - equalsSignIdx - 1, 1);
+    for (int i=quotePositions.count() - 1; i >= 0; --i) {
+        const int quotePosition = quotePositions.at(i);
+        if (quotePosition > equalsSignIdx)
+            result.after.remove(quotePosition - equalsSignIdx - 1, 1);
+        else
+            result.before.remove(quotePosition - substitutionStartIdx, 1);
+    }
     return result;
 }
 
-- 
2.43.0


From 5a0ef7693ea7d55383d587150529f7cacbf9f6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 08/48] fix: pass environment variables redefined in the
 makefile to commands

The source of the macro was overwritten before it was checked, so that the
environment never got the new value.
---
 src/jomlib/macrotable.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 68fbac5..0e83d89 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -136,9 +136,14 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
         throw Exception(msg.arg(name));
     }
 
+    if (source == MacroSource::MakeFile && macroData->source == MacroSource::Environment) {
+        // A redefined environment variable stays an environment variable.
+        if (!macroData->isReadOnly)
+            setEnvironmentVariable(expandMacros(name), expandMacros(macroData->value));
+        return;
+    }
+
     macroData->source = source;
-    if (macroData->source == MacroSource::Environment)
-        setEnvironmentVariable(name, expandMacros(macroData->value));
 }
 
 void MacroTable::predefineValue(const QString &name, const QString &value)
-- 
2.43.0


From 172237fb9121bc55c0bf207ea5e082bd8b52fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:28 +0000
Subject: [PATCH 09/48] fix: do not require valid macro invocations in inactive
 conditional branches

Also put the line of the next branch back unexpanded, it was expanded twice.
---
 src/jomlib/preprocessor.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 7d63711..e3aafa3 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -252,6 +252,9 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     if (!isPreprocessingDirective(expandedLine, directive, value))
         return false;
 
+    value = m_macroTable->expandMacros(value);
+    removeInlineComments(value);
+
     if (directive == QLatin1String("CMDSWITCHES")) {
     } else if (directive == QLatin1String("ERROR")) {
         error(QLatin1Literal("ERROR: ") + value);
@@ -405,8 +408,6 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
         }
     }
 
-    value = m_macroTable->expandMacros(value);
-    removeInlineComments(value);
     return result;
 }
 
@@ -426,7 +427,12 @@ void Preprocessor::skipUntilNextMatchingConditional()
         if (line.content.startsWith(QLatin1Char('!')))
             completePreprocessingDirectiveLine(line);
 
-        QString expandedLine = m_macroTable->expandMacros(line.content);
+        QString expandedLine = line.content;
+        try {
+            expandedLine = m_macroTable->expandMacros(line.content);
+        } catch (const Exception &) {
+            // Lines in inactive branches do not have to be valid.
+        }
         if (!isPreprocessingDirective(expandedLine, directive, value))
             continue;
 
@@ -444,7 +450,7 @@ void Preprocessor::skipUntilNextMatchingConditional()
 
         if (depth == 0) {
             if (token == TOK_ELSE) {
-                m_linesPutBack.append(expandedLine);
+                m_linesPutBack.append(line.content);
                 return;  // found the next matching ELSE
             }
             if (token == TOK_ENDIF) {
-- 
2.43.0


From 77e2942115233bc34c3bea4b69f21c50bf906b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 10/48] fix: reject !ELSE directives after the !ELSE of a
 conditional

The branch of a second !ELSE was read in addition to the active one.
---
 src/jomlib/preprocessor.cpp | 12 ++++++++----
 src/jomlib/preprocessor.h   |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index e3aafa3..96312d7 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -58,6 +58,7 @@ void Preprocessor::setMacroTable(MacroTable* macroTable)
 bool Preprocessor::openFile(const QString& fileName)
 {
     m_conditionalStack.clear();
+    m_elseSeenStack.clear();
     if (!m_fileStack.isEmpty())
         m_fileStack.clear();
 
@@ -281,13 +282,14 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("ELSE")) {
-        if (conditionalDepth() == 0)
+        if (!isElseAllowed())
             error(QLatin1String("unexpected ELSE"));
+        m_elseSeenStack.top() = true;
         if (!m_conditionalStack.top()) {
             skipUntilNextMatchingConditional();
         }
     } else if (directive == QLatin1String("ELSEIF")) {
-        if (conditionalDepth() == 0)
+        if (!isElseAllowed())
             error(QLatin1String("unexpected ELSE"));
         if (!m_conditionalStack.top() || evaluateExpression(value) == 0) {
             skipUntilNextMatchingConditional();
@@ -296,7 +298,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             m_conditionalStack.push(false);
         }
     } else if (directive == QLatin1String("ELSEIFDEF")) {
-        if (conditionalDepth() == 0)
+        if (!isElseAllowed())
             error(QLatin1String("unexpected ELSE"));
         if (!m_conditionalStack.top() || !m_macroTable->isMacroDefined(value)) {
             skipUntilNextMatchingConditional();
@@ -305,7 +307,7 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
             m_conditionalStack.push(false);
         }
     } else if (directive == QLatin1String("ELSEIFNDEF")) {
-        if (conditionalDepth() == 0)
+        if (!isElseAllowed())
             error(QLatin1String("unexpected ELSE"));
         if (!m_conditionalStack.top() || m_macroTable->isMacroDefined(value)) {
             skipUntilNextMatchingConditional();
@@ -470,6 +472,7 @@ void Preprocessor::skipUntilNextMatchingConditional()
 void Preprocessor::enterConditional(bool followElseBranch)
 {
     m_conditionalStack.push(followElseBranch);
+    m_elseSeenStack.push(false);
 }
 
 void Preprocessor::exitConditional()
@@ -477,6 +480,7 @@ void Preprocessor::exitConditional()
     if (m_conditionalStack.isEmpty())
         error(QLatin1String("unexpected ENDIF"));
     m_conditionalStack.pop();
+    m_elseSeenStack.pop();
 }
 
 int Preprocessor::evaluateExpression(const QString& expr)
diff --git a/src/jomlib/preprocessor.h b/src/jomlib/preprocessor.h
index b268c72..ef0d46f 100644
--- a/src/jomlib/preprocessor.h
+++ b/src/jomlib/preprocessor.h
@@ -75,6 +75,7 @@ private:
     void enterConditional(bool followElseBranch);
     void exitConditional();
     int conditionalDepth() { return m_conditionalStack.count(); }
+    bool isElseAllowed() { return !m_elseSeenStack.isEmpty() && !m_elseSeenStack.top(); }
 
 private:
     struct TextFile
@@ -102,6 +103,7 @@ private:
     MacroTable*         m_macroTable;
     QRegExp             m_rexPreprocessingDirective;
     QStack<bool>        m_conditionalStack;
+    QStack<bool>        m_elseSeenStack;
     PPExprParser*       m_expressionParser;
     QStringList         m_linesPutBack;
     bool                m_bInlineFileMode;
-- 
2.43.0


From 1c44ead341d90fb93173394e188499b824533d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 11/48] fix: do not crash on remainder by zero and overflowing
 division in expressions

---
 src/jomlib/ppexpr.g         | 16 +++++++++++++---
 src/jomlib/ppexprparser.cpp | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index f826008..353fc13 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -373,16 +373,26 @@ term5       ::= term5 DIV term6;
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        if (rhs == -1)    // the quotient of INT_MIN and -1 would overflow
+            sym(1).num = int(0 - unsigned(sym(1).num));
+        else
+            sym(1).num /= rhs;
         break;
     }
 ./
 
 term5       ::= term5 MOD term6;
 /.
-    case $rule_number: // $rule
-        sym(1).num %= sym(3).num;
+    case $rule_number: { // $rule
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 ./
 
 term6 ::= primary;
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 7af643b..bb0f78a 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -211,13 +211,23 @@ bool PPExprParser::parse(const char* str)
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        if (rhs == -1)    // the quotient of INT_MIN and -1 would overflow
+            sym(1).num = int(0 - unsigned(sym(1).num));
+        else
+            sym(1).num /= rhs;
         break;
     }
 
-    case 26: // term5
-        sym(1).num %= sym(3).num;
+    case 26: { // term5
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        sym(1).num = (rhs == -1) ? 0 : sym(1).num % rhs;
         break;
+    }
 
     case 28: // term6
         sym(1).num = -sym(2).num;
-- 
2.43.0


From 7603be6279d4218e963f8bdac346926b542e0c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 12/48] fix: reject malformed expressions and end exist() at
 its closing parenthesis

---
 src/jomlib/ppexpr-lex.inc | 241 ++++++++++++++++++--------------------
 src/jomlib/ppexpr.l       |  40 ++++---
 2 files changed, 139 insertions(+), 142 deletions(-)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 5ee300d..48fe4cd 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -358,17 +358,17 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[86] =
+static const flex_int16_t yy_accept[83] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       42,   41,    1,    3,   41,   22,   25,   20,    6,   23,
-       24,   18,   16,   17,   19,    2,   10,   41,   11,   41,
-       41,   26,   41,    7,   21,   34,   36,   41,   29,   41,
-       31,   37,   40,   41,    1,    3,    8,    4,    2,   14,
-       12,    9,   13,   15,    0,    0,    0,    5,   34,   35,
-        0,   29,    0,   31,   37,   38,   39,    0,    0,    0,
-       30,   32,    0,    0,    0,    0,   28,   28,    0,    0,
-        0,   27,    0,   33,    0
+       42,   40,    1,    3,   40,   22,   25,   20,    6,   23,
+       24,   18,   16,   17,   19,    2,   10,   40,   11,   40,
+       40,   26,    7,   21,   33,   41,   35,   29,   40,   31,
+       40,   36,   39,   41,    1,    3,    8,    4,    2,   14,
+       12,    9,   13,   15,    0,    0,    5,   33,   34,   29,
+        0,   31,    0,    0,    0,   32,   36,   37,   38,    0,
+        0,   30,    0,    0,    0,    0,    0,    0,   28,    0,
+       27,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -378,15 +378,15 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    2,    5,    6,    1,    1,    7,    8,    1,    9,
        10,   11,   12,    1,   13,    1,   14,   15,   15,   15,
-       15,   15,   15,   15,   15,   15,   15,   16,    1,   17,
-       18,   19,    1,    1,    1,    1,    1,   20,   21,   22,
-        1,    1,   23,    1,    1,    1,    1,   24,    1,    1,
-        1,    1,   25,   26,    1,    1,    1,   27,    1,    1,
-       28,    1,   29,   30,    1,    1,   16,   16,    1,   31,
-
-       32,   33,    1,    1,   34,    1,   16,   16,    1,   35,
-        1,    1,    1,    1,   36,   37,    1,    1,    1,   38,
-        1,    1,    1,   39,    1,   40,    1,    1,    1,    1,
+       15,   15,   15,   15,   15,   15,   15,    1,    1,   16,
+       17,   18,    1,    1,    1,    1,    1,   19,   20,   21,
+        1,    1,   22,    1,    1,    1,    1,   23,    1,    1,
+        1,    1,   24,   25,    1,    1,    1,   26,    1,    1,
+       27,    1,   28,   29,    1,    1,    1,    1,    1,   30,
+
+       31,   32,    1,    1,   33,    1,    1,    1,    1,   34,
+        1,    1,    1,    1,   35,   36,    1,    1,    1,   37,
+        1,    1,    1,   38,    1,   39,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -403,98 +403,86 @@ static const YY_CHAR yy_ec[256] =
         1,    1,    1,    1,    1
     } ;
 
-static const YY_CHAR yy_meta[41] =
+static const YY_CHAR yy_meta[40] =
     {   0,
         1,    1,    2,    1,    1,    3,    1,    1,    1,    4,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    5,    5,    5,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1
+        1,    1,    1,    1,    1,    1,    5,    5,    5,    1,
+        1,    1,    1,    1,    1,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[94] =
+static const flex_int16_t yy_base[91] =
     {   0,
-        0,    0,   38,   39,   34,   37,   38,   39,   48,   53,
-      128,  175,  124,  175,  122,  106,  175,  175,  115,  175,
-      175,  175,  175,  175,  175,  107,   40,  103,   41,   31,
-       37,  175,   41,   81,  175,    0,  113,    0,   45,    0,
-       49,    0,  175,   38,  115,  175,  175,  175,  100,  175,
-      175,  175,  175,  175,   63,   63,   64,  175,    0,  175,
-      104,   54,  103,   55,    0,  175,  175,   65,   66,   67,
-      175,  102,   69,   68,   69,   79,   92,  175,   87,  100,
-      100,  175,   52,   39,  175,  135,  140,  145,  150,  155,
-      160,  165,  169
-
+        0,    0,   37,   38,   40,   43,   44,   45,   45,   48,
+      150,  151,  147,  151,  145,  130,  151,  151,  138,  151,
+      151,  151,  151,  151,  151,  130,   39,  127,   40,   30,
+       33,  151,  105,  151,    0,  151,  136,  132,    0,  124,
+       58,    0,  151,   35,  118,  151,  151,  151,  104,  151,
+      151,  151,  151,  151,   46,   47,  151,    0,  151,   95,
+       86,   91,   73,   79,   60,  151,    0,  151,  151,   49,
+       60,  151,   59,   84,   64,   63,   90,   70,  151,   72,
+      151,  151,  102,  107,  112,  117,  122,  127,  132,  136
     } ;
 
-static const flex_int16_t yy_def[94] =
+static const flex_int16_t yy_def[91] =
     {   0,
-       85,    1,   86,   86,   87,   87,   87,   87,   88,   88,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   89,   85,   90,   85,   91,
-       85,   92,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   89,   85,
-       90,   85,   91,   85,   92,   85,   85,   85,   85,   85,
-       85,   91,   85,   85,   85,   85,   85,   85,   85,   93,
-       85,   85,   93,   93,    0,   85,   85,   85,   85,   85,
-       85,   85,   85
-
+       82,    1,   83,   83,   84,   84,   84,   84,   85,   85,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   86,   82,   82,   82,   87,   82,
+       88,   89,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   86,   82,   82,
+       87,   82,   88,   88,   90,   82,   89,   82,   82,   82,
+       82,   82,   90,   82,   82,   82,   82,   82,   82,   82,
+       82,    0,   82,   82,   82,   82,   82,   82,   82,   82
     } ;
 
-static const flex_int16_t yy_nxt[216] =
+static const flex_int16_t yy_nxt[191] =
     {   0,
        12,   13,   14,   15,   16,   17,   18,   19,   20,   21,
-       22,   23,   24,   25,   26,   12,   27,   28,   29,   30,
-       31,   12,   12,   12,   12,   12,   12,   32,   12,   12,
-       30,   33,   12,   12,   12,   12,   12,   12,   34,   35,
-       12,   12,   38,   37,   37,   38,   40,   40,   84,   39,
-       12,   55,   39,   41,   41,   12,   50,   51,   53,   54,
-       62,   84,   55,   56,   64,   66,   67,   57,   39,   62,
-       64,   39,   41,   41,   57,   12,   43,   44,   57,   62,
-       12,   43,   44,   64,   68,   69,   70,   73,   62,   64,
-       74,   75,   76,   77,   78,   68,   70,   70,   73,   79,
-
-       80,   75,   75,   76,   78,   78,   82,   81,   80,   84,
-       79,   72,   72,   71,   49,   81,   45,   82,   60,   58,
-       52,   49,   48,   47,   46,   45,   81,   85,   85,   85,
-       85,   85,   85,   85,   81,   36,   36,   36,   36,   36,
-       12,   12,   12,   12,   12,   42,   42,   42,   42,   42,
-       59,   85,   85,   59,   59,   61,   61,   61,   85,   61,
-       63,   85,   63,   63,   63,   65,   85,   65,   65,   83,
-       85,   83,   83,   83,   11,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+       22,   23,   24,   25,   26,   27,   28,   29,   30,   31,
+       12,   12,   12,   12,   12,   12,   32,   12,   12,   30,
+       31,   12,   12,   12,   12,   12,   12,   33,   34,   36,
+       36,   38,   37,   37,   38,   40,   40,   36,   39,   55,
+       36,   39,   41,   41,   50,   51,   53,   54,   56,   64,
+       55,   68,   69,   65,   74,   74,   70,   66,   71,   56,
+       75,   36,   43,   44,   36,   43,   44,   70,   82,   71,
+       64,   75,   66,   76,   65,   77,   78,   79,   66,   80,
+       81,   77,   62,   66,   76,   72,   60,   78,   79,   66,
+
+       80,   81,   35,   35,   35,   35,   35,   12,   12,   12,
+       12,   12,   42,   42,   42,   42,   42,   58,   49,   45,
+       58,   58,   61,   61,   61,   62,   61,   63,   63,   63,
+       63,   63,   67,   60,   67,   67,   73,   73,   73,   73,
+       73,   59,   57,   52,   49,   48,   47,   46,   45,   82,
+       11,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82
     } ;
 
-static const flex_int16_t yy_chk[216] =
+static const flex_int16_t yy_chk[191] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        3,    4,    5,    3,    4,    6,    7,    8,   84,    5,
-        9,   30,    6,    7,    8,   10,   27,   27,   29,   29,
-       39,   83,   30,   31,   41,   44,   44,   33,    5,   62,
-       64,    6,    7,    8,   31,    9,    9,    9,   33,   39,
-       10,   10,   10,   41,   55,   56,   57,   68,   62,   64,
-       69,   70,   73,   74,   75,   55,   56,   57,   68,   76,
-
-       77,   69,   70,   73,   74,   75,   79,   77,   81,   80,
-       76,   72,   63,   61,   49,   81,   45,   79,   37,   34,
-       28,   26,   19,   16,   15,   13,   77,   11,    0,    0,
-        0,    0,    0,    0,   81,   86,   86,   86,   86,   86,
-       87,   87,   87,   87,   87,   88,   88,   88,   88,   88,
-       89,    0,    0,   89,   89,   90,   90,   90,    0,   90,
-       91,    0,   91,   91,   91,   92,    0,   92,   92,   93,
-        0,   93,   93,   93,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+        1,    1,    1,    1,    1,    1,    1,    1,    1,    3,
+        4,    5,    3,    4,    6,    7,    8,    9,    5,   30,
+       10,    6,    7,    8,   27,   27,   29,   29,   31,   41,
+       30,   44,   44,   41,   73,   65,   55,   41,   56,   31,
+       70,    9,    9,    9,   10,   10,   10,   55,   63,   56,
+       64,   70,   63,   71,   64,   74,   75,   76,   64,   78,
+       80,   77,   62,   74,   71,   61,   60,   75,   76,   77,
+
+       78,   80,   83,   83,   83,   83,   83,   84,   84,   84,
+       84,   84,   85,   85,   85,   85,   85,   86,   49,   45,
+       86,   86,   87,   87,   87,   40,   87,   88,   88,   88,
+       88,   88,   89,   38,   89,   89,   90,   90,   90,   90,
+       90,   37,   33,   28,   26,   19,   16,   15,   13,   11,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82,
+       82,   82,   82,   82,   82,   82,   82,   82,   82,   82
     } ;
 
 static yy_state_type yy_last_accepting_state;
@@ -543,6 +531,9 @@ char *yytext;
 #define YY_SKIP_YYWRAP
 #define fileno _fileno
 
+// LINEFEED is not part of any rule of the grammar.
+#define T_INVALID T_LINEFEED
+
 static int isatty (int)
 {
     return 0;
@@ -798,13 +789,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 86 )
+				if ( yy_current_state >= 83 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 85 );
+		while ( yy_current_state != 82 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -976,6 +967,7 @@ YY_RULE_SETUP
 /* eat whitespace */
 	YY_BREAK
 case 32:
+/* rule 32 can match eol */
 YY_RULE_SETUP
 {
         BEGIN(INITIAL);
@@ -996,31 +988,13 @@ YY_RULE_SETUP
 
 case 33:
 YY_RULE_SETUP
-{
-    QByteArray fileName(yytext);
-    int idx = fileName.indexOf('(');
-    fileName.remove(0, idx + 1);
-    idx = fileName.lastIndexOf(')');
-    fileName.truncate(idx);
-    fileName = fileName.trimmed();
-    if (fileName.startsWith('\"'))
-        fileName.remove(0, 1);
-    if (fileName.endsWith('\"'))
-        fileName.chop(1);
-    yylval.num = QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;
-    return T_NUMBER;
-}
-	YY_BREAK
-
-case 34:
-YY_RULE_SETUP
 yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
-case 35:
+case 34:
 YY_RULE_SETUP
 yylval.str->append('\"');
 	YY_BREAK
-case 36:
+case 35:
 YY_RULE_SETUP
 {
                     BEGIN(INITIAL);
@@ -1028,19 +1002,19 @@ YY_RULE_SETUP
                 }
 	YY_BREAK
 
-case 37:
+case 36:
 YY_RULE_SETUP
 yylval.str->append(yytext, static_cast<int>(yyleng));
 	YY_BREAK
-case 38:
+case 37:
 YY_RULE_SETUP
 yylval.str->append('[');
 	YY_BREAK
-case 39:
+case 38:
 YY_RULE_SETUP
 yylval.str->append(']');
 	YY_BREAK
-case 40:
+case 39:
 YY_RULE_SETUP
 {
                     BEGIN(INITIAL);
@@ -1051,15 +1025,34 @@ YY_RULE_SETUP
                 }
 	YY_BREAK
 
+case YY_STATE_EOF(STATE_STRING):
+case YY_STATE_EOF(STATE_SHELLCOMMAND):
+{
+    delete yylval.str;
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+	YY_BREAK
+case YY_STATE_EOF(STATE_DEFINED):
+case YY_STATE_EOF(STATE_EXIST):
+{
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+	YY_BREAK
+case 40:
+/* rule 40 can match eol */
+YY_RULE_SETUP
+{
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+	YY_BREAK
 case 41:
 YY_RULE_SETUP
 ECHO;
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
-case YY_STATE_EOF(STATE_STRING):
-case YY_STATE_EOF(STATE_DEFINED):
-case YY_STATE_EOF(STATE_EXIST):
-case YY_STATE_EOF(STATE_SHELLCOMMAND):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
@@ -1356,7 +1349,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 86 )
+			if ( yy_current_state >= 83 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1384,11 +1377,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 86 )
+		if ( yy_current_state >= 83 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 85);
+	yy_is_jam = (yy_current_state == 82);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index 670c683..ab29882 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -35,6 +35,9 @@
 #define YY_SKIP_YYWRAP
 #define fileno _fileno
 
+// LINEFEED is not part of any rule of the grammar.
+#define T_INVALID T_LINEFEED
+
 static int isatty (int)
 {
     return 0;
@@ -95,7 +98,7 @@ static int yywrap()
 (?i:EXIST)      BEGIN(STATE_EXIST);
 
 <STATE_DEFINED>{
-    [:blank:]+     /* eat whitespace */
+    [ \t]+     /* eat whitespace */
     "("[^\)]+")" {
         BEGIN(INITIAL);
         QByteArray macroName(yytext);
@@ -114,8 +117,8 @@ static int yywrap()
 }
 
 <STATE_EXIST>{
-    [:blank:]+     /* eat whitespace */
-    "(".+")" {
+    [ \t]+     /* eat whitespace */
+    "("[ \t]*\"[^\"]*\"[ \t]*")"|"("[^\")]*")" {
         BEGIN(INITIAL);
         QByteArray fileName(yytext);
         int idx = fileName.indexOf('(');
@@ -132,21 +135,6 @@ static int yywrap()
     }
 }
 
-"EXIST"[:blank:]*"(".*")" {
-    QByteArray fileName(yytext);
-    int idx = fileName.indexOf('(');
-    fileName.remove(0, idx + 1);
-    idx = fileName.lastIndexOf(')');
-    fileName.truncate(idx);
-    fileName = fileName.trimmed();
-    if (fileName.startsWith('\"'))
-        fileName.remove(0, 1);
-    if (fileName.endsWith('\"'))
-        fileName.chop(1);
-    yylval.num = QFile::exists(QString::fromLatin1(fileName.constData())) ? 1 : 0;
-    return T_NUMBER;
-}
-
 <STATE_STRING>{
     [^\n\"]+    yylval.str->append(yytext, static_cast<int>(yyleng));
     \"\"        yylval.str->append('\"');
@@ -169,5 +157,21 @@ static int yywrap()
                 }
 }
 
+<STATE_STRING,STATE_SHELLCOMMAND><<EOF>> {
+    delete yylval.str;
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+
+<STATE_DEFINED,STATE_EXIST><<EOF>> {
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+
+<INITIAL,STATE_DEFINED,STATE_EXIST>.|\n {
+    BEGIN(INITIAL);
+    return T_INVALID;
+}
+
 %%
 
-- 
2.43.0


From 328d623cf3ae9ba053751016481eefc0bb51967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:40 +0000
Subject: [PATCH 13/48] fix: apply all synchronization points of .SYNC

---
 src/jomlib/parser.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 910dd12..24461bd 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -131,7 +131,7 @@ void Parser::apply(Preprocessor* pp,
     {
         DescriptionBlock *target = m_makefile->target(it.key());
         if (!target)
-            break;
+            continue;
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
@@ -429,14 +429,12 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     // handle the special .SYNC dependents
     {
         QStringList syncDeps;
-        int k = 0;
         for (int i=0; i < dependents.count();) {
             if (dependents.at(i) == QLatin1String(".SYNC")) {
                 dependents.removeAt(i);
                 if (dependents.count() == i)
                     break;
-                syncDeps = dependents.mid(k, i - k);
-                k = i;
+                syncDeps = dependents.mid(0, i);
             } else {
                 m_syncPoints[dependents.at(i)] += syncDeps;
                 ++i;
-- 
2.43.0


From 3f59af59f0d7f95bb5413ec271f97ce97635b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:47 +0000
Subject: [PATCH 14/48] fix: detect cycles through targets that are defined
 with the makefile's directory

---
 src/jomlib/dependencygraph.cpp |  6 +-----
 src/jomlib/makefile.cpp        | 10 ++++++++++
 src/jomlib/makefile.h          |  2 ++
 src/jomlib/parser.cpp          |  4 ++--
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index bf8cfbc..58c7407 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -188,11 +188,7 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
 
     foreach (const QString& dependentName, node->target->m_dependents) {
         Makefile* const makefile = node->target->makefile();
-        DescriptionBlock* dependent = makefile->target(dependentName);
-        if (!dependent) {
-            // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
-            dependent = makefile->target(makefile->dirPath() + QDir::separator() + dependentName);
-        }
+        DescriptionBlock* dependent = makefile->dependentTarget(dependentName);
         if (!dependent) {
             if (!FastFileInfo(dependentName).exists()) {
                 QByteArray msg = "Error: dependent '";
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c06cb7c..d8a37b4 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -434,6 +434,16 @@ void Makefile::clear()
     m_inferenceRules.clear();
 }
 
+DescriptionBlock *Makefile::dependentTarget(const QString &name) const
+{
+    DescriptionBlock *dependent = target(name);
+    if (!dependent) {
+        // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
+        dependent = target(dirPath() + QDir::separator() + name);
+    }
+    return dependent;
+}
+
 const QString &Makefile::dirPath() const
 {
     if (m_dirPath.isEmpty()) {
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 28e0632..96cfd48 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -173,6 +173,8 @@ public:
         return result;
     }
 
+    DescriptionBlock* dependentTarget(const QString& name) const;
+
     const QHash<QString, DescriptionBlock*>& targets() const
     {
         return m_targets;
diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 24461bd..776aa76 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -673,7 +673,7 @@ void Parser::checkForCycles(DescriptionBlock* target)
 #endif
     target->m_bVisitedByCycleCheck = true;
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->dependentTarget(target->m_dependents.at(i));
         checkForCycles(dep);
     }
     target->m_bVisitedByCycleCheck = false;
@@ -690,7 +690,7 @@ void Parser::resetCycleChecker(DescriptionBlock* target)
         return;
 
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->dependentTarget(target->m_dependents.at(i));
         resetCycleChecker(dep);
     }
 
-- 
2.43.0


From a87ea25937b5fe5307632d8c439580de14b978da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 15/48] fix: do not start further commands of running targets
 after a failure

---
 src/jomlib/commandexecutor.cpp | 10 ++++++++--
 src/jomlib/commandexecutor.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bd10324..c26c449 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -44,7 +44,8 @@ CommandExecutor::CommandExecutor(QObject* parent, const ProcessEnvironment &envi
 :   QObject(parent),
     m_pTarget(0),
     m_ignoreProcessErrors(false),
-    m_active(false)
+    m_active(false),
+    m_stopRequested(false)
 {
     if (m_startUpTickCount == 0)
         m_startUpTickCount = GetTickCount();
@@ -72,6 +73,7 @@ void CommandExecutor::start(DescriptionBlock* target)
 {
     m_pTarget = target;
     m_active = true;
+    m_stopRequested = false;
 
     if (target->m_commands.isEmpty()) {
         finishExecution(false);
@@ -117,7 +119,7 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
     }
 
     ++m_currentCommandIdx;
-    if (m_currentCommandIdx < m_pTarget->m_commands.count()) {
+    if (!m_stopRequested && m_currentCommandIdx < m_pTarget->m_commands.count()) {
         executeCurrentCommandLine();
     } else {
         finishExecution(false);
@@ -130,8 +132,12 @@ void CommandExecutor::finishExecution(bool commandFailed)
     emit finished(this, commandFailed);
 }
 
+/**
+ * Waits for the running command. The remaining commands of the target are not executed.
+ */
 void CommandExecutor::waitForFinished()
 {
+    m_stopRequested = true;
     m_process.waitForFinished();
 }
 
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 04b01e1..367903b 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -90,6 +90,7 @@ private:
     QString             m_nextWorkingDir;
     bool                m_ignoreProcessErrors;
     bool                m_active;
+    bool                m_stopRequested;
 };
 
 } // namespace NMakeFile
-- 
2.43.0


From 27f63e12f947c240b9a71af23f4f05c5f2c26771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 16/48] fix: await running commands and return job tokens when
 preparing a command fails

---
 src/jomlib/targetexecutor.cpp | 36 ++++++++++++++++++++++-------------
 src/jomlib/targetexecutor.h   |  1 +
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a6eb9d9..4706056 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -147,9 +147,8 @@ void TargetExecutor::startProcesses()
             }
         }
     } catch (Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(1);
     }
 }
 
@@ -160,15 +159,19 @@ void TargetExecutor::buildNextTarget()
     if (m_bAborted)
         return;
 
+    CommandExecutor *executor = m_availableProcesses.takeFirst();
     try {
-        CommandExecutor *executor = m_availableProcesses.takeFirst();
         executor->start(m_nextTarget);
         m_nextTarget = 0;
         QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
     } catch (const Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        m_availableProcesses.append(executor);
+        if (m_jobAcquisitionCount > 0) {
+            m_jobClient->release();
+            m_jobAcquisitionCount--;
+        }
+        abortBuild(1);
     }
 }
 
@@ -188,6 +191,19 @@ void TargetExecutor::waitForJobClient()
     m_jobClient->release();
 }
 
+/**
+ * Stops starting commands, awaits the running ones and finishes the build.
+ */
+void TargetExecutor::abortBuild(int exitCode)
+{
+    m_bAborted = true;
+    m_depgraph->clear();
+    m_pendingTargets.clear();
+    waitForProcesses();
+    waitForJobClient();
+    finishBuild(exitCode);
+}
+
 void TargetExecutor::finishBuild(int exitCode)
 {
     if (exitCode == 0
@@ -254,14 +270,8 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
     }
 
     bool abortMakeProcess = commandFailed && !m_makefile->options()->buildUnrelatedTargetsOnError;
-    if (abortMakeProcess) {
-        m_bAborted = true;
-        m_depgraph->clear();
-        m_pendingTargets.clear();
-        waitForProcesses();
-        waitForJobClient();
-        finishBuild(2);
-    }
+    if (abortMakeProcess)
+        abortBuild(2);
 
     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
 }
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 3379251..c86de31 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -62,6 +62,7 @@ private:
     int numberOfRunningProcesses() const;
     void waitForProcesses();
     void waitForJobClient();
+    void abortBuild(int exitCode);
     void finishBuild(int exitCode);
     void findNextTarget();
 
-- 
2.43.0


From b57e2fab62a8aaab7d1a9ba68938deb645f98cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:20 +0000
Subject: [PATCH 17/48] fix: do not return a job token too many when the build
 is aborted

---
 src/jomlib/targetexecutor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 4706056..fa11a2e 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -188,7 +188,10 @@ void TargetExecutor::waitForJobClient()
     QEventLoop loop;
     connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
     loop.exec();
-    m_jobClient->release();
+    if (m_jobAcquisitionCount > 0) {
+        m_jobClient->release();
+        m_jobAcquisitionCount--;
+    }
 }
 
 /**
-- 
2.43.0


From dbd35450c27d795def6517e73d52b2d1d7e18a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:36 +0000
Subject: [PATCH 18/48] fix: resolve the argument of cd against the directory
 chosen by preceding cd commands

---
 src/jomlib/commandexecutor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index c26c449..60a7a09 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -381,7 +381,8 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
     }
 
     removeDoubleQuotes(args);
-    QFileInfo fi(args);
+    // Relative paths refer to the directory chosen by preceding cd commands.
+    QFileInfo fi(QDir(m_process.workingDirectory()).absoluteFilePath(args));
     if (!fi.exists()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
-- 
2.43.0


From 2ba6622c7654226f0e001161fc2591546593c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 19/48] fix: do not crash on commands with ! of targets without
 dependents

---
 src/jomlib/commandexecutor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 60a7a09..7b6dabb 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -75,12 +75,13 @@ void CommandExecutor::start(DescriptionBlock* target)
     m_active = true;
     m_stopRequested = false;
 
+    target->expandFileNameMacros();
     if (target->m_commands.isEmpty()) {
+        // There might be no command left, e.g. for !-commands of a target without dependents.
         finishExecution(false);
         return;
     }
 
-    target->expandFileNameMacros();
     cleanupTempFiles();
     createTempFiles();
 
-- 
2.43.0


From 5c17421e1091e23b7daea95c5e9a4a0a74aa3cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 20/48] fix: notice the end of commands that exit with code 259

---
 src/jomlib/jomprocess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1e3335d..c3943d5 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -414,7 +414,8 @@ void Process::tryToRetrieveExitCode()
         if (!GetExitCodeProcess(d->hProcess, &d->exitCode))
             d->exitCode = STILL_ACTIVE;
 
-    if (d->exitCode == STILL_ACTIVE)
+    // A process may have ended with an exit code that equals STILL_ACTIVE.
+    if (d->exitCode == STILL_ACTIVE && WaitForSingleObject(d->hProcess, 0) != WAIT_OBJECT_0)
         QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
     else
         onProcessFinished();
-- 
2.43.0


From 741a623580fd1d9658c873db71836d9b68579409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 21/48] fix: do not tolerate crashes because of a numeric exit
 code tolerance

---
 src/jomlib/commandexecutor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 7b6dabb..92d0c7f 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -35,6 +35,8 @@
 #include <QStringList>
 #include <windows.h>
 
+#include <climits>
+
 namespace NMakeFile {
 
 ulong CommandExecutor::m_startUpTickCount = 0;
@@ -102,11 +104,14 @@ void CommandExecutor::onProcessError(Process::ProcessError error)
 void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitStatus)
 {
     //qDebug() << "onProcessFinished" << m_pTarget->m_targetName;
-    if (exitStatus != Process::NormalExit)
+    const bool crashed = (exitStatus != Process::NormalExit);
+    if (crashed)
         exitCode = 2;
 
+    // A crash is tolerated only if every exit code is.
     const Command &currentCommand = m_pTarget->m_commands.at(m_currentCommandIdx);
-    if (static_cast<unsigned int>(exitCode) > currentCommand.m_maxExitCode) {
+    if (static_cast<unsigned int>(exitCode) > currentCommand.m_maxExitCode
+        || (crashed && currentCommand.m_maxExitCode != UINT_MAX)) {
         QByteArray msg = "jom: ";
         msg += QDir::toNativeSeparators(
                     QDir::current().absoluteFilePath(
-- 
2.43.0


From 280a863f422917579fbc13529f1f23665410606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:09 +0000
Subject: [PATCH 22/48] fix: consume exactly the file name macro invocation
 that is expanded

Expanding $(@) swallowed the character after it, invocations of empty
lists left a part of the invocation behind, and a macro directly after
an empty one was not expanded.
---
 src/jomlib/makefile.cpp | 139 ++++++++++++++++++++--------------------
 1 file changed, 69 insertions(+), 70 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index d8a37b4..eca955f 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -224,84 +224,80 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
         char ch = str.at(idx).toLatin1();
         if (ch == '(') {
             int substitutionIdx = -1;
-            bool substitutionStateKnown = false;
+            int macroInvokationEnd = -1;
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 3);
-            } else {
-                ch = str.at(idx + replacementLength + 1).toLatin1();
-                switch (ch)
-                {
-                case 'D':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('\\'));
-                        if (k == -1)
-                            macroValue = QLatin1String(".");
-                        else
-                            macroValue = macroValue.left(k);
-                    }
-                    break;
-                case 'B':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        macroValue = QFileInfo(macroValue).baseName();
-                    }
-                    break;
-                case 'F':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        macroValue = QFileInfo(macroValue).fileName();
-                    }
-                    break;
-                case 'R':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('.'));
-                        if (k > -1)
-                            macroValue = macroValue.left(k);
-                    }
-                    break;
-                case ':':
-                    substitutionStateKnown = true;
-                    substitutionIdx = idx + replacementLength + 2;
-                    break;
-                case ')':
-                    // No file name modifier given.
-                    substitutionStateKnown = true;
-                    break;
-                default:
-                    // TODO: yield error? ignore for now
-                    continue;
+            const int modifierIdx = idx + replacementLength + 1;
+            ch = str.at(modifierIdx).toLatin1();
+            switch (ch)
+            {
+            case 'D':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    int k = macroValue.lastIndexOf(QLatin1Char('\\'));
+                    if (k == -1)
+                        macroValue = QLatin1String(".");
+                    else
+                        macroValue = macroValue.left(k);
                 }
+                break;
+            case 'B':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    macroValue = QFileInfo(macroValue).baseName();
+                }
+                break;
+            case 'F':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    macroValue = QFileInfo(macroValue).fileName();
+                }
+                break;
+            case 'R':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    int k = macroValue.lastIndexOf(QLatin1Char('.'));
+                    if (k > -1)
+                        macroValue = macroValue.left(k);
+                }
+                break;
+            case ':':
+                substitutionIdx = modifierIdx + 1;
+                break;
+            case ')':
+                // No file name modifier given.
+                macroInvokationEnd = modifierIdx;
+                break;
+            default:
+                // TODO: yield error? ignore for now
+                continue;
+            }
 
-                // We've seen D, B, F or R and don't know yet whether we should substitute something.
-                if (!substitutionStateKnown && str.at(idx + replacementLength + 2) == QLatin1Char(':'))
-                    substitutionIdx = idx + replacementLength + 3;
+            // We've seen D, B, F or R and don't know yet whether we should substitute something.
+            if (substitutionIdx == -1 && macroInvokationEnd == -1) {
+                if (str.at(modifierIdx + 1) == QLatin1Char(':'))
+                    substitutionIdx = modifierIdx + 2;
+                else
+                    macroInvokationEnd = modifierIdx + 1;
+            }
 
-                if (substitutionIdx > 0) {
-                    int macroInvokationEnd;
-                    const MacroTable::Substitution substitution =
-                            MacroTable::parseSubstitutionStatement(str, substitutionIdx, macroInvokationEnd);
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        MacroTable::applySubstitution(substitution, macroValues[i]);
-                    }
-                    replacementLength = macroInvokationEnd - idx - 2;  // because we're later adding 4
+            if (substitutionIdx > 0) {
+                const MacroTable::Substitution substitution =
+                        MacroTable::parseSubstitutionStatement(str, substitutionIdx, macroInvokationEnd);
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    MacroTable::applySubstitution(substitution, macroValues[i]);
                 }
-
-                const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 4, macroValue);
             }
+
+            const QString macroValue = joinFileNameMacroValues(macroValues);
+            str.replace(idx - 1, macroInvokationEnd - idx + 2, macroValue);
+            idx += macroValue.length() - 1;
         } else {
-            QStringList macroValues = getFileNameMacroValues(str.midRef(idx), replacementLength,
-                                                             depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 1);
-            } else {
-                const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 1, macroValue);
-            }
+            const QStringList macroValues = getFileNameMacroValues(str.midRef(idx), replacementLength,
+                                                                   depIdx, dependentsForbidden);
+            const QString macroValue = joinFileNameMacroValues(macroValues);
+            str.replace(idx - 1, replacementLength + 1, macroValue);
+            idx += macroValue.length() - 1;
         }
     }
 }
@@ -356,6 +352,9 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 }
             }
             break;
+        case '<':
+            replacementLength = 1;
+            break;
     }
 
     return results;
-- 
2.43.0


From 4c5f885391ef6dea8ebc599e865c330eac1e3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:23 +0000
Subject: [PATCH 23/48] fix: cut file name extensions in the last path
 component only

$* and the R modifier turned dir.d/file into dir.
---
 src/jomlib/makefile.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index eca955f..afb0151 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -189,6 +189,15 @@ static QString joinFileNameMacroValues(const QStringList &macroValues)
     return result;
 }
 
+static void removeFileNameExtension(QString &fileName)
+{
+    const int dotIdx = fileName.lastIndexOf(QLatin1Char('.'));
+    if (dotIdx > fileName.lastIndexOf(QLatin1Char('/'))
+            && dotIdx > fileName.lastIndexOf(QLatin1Char('\\'))) {
+        fileName.truncate(dotIdx);
+    }
+}
+
 /**
  * Expands the filename macros in a given string.
  *
@@ -255,10 +264,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                 break;
             case 'R':
                 for (int i = 0; i < macroValues.count(); ++i) {
-                    QString &macroValue = macroValues[i];
-                    int k = macroValue.lastIndexOf(QLatin1Char('.'));
-                    if (k > -1)
-                        macroValue = macroValue.left(k);
+                    removeFileNameExtension(macroValues[i]);
                 }
                 break;
             case ':':
@@ -330,9 +336,7 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 } else {
                     replacementLength = 1;
                     QString tgt = targetName();
-                    int idx = tgt.lastIndexOf(QLatin1Char('.'));
-                    if (idx > -1)
-                        tgt.resize(idx);
+                    removeFileNameExtension(tgt);
                     results += tgt;
                 }
             }
-- 
2.43.0


From 2554c0e856ee8962e27d29e5d28a2247c3a1cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 24/48] fix: replace << at the start of a command by the inline
 file's name

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 92d0c7f..d57f8fd 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -315,7 +315,7 @@ void CommandExecutor::createTempFiles()
             }
 
             int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
-            if (idx > 0)
+            if (idx >= 0)
                 cmd.m_commandLine.replace(idx, 2, replacement);
 
             m_tempFiles.append(tempFile);
-- 
2.43.0


From 889eacdcc14abc9f01253ed642fc2b771a1c2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 25/48] fix: expand macros in the names of inline files of
 inference rules

---
 src/jomlib/makefile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index afb0151..970c284 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -644,6 +644,8 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependent);
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);
         }
         command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
         command.evaluateModifiers();
@@ -674,6 +676,8 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependents);
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependents);
         }
         command.m_commandLine = m_macroTable->expandMacros(command.m_commandLine);
         command.evaluateModifiers();
-- 
2.43.0


From 897b9891468cc89b571f4d6e6ebc57eba0ddc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:18 +0000
Subject: [PATCH 26/48] fix: let the targets of a batch wait for the command
 that builds them

A target that was built by the command of another target of its batch
counted as done before this command was started, also when the command
failed, and with the file time it had before.
---
 src/jomlib/dependencygraph.cpp | 11 +++++++++++
 src/jomlib/makefile.cpp        |  6 ++++++
 src/jomlib/makefile.h          |  1 +
 3 files changed, 18 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 58c7407..e3c9641 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -285,6 +285,8 @@ void DependencyGraph::removeLeaf(Node* node)
 
     foreach (Node* parent, node->parents) {
         parent->children.removeOne(node);
+        if (parent->target->m_batchExecutor == node->target)
+            FastFileInfo::clearCacheForFile(parent->target->targetName());
         if (parent->children.isEmpty()) {
             m_bDirtyLeaves = true;
             m_leaves.append(parent);
@@ -324,6 +326,15 @@ DescriptionBlock *DependencyGraph::findAvailableTarget(bool ignoreTimeStamps)
     foreach (Makefile *mf, makefileSet)
         mf->applyInferenceRules(multiHash.values(mf));
 
+    // targets that are built by the commands of another target must wait for those commands
+    foreach (Node *leaf, m_leaves) {
+        Node *executor = m_nodeContainer.value(leaf->target->m_batchExecutor);
+        if (executor) {
+            addEdge(leaf, executor);
+            m_leaves.removeOne(leaf);
+        }
+    }
+
     // return the first leaf that is not currently executed
     foreach (Node *leaf, m_leaves) {
         if (leaf->state != Node::ExecutingState) {
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 970c284..e6eb1d1 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -116,6 +116,7 @@ DescriptionBlock::DescriptionBlock(Makefile* mkfile)
     m_bVisitedByCycleCheck(false),
     m_bNoCyclesRootedHere(false),
     m_bInferenceRulesPreselected(false),
+    m_batchExecutor(0),
     m_canAddCommands(ACSUnknown),
     m_pMakefile(mkfile)
 {
@@ -662,6 +663,11 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
         QString inferredDependent = rule->inferredDependent(target->targetName());
         if (!executingTarget->m_dependents.contains(inferredDependent))
             executingTarget->m_dependents.append(inferredDependent);
+        if (target != executingTarget) {
+            if (!target->m_dependents.contains(inferredDependent))
+                target->m_dependents.append(inferredDependent);
+            target->m_batchExecutor = executingTarget;
+        }
 
         inferredDependents.append(inferredDependent);
         inferredDependents.append(QLatin1Char(' '));
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 96cfd48..6f79a60 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -106,6 +106,7 @@ public:
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
     QVector<InferenceRule*> m_inferenceRules;
+    DescriptionBlock* m_batchExecutor;  // target whose commands build this target in batch mode
 
     enum AddCommandsState { ACSUnknown, ACSEnabled, ACSDisabled };
     AddCommandsState m_canAddCommands;
-- 
2.43.0


From 5249cab302cfebf47f6c0693568b153ea8feb52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 27/48] fix: export the number of jobs that is in effect in
 MAKEFLAGS

/J4 /J8 exported 4, and /J +4 something that jom itself rejects.
---
 src/jomlib/options.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 01ce796..e394061 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -31,6 +31,7 @@
 #include <cstdlib>
 
 #include <QFile>
+#include <QRegExp>
 #include <QSet>
 #include <QThread>
 
@@ -304,8 +305,9 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
                         return false;
                     }
                     g_options.isMaxNumberOfJobsSet = true;
-                    if (makeflags.at(makeflags.count() - 1).toUpper() == QLatin1Char('J'))
-                        makeflags += nJobsStr;
+                    // The last job count wins.
+                    makeflags.remove(QRegExp(QLatin1String("J\\d*"), Qt::CaseInsensitive));
+                    makeflags += QLatin1Char('J') + QString::number(g_options.maxNumberOfJobs);
                     break;
                 }
             case 'K':
-- 
2.43.0


From 7274a5fb2e755ef180f85bd6aa18781d4722cc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 28/48] fix: do not export the options D, E, B, U, G as /DEBUG

---
 src/jomlib/options.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index e394061..ca139a3 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -221,8 +221,13 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
             return true;
 
         QChar ch = arg.at(0);
-        if (!makeflags.contains(ch))
-            makeflags.append(ch);
+        if (!makeflags.contains(ch)) {
+            // /D /E /B /U /G must not be exported as /DEBUG
+            if ((makeflags + ch).endsWith(QLatin1String("DEBUG"), Qt::CaseInsensitive))
+                makeflags.prepend(ch);
+            else
+                makeflags.append(ch);
+        }
         arg.remove(0, 1);
         switch (ch.toUpper().toLatin1()) {
             case 'F':
-- 
2.43.0


From c1d58e3dbd7aa978b0a5b0663a74f52fb7269428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 29/48] fix: do not access the first characters of empty
 arguments

---
 src/jomlib/options.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index ca139a3..921578d 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -92,8 +92,8 @@ bool Options::readCommandLineArguments(QStringList arguments, QString& makefile,
     const QStringList originalArguments = arguments;
     while (!arguments.isEmpty()) {
         QString arg = arguments.takeFirst();
-        if (arg.at(0) == QLatin1Char('-') ||
-            arg.at(0) == QLatin1Char('/'))
+        if (arg.startsWith(QLatin1Char('-')) ||
+            arg.startsWith(QLatin1Char('/')))
         {
             // handle option
             arg.remove(0, 1);
@@ -144,7 +144,7 @@ bool Options::expandCommandFiles(QStringList& arguments)
         if (it->startsWith(QLatin1Char('@'))) {
             QString fileName = *it;
             int frontRemoveCount = 1;
-            if (fileName.at(1) == QLatin1Char('"') && fileName.endsWith(QLatin1Char('"'))) {
+            if (fileName.startsWith(QLatin1String("@\"")) && fileName.endsWith(QLatin1Char('"'))) {
                 frontRemoveCount = 2;
                 fileName.chop(1);
             }
-- 
2.43.0


From 332f5abe38c634dc4eb93a257d30e54b56eda5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:50 +0000
Subject: [PATCH 30/48] fix: pass the options that are in effect in an
 inherited MAKEFLAGS to child processes

---
 src/jomlib/makefilefactory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jomlib/makefilefactory.cpp b/src/jomlib/makefilefactory.cpp
index 6cc05bb..49a7d0f 100644
--- a/src/jomlib/makefilefactory.cpp
+++ b/src/jomlib/makefilefactory.cpp
@@ -131,6 +131,14 @@ bool MakefileFactory::apply(const QStringList& commandLineArguments, Options **o
 
     options->fullAppPath = QDir::toNativeSeparators(QCoreApplication::applicationFilePath());
 
+    // Pass the options that are in effect instead of the inherited ones to child processes.
+    const QLatin1String makeFlagsKey("MAKEFLAGS");
+    if (m_environment.contains(makeFlagsKey)) {
+        ProcessEnvironment environment = macroTable->environment();
+        environment.insert(makeFlagsKey, macroTable->macroValue(makeFlagsKey));
+        macroTable->setEnvironment(environment);
+    }
+
     readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);
     if (!options->ignorePredefinedRulesAndMacros) {
         macroTable->predefineValue("MAKE", encloseInDoubleQuotesIfNeeded(options->fullAppPath));
-- 
2.43.0


From 567c650c3d57b3fb76ef37aef06d7ce0cddb7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:28 +0000
Subject: [PATCH 31/48] fix: keep quoted blanks, empty quotes and unclosed text
 when splitting command lines

---
 src/jomlib/helperfunctions.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/jomlib/helperfunctions.cpp b/src/jomlib/helperfunctions.cpp
index 356617f..251a46c 100644
--- a/src/jomlib/helperfunctions.cpp
+++ b/src/jomlib/helperfunctions.cpp
@@ -33,32 +33,30 @@ QStringList splitCommandLine(QString commandLine)
 {
     QString str;
     QStringList arguments;
-    commandLine.append(QLatin1Char(' '));   // append artificial space
-    bool escapedQuote = false;
     bool insideQuotes = false;
     for (int i=0; i < commandLine.count(); ++i) {
-        if (commandLine.at(i).isSpace() && !insideQuotes) {
-            escapedQuote = false;
-            str = str.trimmed();
+        const QChar ch = commandLine.at(i);
+        if (ch == QLatin1Char('"')) {
+            if (insideQuotes && i + 1 < commandLine.count()
+                && commandLine.at(i + 1) == QLatin1Char('"')) {
+                str.append(ch);     // escaped quote
+                ++i;
+            } else {
+                insideQuotes = !insideQuotes;
+            }
+        } else if (ch.isSpace() && !insideQuotes) {
             if (!str.isEmpty()) {
                 arguments.append(str);
                 str.clear();
             }
         } else {
-            if (commandLine.at(i) == QLatin1Char('"')) {
-                if (escapedQuote)  {
-                    str.append(QLatin1Char('"'));
-                    escapedQuote = false;
-                } else {
-                    escapedQuote = true;
-                }
-                insideQuotes = !insideQuotes;
-            } else {
-                str.append(commandLine.at(i));
-                escapedQuote = false;
-            }
+            str.append(ch);
         }
     }
+    if (insideQuotes)
+        str = str.trimmed();
+    if (!str.isEmpty())
+        arguments.append(str);
     return arguments;
 }
 
-- 
2.43.0


From 63183012fb3f204ea0c2caaeb205a794a214d4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:30 +0000
Subject: [PATCH 32/48] fix: print the output of one running command at a time
 directly

---
 src/jomlib/targetexecutor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index fa11a2e..0990f5b 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -266,6 +266,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
             if (cmdex->isActive()) {
                 cmdex->setBufferedOutput(false);
                 found = true;
+                break;
             }
         }
         if (!found)
-- 
2.43.0


From 01763ccd853f9a8f059067fd73339966c89a3c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:39 +0000
Subject: [PATCH 33/48] fix: ignore blanks around the file name of an old style
 include directive

---
 src/jomlib/preprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 96312d7..5ccd820 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -391,7 +391,7 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
     bool result = true;
     if (oldStyleIncludeDirectiveFound) {
         directive = QLatin1String("INCLUDE");
-        value = line.mid(8);
+        value = line.mid(8).trimmed();
     } else {
         result = m_rexPreprocessingDirective.exactMatch(line);
         if (result) {
-- 
2.43.0


From f9b1fe0d7c2b72b67afd438996b7b917ff07b853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:00 +0000
Subject: [PATCH 34/48] fix: do not read past the end of text that ends with a
 byte order mark character

---
 src/jomlib/makefile.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index e6eb1d1..a148a87 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -216,7 +216,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
     int lastEscapedIdx = -1;
     forever {
         idx = str.indexOf(MacroTable::fileNameMacroMagicEscape, idx);
-        if (idx == -1 || ++idx >= str.count() + 1)
+        if (idx == -1 || ++idx >= str.count())
             break;
 
         if (lastEscapedIdx == idx - 1)
@@ -238,6 +238,8 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
             const int modifierIdx = idx + replacementLength + 1;
+            if (modifierIdx >= str.count())
+                break;
             ch = str.at(modifierIdx).toLatin1();
             switch (ch)
             {
@@ -282,7 +284,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
 
             // We've seen D, B, F or R and don't know yet whether we should substitute something.
             if (substitutionIdx == -1 && macroInvokationEnd == -1) {
-                if (str.at(modifierIdx + 1) == QLatin1Char(':'))
+                if (modifierIdx + 1 < str.count() && str.at(modifierIdx + 1) == QLatin1Char(':'))
                     substitutionIdx = modifierIdx + 2;
                 else
                     macroInvokationEnd = modifierIdx + 1;
@@ -321,6 +323,9 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
             dependentCandidates << m_dependents.at(depIdx);
     }
 
+    if (str.isEmpty())
+        return results;
+
     switch (str.at(0).toLatin1()) {
         case '@':
             replacementLength = 1;
-- 
2.43.0


From 90c6fe7ec96774857f9965f82aae8057778f6fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:47 +0000
Subject: [PATCH 35/48] fix: do not add the directories . and .. as dependents
 for wildcards

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 776aa76..7901eb1 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -376,7 +376,7 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
                 str.remove(0, idx + 1);
             }
 
-            QDirIterator dit(path, QStringList(str));
+            QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
                 if (filePath.startsWith(dirPath, Qt::CaseInsensitive)) {
-- 
2.43.0


From a789c03ce001c60d65df9d3bc90fd9bea5d43fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:57 +0000
Subject: [PATCH 36/48] fix: keep the path of wildcard matches in a directory
 that only starts like the one of the makefile

---
 src/jomlib/parser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 7901eb1..c412030 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -363,6 +363,9 @@ static bool containsWildcard(const QString &str)
 static QStringList expandWildcards(const QString &dirPath, const QStringList &lst)
 {
     QStringList result;
+    QString dirPrefix = dirPath;
+    if (!dirPrefix.endsWith(QLatin1Char('/')))
+        dirPrefix += QLatin1Char('/');
     foreach (QString str, lst) {
         if (containsWildcard(str)) {
             QString path = dirPath;
@@ -379,11 +382,8 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
             QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
-                if (filePath.startsWith(dirPath, Qt::CaseInsensitive)) {
-                    filePath.remove(0, dirPath.length());
-                    if (filePath.startsWith(QLatin1Char('/')))
-                       filePath.remove(0, 1);
-                }
+                if (filePath.startsWith(dirPrefix, Qt::CaseInsensitive))
+                    filePath.remove(0, dirPrefix.length());
                 result.append(QDir::toNativeSeparators(filePath));
             }
         } else {
-- 
2.43.0


From 63872fa572cd11cf2a9bf4bc4caf9ef5ec404443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:57 +0000
Subject: [PATCH 37/48] fix: look for wildcard matches in the root directory if
 the pattern says so

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index c412030..ebd923c 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -375,7 +375,7 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
                 if (QFileInfo(str).isRelative())
                     path += QLatin1Char('/') + str.left(idx);
                 else
-                    path = str.left(idx);
+                    path = str.left(idx + 1);
                 str.remove(0, idx + 1);
             }
 
-- 
2.43.0


From 0ab35f9e44196df4485672422cc91e398096ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:56 +0000
Subject: [PATCH 38/48] fix: do not build the targets after dumping the
 dependency graph

---
 src/jomlib/targetexecutor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 0990f5b..75e4293 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -109,6 +109,8 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
             m_depgraph->dotDump();
         else
             m_depgraph->dump();
+        m_depgraph->clear();
+        m_pendingTargets.clear();
         finishBuild(0);
         return;
     }
-- 
2.43.0


From 7bc24ee26a609b68f71fba2fcb806d19393586bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:49 +0000
Subject: [PATCH 39/48] fix: treat displayed targets as updated in a dry run

---
 src/jomlib/targetexecutor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 75e4293..fd20581 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -228,6 +228,10 @@ void TargetExecutor::findNextTarget()
         if (m_nextTarget) {
             if (m_nextTarget->m_commands.isEmpty()) {
                 // Short cut for targets without commands.
+                if (m_makefile->options()->dryRun && m_nextTarget->m_batchExecutor) {
+                    // The commands of the batch would have updated the target.
+                    m_nextTarget->m_timeStamp = FileTime::currentTime();
+                }
                 m_depgraph->removeLeaf(m_nextTarget);
                 continue;
             } else if (m_makefile->options()->buildUnrelatedTargetsOnError
@@ -255,6 +259,10 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
         }
     }
     FastFileInfo::clearCacheForFile(executor->target()->targetName());
+    if (m_makefile->options()->dryRun) {
+        // The commands would have updated the target.
+        executor->target()->m_timeStamp = FileTime::currentTime();
+    }
     m_depgraph->removeLeaf(executor->target());
     if (m_jobAcquisitionCount > 0) {
         m_jobClient->release();
-- 
2.43.0


From 43bf618a7b4452be19211228452d980370d6ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:49 +0000
Subject: [PATCH 40/48] fix: apply inference rules to displayed dependents in a
 dry run

---
 src/jomlib/makefile.cpp       | 4 ++++
 src/jomlib/targetexecutor.cpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index a148a87..5e18a87 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -531,6 +531,10 @@ void Makefile::filterRulesByDependent(QVector<InferenceRule*>& rules, const QStr
                                 baseName + rule->m_fromExtension;
 
         DescriptionBlock* depTarget = m_targets.value(dependentName);
+        if (!depTarget && m_options->dryRun) {
+            // The commands that would create the dependent may be displayed already.
+            depTarget = dependentTarget(rule->inferredDependent(targetName));
+        }
         if ((depTarget && depTarget->m_bFileExists) || QFile::exists(dependentName)) {
             ++it;
             continue;
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index fd20581..d3b0f5d 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -230,6 +230,7 @@ void TargetExecutor::findNextTarget()
                 // Short cut for targets without commands.
                 if (m_makefile->options()->dryRun && m_nextTarget->m_batchExecutor) {
                     // The commands of the batch would have updated the target.
+                    m_nextTarget->m_bFileExists = true;
                     m_nextTarget->m_timeStamp = FileTime::currentTime();
                 }
                 m_depgraph->removeLeaf(m_nextTarget);
@@ -261,6 +262,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
     FastFileInfo::clearCacheForFile(executor->target()->targetName());
     if (m_makefile->options()->dryRun) {
         // The commands would have updated the target.
+        executor->target()->m_bFileExists = true;
         executor->target()->m_timeStamp = FileTime::currentTime();
     }
     m_depgraph->removeLeaf(executor->target());
-- 
2.43.0


From 6ec96996e9fbe58847ed49b348274bc76623715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:00 +0000
Subject: [PATCH 41/48] fix: do not touch inline files in a dry run

---
 src/jomlib/commandexecutor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index d57f8fd..58c2268 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -289,7 +289,8 @@ void CommandExecutor::createTempFiles()
             TempFile tempFile;
             tempFile.keep = inlineFile->m_keep;
             tempFile.file = new QFile(fileName);
-            if (!tempFile.file->open(QFile::WriteOnly)) {
+            const bool dryRun = m_pTarget->makefile()->options()->dryRun;
+            if (!dryRun && !tempFile.file->open(QFile::WriteOnly)) {
                 delete tempFile.file;
                 QString msg = QLatin1String("cannot open %1 for write");
                 throw Exception(msg.arg(fileName));
@@ -305,8 +306,13 @@ void CommandExecutor::createTempFiles()
             }
 
             // TODO: do something with inlineFile->m_unicode;
-            tempFile.file->write(content);
-            tempFile.file->close();
+            if (dryRun) {
+                // The file does not belong to us.
+                tempFile.keep = true;
+            } else {
+                tempFile.file->write(content);
+                tempFile.file->close();
+            }
 
             QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
             if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
-- 
2.43.0


From 2e14117b4244077f400f306d29bc78248f909433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:33 +0000
Subject: [PATCH 42/48] fix: strip white space between command modifiers and
 command

---
 src/jomlib/makefile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 5e18a87..f184713 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -109,6 +109,12 @@ void Command::evaluateModifiers()
             break;
         }
     }
+
+    // The command starts after the white space that follows the modifiers.
+    int i = 0;
+    while (i < m_commandLine.length() && m_commandLine.at(i).isSpace())
+        ++i;
+    m_commandLine.remove(0, i);
 }
 
 DescriptionBlock::DescriptionBlock(Makefile* mkfile)
-- 
2.43.0


From d3487cb74ed67d8b56eec3726620991ec5e0d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:11 +0000
Subject: [PATCH 43/48] fix: report mixed : and :: dependents at the line of
 the dependents

---
 src/jomlib/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index ebd923c..08e18c9 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -395,6 +395,10 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
 
 void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int commandSeparatorPos)
 {
+    // Errors are reported after the lines behind the dependency line were read.
+    const QString fileName = m_preprocessor->currentFileName();
+    const uint lineNumber = m_preprocessor->lineNumber();
+
     QString target = m_line.left(separatorPos).trimmed();
     target = m_preprocessor->macroTable()->expandMacros(target);
     QString value = m_line;
@@ -454,8 +458,8 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             if (canAddCommands != descblock->m_canAddCommands &&
                 descblock->m_canAddCommands != DescriptionBlock::ACSUnknown)
             {
-                error(QLatin1String("cannot have : and :: dependents for same target"));
-                return;
+                throw FileException(QLatin1String("cannot have : and :: dependents for same target"),
+                                    fileName, lineNumber);
             }
             descblock->m_canAddCommands = canAddCommands;
         } else {
-- 
2.43.0


From c00cf184254e218a3942313d91389315cf76b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:11 +0000
Subject: [PATCH 44/48] fix: close the quote around the directory that is
 entered

---
 src/app/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index c310836..e25829a 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -200,7 +200,7 @@ int main(int argc, char* argv[])
         QScopedPointer<JobServer> jobServerDeleter(jobServer);
 
         if (options->printWorkingDir) {
-            printf("jom: Entering directory '%s\n",
+            printf("jom: Entering directory '%s'\n",
                    qPrintable(QDir::toNativeSeparators(QDir::currentPath())));
             fflush(stdout);
         }
-- 
2.43.0


From ed44b4893a3af969fb698abc7221e9ff9efc4000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:48 +0000
Subject: [PATCH 45/48] fix: honour synchronisation points for dependents with
 file name macros

---
 src/jomlib/parser.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 08e18c9..312ebb5 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -431,18 +431,14 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     dependents = expandWildcards(m_makefile->dirPath(), dependents);
 
     // handle the special .SYNC dependents
-    {
-        QStringList syncDeps;
-        for (int i=0; i < dependents.count();) {
-            if (dependents.at(i) == QLatin1String(".SYNC")) {
-                dependents.removeAt(i);
-                if (dependents.count() == i)
-                    break;
-                syncDeps = dependents.mid(0, i);
-            } else {
-                m_syncPoints[dependents.at(i)] += syncDeps;
-                ++i;
-            }
+    QVector<int> syncDepCounts;     // number of dependents before the last .SYNC, per dependent
+    for (int i=0, syncDepCount=0; i < dependents.count();) {
+        if (dependents.at(i) == QLatin1String(".SYNC")) {
+            dependents.removeAt(i);
+            syncDepCount = i;
+        } else {
+            syncDepCounts.append(syncDepCount);
+            ++i;
         }
     }
 
@@ -467,8 +463,13 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             descblock->m_canAddCommands = canAddCommands;
             canAddCommands = DescriptionBlock::ACSEnabled;
         }
+        const int oldDependentsCount = descblock->m_dependents.count();
         descblock->m_dependents.append(dependents);
         descblock->expandFileNameMacrosForDependents();
+        for (int i=0; i < dependents.count(); ++i) {
+            m_syncPoints[descblock->m_dependents.at(oldDependentsCount + i)]
+                    += descblock->m_dependents.mid(oldDependentsCount, syncDepCounts.at(i));
+        }
 
         if (!commands.isEmpty()) {
             if (canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty())
-- 
2.43.0


From fdfe9a67d15653997bf9307b3606bab6f4564999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:48 +0000
Subject: [PATCH 46/48] fix: end the build properly if a dependent does not
 exist

---
 src/jomlib/dependencygraph.cpp | 20 ++++++++++++++------
 src/jomlib/dependencygraph.h   |  4 ++--
 src/jomlib/targetexecutor.cpp  | 10 ++++++++--
 src/jomlib/targetexecutor.h    |  2 +-
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index e3c9641..cf1c448 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -65,12 +65,15 @@ void DependencyGraph::deleteNode(Node* node)
     delete node;
 }
 
-void DependencyGraph::build(DescriptionBlock* target)
+/**
+ * Returns false if there is a dependent that neither exists nor can be built.
+ */
+bool DependencyGraph::build(DescriptionBlock* target)
 {
     m_bDirtyLeaves = true;
     m_root = createNode(target, 0);
     QSet<Node *> seen;
-    internalBuild(m_root, seen);
+    const bool result = internalBuild(m_root, seen);
     //dump();
     //qDebug() << "\n\n-------------------------------------------------\n";
 
@@ -80,6 +83,8 @@ void DependencyGraph::build(DescriptionBlock* target)
     //} while(target);
 
     //qDebug() << "\nFINISHED";
+
+    return result;
 }
 
 void DependencyGraph::markParentsRecursivlyUnbuildable(DescriptionBlock *target)
@@ -179,12 +184,12 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
     return isUpToDate;
 }
 
-void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
+bool DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
 {
     const int c = seen.count();
     seen << node;
     if (c == seen.count())
-        return;
+        return true;
 
     foreach (const QString& dependentName, node->target->m_dependents) {
         Makefile* const makefile = node->target->makefile();
@@ -195,7 +200,7 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
                 msg += dependentName.toLocal8Bit();
                 msg += "' does not exist.\n";
                 fputs(msg.constData(), stderr);
-                exit(2);
+                return false;
             }
             continue;
         }
@@ -206,11 +211,14 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
         else
             child = createNode(dependent, node);
 
-        internalBuild(child, seen);
+        if (!internalBuild(child, seen))
+            return false;
     }
 
     if (node->children.isEmpty())
         m_leaves.append(node);
+
+    return true;
 }
 
 void DependencyGraph::dump()
diff --git a/src/jomlib/dependencygraph.h b/src/jomlib/dependencygraph.h
index 2ed92fc..f081acb 100644
--- a/src/jomlib/dependencygraph.h
+++ b/src/jomlib/dependencygraph.h
@@ -39,7 +39,7 @@ public:
     DependencyGraph();
     ~DependencyGraph();
 
-    void build(DescriptionBlock* target);
+    bool build(DescriptionBlock* target);
     void markParentsRecursivlyUnbuildable(DescriptionBlock *target);
     bool isUnbuildable(DescriptionBlock *target) const;
     bool isEmpty() const;
@@ -65,7 +65,7 @@ private:
     Node* createNode(DescriptionBlock* target, Node* parent);
     void deleteNode(Node* node);
     void removeLeaf(Node* node);
-    void internalBuild(Node *node, QSet<Node *> &seen);
+    bool internalBuild(Node *node, QSet<Node *> &seen);
     void addEdge(Node* parent, Node* child);
     void internalDump(Node* node, QString& indent);
     void internalDotDump(Node* node, const QString& parent);
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index d3b0f5d..b27ce8b 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -103,7 +103,10 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
         }
     }
 
-    m_depgraph->build(descblock);
+    if (!m_depgraph->build(descblock)) {
+        QMetaObject::invokeMethod(this, "abortBuild", Qt::QueuedConnection, Q_ARG(int, 2));
+        return;
+    }
     if (m_makefile->options()->dumpDependencyGraph) {
         if (m_makefile->options()->dumpDependencyGraphDot)
             m_depgraph->dotDump();
@@ -143,7 +146,10 @@ void TargetExecutor::startProcesses()
                 } else {
                     m_depgraph->clear();
                     m_makefile->invalidateTimeStamps();
-                    m_depgraph->build(m_pendingTargets.takeFirst());
+                    if (!m_depgraph->build(m_pendingTargets.takeFirst())) {
+                        abortBuild(2);
+                        return;
+                    }
                     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
                 }
             }
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index c86de31..a5c0931 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -55,6 +55,7 @@ signals:
 
 private slots:
     void startProcesses();
+    void abortBuild(int exitCode);
     void buildNextTarget();
     void onChildFinished(CommandExecutor*, bool commandFailed);
 
@@ -62,7 +63,6 @@ private:
     int numberOfRunningProcesses() const;
     void waitForProcesses();
     void waitForJobClient();
-    void abortBuild(int exitCode);
     void finishBuild(int exitCode);
     void findNextTarget();
 
-- 
2.43.0


From e24005bbe7538dbf205480ea2d5db0dbb1b8d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:07 +0000
Subject: [PATCH 47/48] fix: remove inline files before the next target can use
 their names

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 58c2268..94dd1f1 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -84,7 +84,6 @@ void CommandExecutor::start(DescriptionBlock* target)
         return;
     }
 
-    cleanupTempFiles();
     createTempFiles();
 
     m_ignoreProcessErrors = false;
@@ -135,6 +134,7 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 void CommandExecutor::finishExecution(bool commandFailed)
 {
     m_active = false;
+    cleanupTempFiles();     // the next executor may use the same file names
     emit finished(this, commandFailed);
 }
 
-- 
2.43.0


From b50cb7c624899b539f9234239e091248a34edf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:03 +0000
Subject: [PATCH 48/48] fix: show updated dependents for $? in a dry run

The commands of a dependent are only displayed with /N, so its file still has the old time stamp. A build would update it.
---
 src/jomlib/makefile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index f184713..4e41b7b 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -362,6 +362,12 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 FileTime targetTimeStamp = FastFileInfo(targetName()).lastModified();
                 foreach (const QString& dependentName, dependentCandidates) {
                     FileTime dependentTimeStamp = FastFileInfo(dependentName).lastModified();
+                    if (m_pMakefile->options()->dryRun) {
+                        // The commands of the dependent would have updated it.
+                        const DescriptionBlock *dependent = m_pMakefile->dependentTarget(dependentName);
+                        if (dependent && dependent->m_bFileExists && dependent->m_timeStamp.isValid())
+                            dependentTimeStamp = dependent->m_timeStamp;
+                    }
                     if (targetTimeStamp <= dependentTimeStamp) {
                         results += dependentName;
                     }
-- 
2.43.0

