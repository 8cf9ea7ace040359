From faa65d064d26ee8072df9bfc8e4f5f4913160e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 01/39] fix: keep the bracket string alive while a container is
 written

---
 src/simpleOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index afcec54..ac37b87 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -43,7 +43,7 @@ void SimpleOutput::writePrimitive(const AJSonPrimitive *item, bool prependComma)
 void SimpleOutput::writeContainer(const JSonContainer *item, bool prependComma)
 {
     std::string _indent = getIndent();
-    const char *brackets = item->stringify().c_str();
+    const std::string brackets = item->stringify();
     bool first = true;
 
     out << _indent << (prependComma ? "," : "") << std::string(1, brackets[0]);
-- 
2.43.0


From 187007ce2fead57d7dab55ffccf2a915760aabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 02/39] fix: quote string values of object entries in the plain
 output

---
 src/simpleOutput.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simpleOutput.cpp b/src/simpleOutput.cpp
index ac37b87..414b3e1 100644
--- a/src/simpleOutput.cpp
+++ b/src/simpleOutput.cpp
@@ -22,7 +22,10 @@ void SimpleOutput::writeObjectEntry(const JSonObjectEntry *item, bool prependCom
     }
     else
     {
-        out << (**item)->stringify();
+        if (dynamic_cast<const JSonPrimitive<std::string>*> (**item))
+            out << "\"" << (**item)->stringify() << "\"";
+        else
+            out << (**item)->stringify();
         if (!params.compressed())
             out << std::endl;
     }
-- 
2.43.0


From 666ddc48a08a5e5575bd53121de6fadc7735a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 03/39] fix: reject an object member without value or without
 separator

---
 src/streamConsumer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 2421ec1..f8b0608 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -92,10 +92,14 @@ JSonObject *StreamConsumer::readObject(JSonContainer *parent)
             }
         }
         JSonElement *child = readNext(result);
+        if (child == nullptr)
+            throw JsonNotJsonException(stream.tellg(), history);
         result->push(key->getValue(), child);
         delete keyObj;
         keyObj = consumeToken(result, buf);
-    } while (!keyObj && buf.str() != "}");
+        if (keyObj != nullptr || (buf.str() != "}" && buf.str() != ","))
+            throw JsonUnexpectedException('}', stream.tellg(), history);
+    } while (buf.str() != "}");
     return result;
 }
 
-- 
2.43.0


From 901c25bbfbc4e7d21206cccfa11f51012c649387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 04/39] fix: build the text of parse errors from the offending
 character

---
 src/jsonException.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jsonException.cpp b/src/jsonException.cpp
index 2343e78..e6503bc 100644
--- a/src/jsonException.cpp
+++ b/src/jsonException.cpp
@@ -29,16 +29,17 @@ JsonNotJsonException::JsonNotJsonException(unsigned long long pos, LinearHistory
 { }
 
 JsonEscapedException::JsonEscapedException(char ch, unsigned long long pos, LinearHistory &h):
-    JsonException("unexpected escaped char " +c, pos, h), c(ch)
+    JsonException(std::string("unexpected escaped char ") +ch, pos, h), c(ch)
 { }
 
-JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException("expected " +expected, offset, h)
+JsonUnexpectedException::JsonUnexpectedException(const char expected, unsigned long long offset, LinearHistory &h): JsonException(std::string("expected ") +expected, offset, h)
 { }
 
 std::string JsonHexvalueException::msg(char c)
 {
     std::string what = "invalid hex value '";
-    what += c + '\'';
+    what += c;
+    what += '\'';
     return what;
 }
 
-- 
2.43.0


From a95a17d6ed5aec2172c918cde9f221e2775bdac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 05/39] fix: report numbers without digits or out of range as
 parse errors

---
 src/streamConsumer.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index f8b0608..43f2b8b 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -265,7 +265,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
 
 JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstream &buf, char firstChar)
 {
-    bool numberIsDouble = false;
+    bool numberIsDouble = firstChar == '.';
+    bool hasDigit = firstChar >= '0' && firstChar <= '9';
 
     buf.str("");
     buf.clear();
@@ -277,7 +278,10 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
         history.put(c);
 
         if (c >= '0' && c <= '9')
+        {
+            hasDigit = true;
             buf.write(&c, 1);
+        }
         else if (c == '.' && !numberIsDouble)
         {
             numberIsDouble = true;
@@ -287,6 +291,8 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
         {
             history.pop_back();
             stream.unget();
+            if (!hasDigit)
+                throw JsonFormatException(stream.tellg(), history);
             if (numberIsDouble)
             {
                 try {
@@ -302,7 +308,12 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
             }
             catch(std::out_of_range e)
             {
-                return new JSonPrimitive<long long>(parent, std::stol(buf.str()));
+                try {
+                    return new JSonPrimitive<long long>(parent, std::stol(buf.str()));
+                } catch (std::out_of_range &e)
+                {
+                    throw JsonFormatException(stream.tellg(), history);
+                }
             }
         }
     }
-- 
2.43.0


From 8b6205699891d198fa71eb4194f6bde66011b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 06/39] fix: keep surrogate escapes as they are instead of
 aborting

---
 src/streamConsumer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 43f2b8b..5258307 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -384,6 +384,11 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
 void StreamConsumer::appendUnicode(const char unicode[4], std::stringstream &buf)
 {
     unsigned short uni = hexbyte<unsigned short>(unicode, 4);
+    if (uni >= 0xD800 && uni <= 0xDFFF) // surrogates have no UTF-8 form on their own
+    {
+        buf.write("\\u", 2).write(unicode, 4);
+        return;
+    }
     std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> converter;
     std::string unichar = converter.to_bytes(uni);
     buf.write(unichar.c_str(), unichar.size());
-- 
2.43.0


From a0ff9c508087947adc1fc24c3c780faf4a5c122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:21 +0000
Subject: [PATCH 07/39] fix: report parse errors without any text read on the
 line

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 0bd256c..2592d3f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -23,7 +23,7 @@ void displayException(const std::string &filename, const Params &params, const s
     const std::string buffer = e.getHistory();
 
     std::cerr << params.getProgName() << ": " << filename << " [" << type << "] at line " << e.currentLine() << ", col " << e.currentCol() << " ("  << e.what() << ") while reading" << std::endl;
-    std::cerr << buffer << std::endl << std::string(buffer.size() -1, '~') << '^' << std::endl;
+    std::cerr << buffer << std::endl << std::string(buffer.empty() ? 0 : buffer.size() -1, '~') << '^' << std::endl;
 }
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
-- 
2.43.0


From fc3aadd3dcbbabb4044bd65e979fc88769821b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 08/39] fix: release the reader when an input cannot be read

---
 src/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 2592d3f..bbf3a94 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -5,6 +5,7 @@
 **/
 
 #include <iostream>
+#include <memory>
 #include <sstream>
 #include <sys/types.h>
 #include <sys/wait.h>
@@ -28,13 +29,13 @@ void displayException(const std::string &filename, const Params &params, const s
 
 StreamConsumer *readFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params)
 {
-    StreamConsumer *stream = new StreamConsumer(*(input.second));
+    std::unique_ptr<StreamConsumer> stream(new StreamConsumer(*(input.second)));
     stream->withConfig(&params);
 
     stream->read();
     if (!stream->getRoot())
         throw EofException();
-    return stream;
+    return stream.release();
 }
 
 StreamConsumer *readOneFile(std::pair<std::string, std::basic_istream<char>*> input, const Params &params, std::deque<Warning> &warns)
-- 
2.43.0


From ef498db5acfa15fd4a24a18057feb416f24a6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 09/39] fix: end the child when the external diff cannot be
 executed

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index bbf3a94..56200db 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -115,7 +115,11 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     if (fk == -1)
         return inputsFilenames;
     else if (fk == 0)
+    {
         execvp(*av, av);
+        std::cerr << p.getProgName() << ": cannot execute " << *av << std::endl;
+        _exit(EXIT_FAILURE);
+    }
     // Wait for child to terminate
     do {
         waitpid(fk, &status, 0);
-- 
2.43.0


From 184a1e3f0880d6bf8ea0886e6194ccdf52b0bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 10/39] fix: stop waiting for an external diff that was killed

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 56200db..041ba10 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -123,7 +123,7 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
     // Wait for child to terminate
     do {
         waitpid(fk, &status, 0);
-    } while (!WIFEXITED(status));
+    } while (!WIFEXITED(status) && !WIFSIGNALED(status));
     return inputsFilenames;
 }
 
-- 
2.43.0


From 3e5242b0dcee448a59572ea7be4b3bf454ded6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 11/39] fix: write every input of an external diff to a file of
 its own

---
 src/main.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 041ba10..bfdfc42 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -10,6 +10,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <stdlib.h>
 #include <locale.h>
 #include "curseSimpleOutput.hh"
 #include "curseSplitOutput.hh"
@@ -67,17 +68,19 @@ StreamConsumer *readOneFile(std::pair<std::string, std::basic_istream<char>*> in
 
 std::ofstream getOutputFile(const std::string iname, std::string &outfile)
 {
-    unsigned long long hash = DiffCmd::hashString(iname);
-    unsigned int i = 0;
-    std::ofstream fout;
     std::stringstream ss;
+    std::ofstream fout;
 
-    do {
-        ss = std::stringstream("");
-        ss << "/tmp/jsondifftmp" << hash << '.' << i << ".tmp";
-        outfile = ss.str();
-        fout.open(outfile);
-    } while (!fout.is_open() && i  < 1000);
+    ss << "/tmp/jsondifftmp" << DiffCmd::hashString(iname) << ".XXXXXX";
+    outfile = ss.str();
+    const int fd = mkstemp(&outfile[0]);
+    if (fd == -1)
+    {
+        outfile.clear();
+        return fout;
+    }
+    fout.open(outfile);
+    close(fd);
     return fout;
 }
 
@@ -98,7 +101,14 @@ std::deque<std::string> doRunExternalDiff(const Params &p)
         if (!stream)
             return inputsFilenames;
         std::ofstream fout = getOutputFile(input.first, fname);
-        inputsFilenames.push_back(fname);
+        if (!fname.empty())
+            inputsFilenames.push_back(fname);
+        if (!fout.is_open())
+        {
+            std::cerr << p.getProgName() << ": " << input.first << " cannot write temporary file" << std::endl;
+            delete stream;
+            return inputsFilenames;
+        }
         SimpleOutput::display(fout, stream->getRoot(), p);
         delete stream;
     }
-- 
2.43.0


From 6dcff0599a0830ed7691e1f9cdada7728e962281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 12/39] fix: start counting columns at zero

---
 include/wrappedBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wrappedBuffer.hpp b/include/wrappedBuffer.hpp
index 11d5897..939ce35 100644
--- a/include/wrappedBuffer.hpp
+++ b/include/wrappedBuffer.hpp
@@ -60,7 +60,7 @@ class WrappedBuffer
 };
 
 template<typename T, int SIZE>
-WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1)
+WrappedBuffer<T, SIZE>::WrappedBuffer(): curR(0), curW(-1), written(0)
 { }
 
 template<typename T, int SIZE>
-- 
2.43.0


From 6eeaacbe46c9cb5a3d65278344ecd0195f4a1efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 13/39] fix: count a line once when its end is handed back by
 the lexer

---
 include/linearHistory.hh | 6 ++++++
 src/linearHistory.cpp    | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/linearHistory.hh b/include/linearHistory.hh
index 457b0c5..eeb2f97 100644
--- a/include/linearHistory.hh
+++ b/include/linearHistory.hh
@@ -27,6 +27,12 @@ class LinearHistory: public WrappedBuffer<char, ERROR_HISTORY_LEN>
         void put(char item);
         void put(char item[], unsigned int count);
 
+        /**
+         * Remove last inserted char
+         * If it was a new-line, current line goes on
+        **/
+        void pop_back();
+
     private:
         /**
          * True if new line found, and should reset at new put
diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 93f8dae..7e22244 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -29,6 +29,14 @@ void LinearHistory::put(char item)
         WrappedBuffer<char, ERROR_HISTORY_LEN>::put(item);
 }
 
+void LinearHistory::pop_back()
+{
+    if (willReset)
+        willReset = false;
+    else
+        WrappedBuffer<char, ERROR_HISTORY_LEN>::pop_back();
+}
+
 void LinearHistory::put(char items[], unsigned int count)
 {
     if (willReset)
-- 
2.43.0


From 330d0fd679c6acd8fb5e659702bd7634b2dfed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 14/39] fix: do not read past the items put into the history

---
 src/linearHistory.cpp | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 7e22244..9657155 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -39,29 +39,7 @@ void LinearHistory::pop_back()
 
 void LinearHistory::put(char items[], unsigned int count)
 {
-    if (willReset)
-    {
-        reset();
-        line++;
-        willReset = false;
-    }
     for (unsigned int i=0; i < count; ++i)
-    {
-        if (items[i] == '\n')
-        {
-            if (i < count -1)
-            {
-                willReset = true;
-                put(&items[i +1], count -i);
-                return;
-            }
-            else
-            {
-                willReset = true;
-                return;
-            }
-        }
-    }
-    WrappedBuffer<char, ERROR_HISTORY_LEN>::put(items, count);
+        put(items[i]);
 }
 
-- 
2.43.0


From 1e267d29fb040a1099f657a1378c1c2836c502b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 15/39] fix: count lines that end with CR LF once

---
 include/linearHistory.hh | 4 ++++
 src/linearHistory.cpp    | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/linearHistory.hh b/include/linearHistory.hh
index eeb2f97..41fcccb 100644
--- a/include/linearHistory.hh
+++ b/include/linearHistory.hh
@@ -38,6 +38,10 @@ class LinearHistory: public WrappedBuffer<char, ERROR_HISTORY_LEN>
          * True if new line found, and should reset at new put
         **/
         bool willReset;
+        /**
+         * True if the last item is a carriage return, which may be followed by its line feed
+        **/
+        bool carriageReturn;
         /**
          * Current line
         **/
diff --git a/src/linearHistory.cpp b/src/linearHistory.cpp
index 9657155..8a3779d 100644
--- a/src/linearHistory.cpp
+++ b/src/linearHistory.cpp
@@ -6,7 +6,7 @@
 
 #include "linearHistory.hh"
 
-LinearHistory::LinearHistory(): willReset(false), line(1)
+LinearHistory::LinearHistory(): willReset(false), carriageReturn(false), line(1)
 { }
 
 LinearHistory::~LinearHistory()
@@ -17,6 +17,11 @@ unsigned int LinearHistory::currentLine() const
 
 void LinearHistory::put(char item)
 {
+    const bool lineFeedOfCrLf = willReset && carriageReturn && item == '\n';
+
+    carriageReturn = (item == '\r');
+    if (lineFeedOfCrLf)
+        return;
     if (willReset)
     {
         reset();
-- 
2.43.0


From 04b3eb7cf8049f29eb3eb96ea4e77efd0b332fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 16/39] fix: keep the end of the input out of the history

---
 src/streamConsumer.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index 5258307..f968955 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -148,7 +148,8 @@ JSonElement *StreamConsumer::consumeString(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
-        history.put(c);
+        if (stream.good())
+            history.put(c);
 
         if (!escaped)
         {
@@ -225,7 +226,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
     {
         const char c = stream.get();
         const char cLower = std::tolower(c);
-        history.put(c);
+        if (stream.good())
+            history.put(c);
 
         if (cLower == 'a' || cLower == 'e' || cLower == 'l' || cLower == 'r' || cLower == 's' || cLower == 'u')
         {
@@ -241,7 +243,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
+            if (stream.good())
+                history.pop_back();
             stream.unget();
             return new JSonPrimitive<bool>(parent, true);
         }
@@ -249,7 +252,8 @@ JSonElement *StreamConsumer::consumeBool(JSonContainer *parent, std::stringstrea
         {
             if (buf.str() != rawInput)
                 warnings.push_back(Warning(JsonFormatException(stream.tellg(), history)));
-            history.pop_back();
+            if (stream.good())
+                history.pop_back();
             stream.unget();
             return new JSonPrimitive<bool>(parent, false);
         }
@@ -275,7 +279,8 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
     while (stream.good())
     {
         char c = stream.get();
-        history.put(c);
+        if (stream.good())
+            history.put(c);
 
         if (c >= '0' && c <= '9')
         {
@@ -289,7 +294,8 @@ JSonElement *StreamConsumer::consumeNumber(JSonContainer *parent, std::stringstr
         }
         else
         {
-            history.pop_back();
+            if (stream.good())
+                history.pop_back();
             stream.unget();
             if (!hasDigit)
                 throw JsonFormatException(stream.tellg(), history);
@@ -332,7 +338,7 @@ JSonElement *StreamConsumer::consumeNull(JSonContainer *parent, std::stringstrea
 
     stream.read(&_buf[1], 3);
     buf.write(_buf, 4);
-    history.put(&_buf[1], 3);
+    history.put(&_buf[1], stream.gcount());
     if (!stream.good())
     {
         buf.str("");
@@ -355,7 +361,8 @@ JSonElement *StreamConsumer::consumeToken(JSonContainer *parent, std::stringstre
     while (stream.good())
     {
         char c = stream.get();
-        history.put(c);
+        if (stream.good())
+            history.put(c);
 
         //!InString, !inbool
         if (c == '"')
-- 
2.43.0


From e04c7736cd55b12baba0d06322794df0ca8ed796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 17/39] fix: initialise the members of the split view that
 init() and shutdown() use

---
 src/curseSplitOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 873a493..212f659 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -24,7 +24,7 @@ template<class T> static const T &list_at(const std::list<T> &l, unsigned int po
     return *it;
 }
 
-CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p)
+CurseSplitOutput::CurseSplitOutput(const Params &p): CurseOutput(p), nbInputs(1), selectedWin(0), workingWin(0), bottomLine(nullptr)
 {
     diffMatrice = nullptr;
     init();
-- 
2.43.0


From a47d268e84ea22a567706f8317e4642641d2adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 18/39] fix: draw the mark of a difference on the row of its
 text when the view is scrolled

---
 src/curseSplitOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 212f659..ca3412b 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -778,7 +778,7 @@ unsigned int CurseSplitOutput::write(const unsigned int &x, const unsigned int &
 
     if (y <= w.scrollTop)
         return 1;
-    displayDiffOp(currentWin, y, flags.diffOp());
+    displayDiffOp(currentWin, y - w.scrollTop, flags.diffOp());
     wmove(subWindows.at(workingWin).innerWin, y - w.scrollTop, x);
     write(str, flags);
     return getNbLines(strlen +x, maxWidth);
-- 
2.43.0


From 62365c15f65a661bf2464f961ee163fe43bfecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 19/39] fix: stop waiting for keys when a signal asked the
 program to stop

---
 include/inputSequence.hh | 6 +++++-
 src/curseOutput.cpp      | 2 +-
 src/inputSequence.cpp    | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/inputSequence.hh b/include/inputSequence.hh
index 8759f3e..7483cab 100644
--- a/include/inputSequence.hh
+++ b/include/inputSequence.hh
@@ -11,7 +11,11 @@ class InputSequence
     public:
         ~InputSequence();
 
-        static InputSequence read(WINDOW *);
+        /**
+         * Wait for a complete sequence of keys
+         * @param abort set by signals, stop waiting as soon as it is true
+        **/
+        static InputSequence read(WINDOW *, const bool &abort);
 
         const std::string &key() const;
 
diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 5e6a104..e45d0ab 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -107,7 +107,7 @@ inputResult CurseOutput::readInput(WINDOW *w)
 {
     while (!breakLoop)
     {
-        inputResult r = evalKey(InputSequence::read(w));
+        inputResult r = evalKey(InputSequence::read(w, breakLoop));
         if (r != inputResult::nextInput)
             return r;
     }
diff --git a/src/inputSequence.cpp b/src/inputSequence.cpp
index 6efeadf..397f393 100644
--- a/src/inputSequence.cpp
+++ b/src/inputSequence.cpp
@@ -10,7 +10,7 @@ InputSequence::InputSequence(const InputSequence &o): seq(o.seq)
 InputSequence::~InputSequence()
 { }
 
-InputSequence InputSequence::read(WINDOW *w)
+InputSequence InputSequence::read(WINDOW *w, const bool &abort)
 {
     InputSequence result;
     const char *kname = nullptr;
@@ -27,7 +27,7 @@ InputSequence InputSequence::read(WINDOW *w)
         if (!result.seq.empty())
             result.seq += "-";
         result.seq += kname;
-    }   while (!kname || *kname == '^');
+    }   while (!abort && (!kname || *kname == '^'));
     return result;
 }
 
-- 
2.43.0


From 032613e6a9c912b99688e1abd8c4589f116e6bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 20/39] fix: let the split view notice signals while it waits
 for keys

---
 src/curseSplitOutput.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index ca3412b..49606c2 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -62,6 +62,7 @@ void CurseSplitOutput::run(const std::deque<std::string> &inputName, const std::
         subwin.outerWin = newwin(screenSize.second +2, screenSize.first, 0, i * (screenSize.first -1));
         subwin.innerWin = newwin(screenSize.second, screenSize.first -2, 1, i * (screenSize.first -1) +1);
         keypad(subwin.outerWin, true);
+        wtimeout(subwin.outerWin, 150);
         subWindows.push_back(subwin);
         box(subwin.outerWin, 0, 0);
         wrefresh(subwin.outerWin);
-- 
2.43.0


From 36db0046843d529ad5948e8a80e1e349baf8dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:07 +0000
Subject: [PATCH 21/39] fix: keep the results of a search with the window they
 belong to

---
 src/curseSplitOutput.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 49606c2..98c9e5f 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -313,8 +313,12 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern)
 {
     unsigned int result =0;
 
+    workingWin = 0;
     for (t_subWindow &w : subWindows)
+    {
         result += search(searchPattern, w.root);
+        ++workingWin;
+    }
     return result;
 }
 
@@ -334,14 +338,14 @@ unsigned int CurseSplitOutput::search(const SearchPattern &searchPattern, const
         if (current && current->match(searchPattern))
         {
             if (current->getParent() && dynamic_cast<const JSonObjectEntry*>(current->getParent()))
-                subWindows.at(selectedWin).searchResults.push_back(current->getParent());
+                subWindows.at(workingWin).searchResults.push_back(current->getParent());
             else
-                subWindows.at(selectedWin).searchResults.push_back(current);
+                subWindows.at(workingWin).searchResults.push_back(current);
         }
         if (objEntry)
             search(searchPattern, **objEntry);
     }
-    return subWindows.at(selectedWin).searchResults.size();
+    return subWindows.at(workingWin).searchResults.size();
 }
 
 bool CurseSplitOutput::jumpToNextSearch()
@@ -872,9 +876,9 @@ const OutputFlag CurseSplitOutput::getFlag(const JSonElement *item, const JSonEl
 
     res.selected(item == selection
             || (item->getParent() && dynamic_cast<const JSonObjectEntry*>(item->getParent()) && selection == item->getParent()));
-    res.searched(std::find(subWindows.at(selectedWin).searchResults.cbegin(),
-                subWindows.at(selectedWin).searchResults.cend(),
-                item) != subWindows.at(selectedWin).searchResults.cend());
+    res.searched(std::find(subWindows.at(workingWin).searchResults.cbegin(),
+                subWindows.at(workingWin).searchResults.cend(),
+                item) != subWindows.at(workingWin).searchResults.cend());
 
     try {
         res.diffOp(diffMatrice->get(item));
-- 
2.43.0


From a0a60478617b36527edd396dea0968c990cd56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 22/39] fix: draw the view completely when a message is shown

---
 src/curseOutput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index e45d0ab..47372ca 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -157,10 +157,10 @@ inputResult CurseOutput::evalKey(const InputSequence &c)
 
 bool CurseOutput::redraw(const std::string &errorMsg)
 {
-    bool result = redraw();
+    while (!redraw());
 
     writeBottomLine(errorMsg, OutputFlag::SPECIAL_ERROR);
-    return result;
+    return true;
 }
 
 unsigned int CurseOutput::write(const int &x, const int &y, JSonElement *item, unsigned int maxWidth, OutputFlag flags)
-- 
2.43.0


From 3c82deac495d43c2683a9bfde6662d0b7bcfd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 23/39] fix: search every kind of value unless one is asked for

---
 src/searchPattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 62db98d..dd0a86a 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -6,7 +6,7 @@
 #include "jsonObjectEntry.hh"
 #include "jsonPrimitive.hh"
 
-SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0)
+SearchPattern::SearchPattern(const std::string &input): regex(nullptr), flags(0), typeFlag(0)
 {
     size_t pos = 0;
     bool escaped = false;
-- 
2.43.0


From 49cdac7a31911201f010673f20e40bb56920fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 24/39] fix: do not end the program when the regular expression
 searched for is invalid

---
 src/searchPattern.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index dd0a86a..ad2f7a3 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -73,7 +73,12 @@ void SearchPattern::evalFlags(const char *s)
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
         if (flags & FLAG_CASE)
             opts |= std::regex_constants::icase;
-        regex = new std::regex(pattern, opts);
+        try {
+            regex = new std::regex(pattern, opts);
+        }
+        catch (const std::regex_error &) {
+            regex = nullptr; // matches nothing
+        }
     }
 }
 
@@ -106,7 +111,7 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
             return false;
     }
     if (flags & FLAG_REGEX)
-        return regex_search(str, *regex);
+        return regex && regex_search(str, *regex);
     if ((flags & FLAG_WHOLESTR && str.length() != pattern.length())
             || pattern.length() > str.length())
         return false;
-- 
2.43.0


From 02a3da0d58d7c4b36f2d1ddf373243288e462e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 25/39] fix: do not change the classes of a regular expression
 searched for without regard to case

---
 src/searchPattern.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index ad2f7a3..39785c8 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -48,10 +48,7 @@ void SearchPattern::evalFlags(const char *s)
     while (*s)
     {
         if (*s == 'i')
-        {
             flags |= SearchPattern::FLAG_CASE;
-            std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
-        }
         else if (*s == 'w')
             flags |= SearchPattern::FLAG_WHOLEWORD;
         else if (*s == 'f')
@@ -68,6 +65,8 @@ void SearchPattern::evalFlags(const char *s)
             typeFlag = SearchPattern::TYPE_OBJKEY;
         s++;
     }
+    if (flags & SearchPattern::FLAG_CASE && !(flags & SearchPattern::FLAG_REGEX))
+        std::transform(pattern.begin(), pattern.end(), pattern.begin(), ::tolower);
     if (!regex && flags & SearchPattern::FLAG_REGEX)
     {
         std::regex_constants::syntax_option_type opts = std::regex_constants::ECMAScript;
-- 
2.43.0


From c046b79393b02b9c0fc269dfef1ced07ac854ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 26/39] fix: find whole words at the start and at the end of a
 text

---
 src/searchPattern.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/searchPattern.cpp b/src/searchPattern.cpp
index 39785c8..20a30e1 100644
--- a/src/searchPattern.cpp
+++ b/src/searchPattern.cpp
@@ -116,8 +116,9 @@ bool SearchPattern::match(const std::string &str, const JSonElement *type) const
         return false;
     if (flags & FLAG_WHOLEWORD && str.length() > pattern.length())
     {
+        const std::string text = ' ' +str +' ';
         std::string pattern = " " +this->pattern +' ';
-        return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
+        return std::search(text.begin(), text.end(), pattern.begin(), pattern.end(), *this) != text.end();
     }
     return std::search(str.begin(), str.end(), pattern.begin(), pattern.end(), *this) != str.end();
 }
-- 
2.43.0


From d715a86012cbd2761dde454d2839d8a96abbaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 27/39] fix: keep what follows an escaped character of a search
 text

---
 src/streamConsumer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/streamConsumer.cpp b/src/streamConsumer.cpp
index f968955..66eb0b8 100644
--- a/src/streamConsumer.cpp
+++ b/src/streamConsumer.cpp
@@ -409,8 +409,13 @@ std::string StreamConsumer::extractUnicode(const char *buf)
     {
         if (*buf == '\\' && buf[1] == 'u' && buf[2] && buf[3] && buf[4] && buf[5])
         {
-            appendUnicode(buf +2, result);
-            buf += 6;
+            try {
+                appendUnicode(buf +2, result);
+                buf += 5;
+            }
+            catch (const std::invalid_argument &) { // no hexadecimal number
+                result.write(buf, 1);
+            }
         }
         else
             result.write(buf, 1);
-- 
2.43.0


From f4f14c1589c373a72831059455198a010203a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:51 +0000
Subject: [PATCH 28/39] fix: search for the text that was typed, whatever its
 characters and length

---
 src/curseOutput.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 47372ca..6705049 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -203,7 +203,7 @@ void CurseOutput::unfold(const JSonElement *item)
 
 const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
 {
-    std::wstring buffer;
+    std::string buffer;
     bool abort = false;
     if (!w)
         w = stdscr;
@@ -214,34 +214,28 @@ const SearchPattern *CurseOutput::inputSearch(WINDOW *w)
     {
         int c;
 
-        writeBottomLine(L'/' +buffer, OutputFlag::SPECIAL_SEARCH);
+        writeBottomLine('/' +buffer, OutputFlag::SPECIAL_SEARCH);
         c = wgetch(w);
         if (c == L'\n' || c == L'\r')
             break;
-        else if (c == L'\b' || c == 127)
+        else if (c == L'\b' || c == 127 || c == KEY_BACKSPACE)
         {
+            while (!buffer.empty() && (buffer.back() & 0xC0) == 0x80) // bytes of a character
+                buffer.pop_back();
             if (!buffer.empty())
                 buffer.pop_back();
         }
         else if (c == 27)
             abort = true;
-        else
+        else if (c > 0 && c <= 255)
             buffer += c;
     }
     wtimeout(w, 150);
     curs_set(false);
 
-    {
-        const size_t size = buffer.size();
-        char bytesString[size * sizeof(wchar_t)];
-        wcstombs(&bytesString[0], buffer.c_str(), sizeof(bytesString));
-        std::string str;
-        if (params.isIgnoringUnicode())
-            str = bytesString;
-        else
-            str = StreamConsumer::extractUnicode(bytesString);
-        return abort ? nullptr : new SearchPattern(str);
-    }
+    if (abort)
+        return nullptr;
+    return new SearchPattern(params.isIgnoringUnicode() ? buffer : StreamConsumer::extractUnicode(buffer));
 }
 
 void CurseOutput::writeTopLine(const std::string &buffer, short color) const
-- 
2.43.0


From 35549da3cb878c6aaf6a0a468adca49ab42d2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 29/39] fix: go on after the last element of a container that
 is the value of a member

---
 src/jsonElement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index 9c5572f..a156d9f 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -86,8 +86,10 @@ const JSonElement* JSonElement::findNext() const
 {
     const JSonElement *item = this;
     const JSonElement *parent = item->getParent();
-    if (parent == nullptr || !dynamic_cast<const JSonContainer*>(parent))
+    if (parent == nullptr)
         return nullptr; // Root node, can't have brothers
+    if (!dynamic_cast<const JSonContainer*>(parent))
+        return parent->findNext(); // Value of an object entry
     JSonContainer::const_iterator it = ((const JSonContainer*)parent)->cbegin();
     while (it != ((const JSonContainer*)parent)->cend())
     {
-- 
2.43.0


From abb7be3c2e3ee2253e0943fd5f5c7d8ac65533df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 30/39] fix: go down into the container of a member that is
 last on the screen

---
 src/curseSimpleOutput.cpp | 3 ++-
 src/curseSplitOutput.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curseSimpleOutput.cpp b/src/curseSimpleOutput.cpp
index f0d0623..552685c 100644
--- a/src/curseSimpleOutput.cpp
+++ b/src/curseSimpleOutput.cpp
@@ -60,7 +60,8 @@ bool CurseSimpleOutput::redraw()
         selectIsLast = true;
     if (!select_down)
     {
-        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(selection);
+        const JSonObjectEntry *eselect = dynamic_cast<const JSonObjectEntry*>(selection);
+        const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(eselect ? **eselect : selection);
         if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
             select_down = *(pselect->cbegin());
         else
diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 98c9e5f..2b6c67d 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -392,7 +392,8 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
         }
         if (!w.select_down)
         {
-            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(w.selection);
+            const JSonObjectEntry *eselect = dynamic_cast<const JSonObjectEntry*>(w.lastSelection);
+            const JSonContainer *pselect = dynamic_cast<const JSonContainer*>(eselect ? **eselect : w.lastSelection);
             if (pselect && !pselect->empty() && collapsed.find(pselect) == collapsed.cend())
                 w.select_down = *(pselect->cbegin());
             else
-- 
2.43.0


From 731f6d747bc270dc91223b2628764579f84c7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 31/39] fix: mark what only the other document has in the row
 where it is shown

---
 src/curseSplitOutput.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 2b6c67d..105022a 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -482,8 +482,9 @@ bool CurseSplitOutput::redraw()
 
                 for (t_subWindow &wi: subWindows)
                     if (i++ != workingWin)
-                        for (unsigned int j = 0; j < diffY; ++j)
-                            displayDiffOp(wi.innerWin, (wi.cursor.second)++, eLevenshteinOperator::rem);
+                        for (unsigned int j = 0; j < diffY; ++j, ++(wi.cursor.second))
+                            if (wi.cursor.second > wi.scrollTop)
+                                displayDiffOp(wi.innerWin, wi.cursor.second - wi.scrollTop, eLevenshteinOperator::rem);
                 restart = true;
 
                 break;
-- 
2.43.0


From cf6271afd9a03f72c3321d3fc07b8a570921018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:37 +0000
Subject: [PATCH 32/39] fix: keep the selection of a comparison in view below
 what only the other document has

---
 src/curseSplitOutput.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/curseSplitOutput.cpp b/src/curseSplitOutput.cpp
index 105022a..918dacb 100644
--- a/src/curseSplitOutput.cpp
+++ b/src/curseSplitOutput.cpp
@@ -368,6 +368,12 @@ const Optional<bool> CurseSplitOutput::redrawOneItemToWorkingWin(t_subWindow &w)
 {
     bool result;
 
+    // The other document may have filled the rest of the view
+    if (!w.selectFound && hasReachedBottom(w.cursor.second, w.scrollTop, screenSize.second))
+    {
+        w.scrollTop++;
+        return Optional<bool>::empty;
+    }
     try {
         if (w.parentsIterators.empty())
             result = redraw(w, w.root);
-- 
2.43.0


From 581624fb57159ed688f3a4fd4443952b07d0f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:58 +0000
Subject: [PATCH 33/39] fix: compare two empty containers without dividing by
 zero

---
 include/levenshteinMatrice.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index c341f69..ccab49e 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -68,6 +68,13 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                 const size_t n, const size_t m)
         {
             LevenshteinMatrice *result = new LevenshteinMatrice();
+            if (!n && !m)
+            {
+                result->levenDist = 0;
+                result->levenRelativeDist = 1.f;
+                return result;
+            }
+
             size_t i, j;
             JSonContainer::const_iterator a = aBegin;
             JSonContainer::const_iterator b;
-- 
2.43.0


From e3b9898f9c3325089ec1eb5cfd87bc6b9fc7a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:05 +0000
Subject: [PATCH 34/39] fix: do not take containers for similar when they
 differ more than they are long

---
 include/levenshteinMatrice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index ccab49e..bcc757a 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -120,7 +120,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
             }
 
             result->levenDist = matrice[n][m];
-            result->levenRelativeDist = 1 -(matrice[n][m] / std::max(n, m));
+            result->levenRelativeDist = 1.f -(matrice[n][m] / std::max(n, m));
             if (result->levenRelativeDist > LEVENSHTEIN_SENSIBILITY)
                 result->shortestPath<T>(matrice, subMatrice, n, m, --a, --b);
             cleanMatrice(matrice, subMatrice, n, m);
-- 
2.43.0


From b209d3d13614ff4a39b43693b28f7ea3b541aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:13 +0000
Subject: [PATCH 35/39] fix: do not truncate the cost of replacing an element
 by a long container

---
 include/levenshteinMatrice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/levenshteinMatrice.hpp b/include/levenshteinMatrice.hpp
index bcc757a..64205ce 100644
--- a/include/levenshteinMatrice.hpp
+++ b/include/levenshteinMatrice.hpp
@@ -104,7 +104,7 @@ class LevenshteinMatrice: public LevenshteinMatrice_base
                     LevenshteinMatrice_base *_subMatrice = matriceBuilder.build(*a, *b);
                     if (_subMatrice != nullptr)
                     {
-                        const T chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
+                        const size_t chCost = matrice[i -1][j -1] + (_subMatrice->areSimilar() ? 0 : _subMatrice->result());
 
                         if (chCost <= matrice[i -1][j] +1 &&
                                 chCost <= matrice[i][j -1] +1)
-- 
2.43.0


From edfb75d32fd89553d00c48fb694049a8f2d8148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:16 +0000
Subject: [PATCH 36/39] fix: choose cells that can hold the distance between
 two long containers

---
 src/levenshtein.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/levenshtein.cpp b/src/levenshtein.cpp
index 5ad378e..10328a1 100644
--- a/src/levenshtein.cpp
+++ b/src/levenshtein.cpp
@@ -61,9 +61,9 @@ LevenshteinMatrice_base *LevenshteinMatrice_base::Builder::build(const JSonEleme
 
         LevenshteinMatrice *result = nullptr;
 
-        if (lenA < UCHAR_MAX && lenB < UCHAR_MAX)
+        if (lenA + lenB < UCHAR_MAX)
             result = LevenshteinMatrice::build<unsigned char>(aBegin, bBegin, lenA, lenB);
-        else if (lenA < USHRT_MAX && lenB < USHRT_MAX)
+        else if (lenA + lenB < USHRT_MAX)
             result = LevenshteinMatrice::build<unsigned short>(aBegin, bBegin, lenA, lenB);
         else
             result = LevenshteinMatrice::build<unsigned int>(aBegin, bBegin, lenA, lenB);
-- 
2.43.0


From f198270acc22f159ac375afcda44e36e53e03265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 37/39] fix: count the characters of a text without writing
 past a buffer

---
 src/jsonElement.cpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/jsonElement.cpp b/src/jsonElement.cpp
index a156d9f..5b3fed0 100644
--- a/src/jsonElement.cpp
+++ b/src/jsonElement.cpp
@@ -23,14 +23,7 @@ void JSonElement::setParent(JSonElement *p)
 
 size_t JSonElement::lazystrlen()
 {
-    if (_strlen)
-        return _strlen;
-    const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbstowcs(wbuf, buf.c_str(), buf.size() * sizeof(wchar_t));
-    return _strlen = wcslen(wbuf);
+    return _strlen = strlen();
 }
 
 size_t JSonElement::strlen() const
@@ -38,11 +31,8 @@ size_t JSonElement::strlen() const
     if (_strlen)
         return _strlen;
     const std::string buf = stringify();
-    if (!buf.size())
-        return _strlen;
-    wchar_t wbuf[buf.size()];
-    mbtowc(wbuf, buf.c_str(), buf.size());
-    return wcslen(wbuf);
+    const size_t len = mbstowcs(nullptr, buf.c_str(), 0);
+    return len == (size_t) -1 ? buf.size() : len;
 }
 
 unsigned int JSonElement::getLevel() const
-- 
2.43.0


From a20ae1b146917c81d7440f0f9d84984bfc6ea56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 38/39] fix: end with a message when the terminal cannot be
 used

---
 src/curseOutput.cpp | 9 +++++++++
 src/main.cpp        | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/curseOutput.cpp b/src/curseOutput.cpp
index 6705049..d5f294e 100644
--- a/src/curseOutput.cpp
+++ b/src/curseOutput.cpp
@@ -283,6 +283,8 @@ void CurseOutput::init()
     if (!isatty(fileno(stdin)) || !isatty(fileno(stdout))) //TODO remove after v1.2 and #29
     {
         screen_fd = fopen("/dev/tty", "r+");
+        if (!screen_fd)
+            throw std::runtime_error("cannot open the terminal");
         setbuf(screen_fd, nullptr);
         screen = newterm(nullptr, screen_fd, screen_fd);
     }
@@ -291,6 +293,13 @@ void CurseOutput::init()
         screen = newterm(nullptr, stdout, stdin);
         screen_fd = nullptr;
     }
+    if (!screen)
+    {
+        if (screen_fd)
+            fclose(screen_fd);
+        screen_fd = nullptr;
+        throw std::runtime_error("cannot initialize the terminal");
+    }
     wtimeout(stdscr, 150);
     cbreak();
     clear();
diff --git a/src/main.cpp b/src/main.cpp
index bfdfc42..66a3131 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -242,7 +242,7 @@ int main(int ac, char **av)
         exit (EXIT_FAILURE);
     }
 
-    if (_run)
+    if (_run) try
     {
         if (!params->isIgnoringUnicode())
             setlocale(LC_ALL, "");
@@ -258,6 +258,12 @@ int main(int ac, char **av)
                 runStdout(*params);
         }
     }
+    catch (std::runtime_error &e)
+    {
+        std::cerr << *av << ": " << e.what() << std::endl;
+        delete params;
+        return EXIT_FAILURE;
+    }
     delete params;
     return 0;
 }
-- 
2.43.0


From 6b15966fcc0fa808c4ff6cbaabe3a431b24ef490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:49 +0000
Subject: [PATCH 39/39] fix: report malformed inputs while no view is on the
 screen

---
 src/main.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 66a3131..ae6cd2a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -205,7 +205,6 @@ void runStdout(const Params &params)
 void run(const Params &params)
 {
     IndexedDeque inputs = params.getInputs();
-    CurseSimpleOutput *out = new CurseSimpleOutput(params);
     std::deque<Warning> warns;
 
     for (std::pair<std::string, std::basic_istream<char>*> input : inputs)
@@ -213,11 +212,12 @@ void run(const Params &params)
         StreamConsumer *stream = readOneFile(input, params, warns);
         if (!stream)
             break;
-        out->run(stream->getRoot(), input.first);
+        {
+            CurseSimpleOutput out(params);
+            out.run(stream->getRoot(), input.first);
+        }
         delete stream;
     }
-    if (out)
-        delete out;
     for (Warning w : warns)
     {
         std::cerr << "Warning: ";
-- 
2.43.0

