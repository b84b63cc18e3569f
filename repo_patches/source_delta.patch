From 86a19e3ac45e8ce9a87528687d72213c7a8983ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 01/97] fix: keep inline declaration alive while the RIB writer
 prints it

printParamList() took c_str() of a temporary string, so the token printed for
every inline declaration was read from freed memory.
---
 libs/riutil/ribwriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/ribwriter.cpp b/libs/riutil/ribwriter.cpp
index 8e8671e..e57f473 100644
--- a/libs/riutil/ribwriter.cpp
+++ b/libs/riutil/ribwriter.cpp
@@ -631,12 +631,14 @@ class RibWriter : public Ri::Renderer
                 catch(XqValidation&)
                 { }
                 const char* token = param.name();
-                std::ostringstream fmt;
+                std::string inlineDecl;
                 if(useInlineDecl)
                 {
                     // Format inline declarations.
+                    std::ostringstream fmt;
                     fmt << CqPrimvarToken(param.spec(), param.name());
-                    token = fmt.str().c_str();
+                    inlineDecl = fmt.str();
+                    token = inlineDecl.c_str();
                 }
                 switch(param.spec().storageType())
                 {
-- 
2.43.0


From 767ed263e02cfa0cf8f62787f12accf95f0bf9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:06 +0000
Subject: [PATCH 02/97] fix: do not overflow int when tokenizing long numbers
 in RIB

Integers outside the range of int are read as floats; INT_MIN is read exactly.
---
 libs/riutil/ribtokenizer.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/libs/riutil/ribtokenizer.cpp b/libs/riutil/ribtokenizer.cpp
index 684adcb..4b36809 100644
--- a/libs/riutil/ribtokenizer.cpp
+++ b/libs/riutil/ribtokenizer.cpp
@@ -359,7 +359,11 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 {
 	RibInputBuffer::CharType c = 0;
 	int sign = 1;
-	int intResult = 0;
+	// Magnitude of an integer token.  This saturates just outside the range of
+	// int rather than overflowing.
+	const TqUint32 maxMagnitude = 2147483648u;
+	TqUint32 intResult = 0;
+	bool intInRange = true;
 	float floatResult = 0;
 	bool haveReadDigit = false;
 	c = inBuf.get();
@@ -377,11 +381,13 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 	// deal with digits before decimal point
 	if(std::isdigit(c))
 		haveReadDigit = true;
-	// \todo: Think of a better way to handle the overflow below robustly?
 	while(std::isdigit(c))
 	{
-		intResult *= 10;
-		intResult += c - '0';
+		const TqUint32 digit = c - '0';
+		if(intResult > (maxMagnitude - digit)/10)
+			intInRange = false;
+		else
+			intResult = intResult*10 + digit;
 		// this duplication seems like a waste, but it's robust against overflow...
 		floatResult *= 10;
 		floatResult += c - '0';
@@ -420,14 +426,18 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 			break;
 		default:
 			// Number is an integer
-			intResult *= sign;
 			if(!haveReadDigit)
 			{
 				tok.error("Expected a digit");
 				return;
 			}
 			inBuf.unget();
-			tok = intResult;
+			if(intInRange && sign < 0)
+				tok = static_cast<int>(-static_cast<double>(intResult));
+			else if(intInRange && intResult < maxMagnitude)
+				tok = static_cast<int>(intResult);
+			else // not representable as an int.
+				tok = sign*floatResult;
 			return;
 	}
 	// deal with the exponent
@@ -451,8 +461,9 @@ void RibTokenizer::readNumber(RibInputBuffer& inBuf, RibToken& tok)
 	int exponent = 0;
 	while(std::isdigit(c))
 	{
-		exponent *= 10;
-		exponent += c - '0';
+		// Avoid overflow; 10^10000 is far outside the range of a float anyway.
+		if(exponent < 10000)
+			exponent = exponent*10 + (c - '0');
 		c = inBuf.get();
 	}
 	exponent *= sign;
-- 
2.43.0


From d5b070c487f94a811d0d35f62cfbd5f1f94429c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:06 +0000
Subject: [PATCH 03/97] fix: keep the look-back character when the RIB input
 buffer wraps

---
 libs/riutil/ribinputbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/riutil/ribinputbuffer.cpp b/libs/riutil/ribinputbuffer.cpp
index b6e33dd..3222376 100644
--- a/libs/riutil/ribinputbuffer.cpp
+++ b/libs/riutil/ribinputbuffer.cpp
@@ -100,7 +100,7 @@ void RibInputBuffer::bufferNextChars()
 		m_buffer[0] = m_buffer[m_bufSize-2];
 		m_buffer[1] = m_buffer[m_bufSize-1];
 		// Reset buffer position
-		m_bufPos = 1;
+		m_bufPos = 2;
 	}
 	// Now fill the buffer with as many characters as possible using a
 	// non-blocking read with readsome().
-- 
2.43.0


From ab6759133a08f3aae9ab8ff9bf9ed731d5539661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:22 +0000
Subject: [PATCH 04/97] fix: keep parameter names valid when several need
 terminating

Names with trailing whitespace are copied; growing the vector of copies
invalidated the pointers to the earlier ones.
---
 libs/riutil/ri2ricxx.cpp     | 3 ++-
 libs/riutil/ribparser_impl.h | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/riutil/ri2ricxx.cpp b/libs/riutil/ri2ricxx.cpp
index f4770ca..4555b8b 100644
--- a/libs/riutil/ri2ricxx.cpp
+++ b/libs/riutil/ri2ricxx.cpp
@@ -36,6 +36,7 @@
 
 #include <aqsis/riutil/ri2ricxx.h>
 
+#include <deque>
 #include <vector>
 #include <set>
 #include <stack>
@@ -200,7 +201,7 @@ void riToRiCxxEnd()
 namespace {
 
 std::vector<Ri::Param> g_pList;
-std::vector<std::string> g_nameStorage;
+std::deque<std::string> g_nameStorage; // element addresses must be stable
 
 // Build a Ri::ParamList from the corresponding C API (count,tokens[],values[])
 //
diff --git a/libs/riutil/ribparser_impl.h b/libs/riutil/ribparser_impl.h
index 7b98c37..ec01c76 100644
--- a/libs/riutil/ribparser_impl.h
+++ b/libs/riutil/ribparser_impl.h
@@ -39,6 +39,9 @@
 
 #include <aqsis/aqsis.h>
 
+#include <deque>
+#include <vector>
+
 #include <boost/shared_ptr.hpp>
 #include <boost/noncopyable.hpp>
 
@@ -205,7 +208,7 @@ class RibParserImpl : public RibParser
 
         // Storage for parameter list parsing
         std::vector<Ri::Param> m_paramListStorage;
-        std::vector<std::string> m_paramNameStorage;
+        std::deque<std::string> m_paramNameStorage;
 
         /// Number of color components
         int m_numColorComps;
-- 
2.43.0


From b8e779342f71f46ba621577133c0da43c9f54cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:56 +0000
Subject: [PATCH 05/97] fix: stop reading binary RIB strings and arrays at the
 end of the stream

A truncated stream with a long encoded length kept appending characters up to
2^31 times.
---
 libs/riutil/ribinputbuffer.cpp |  4 +++-
 libs/riutil/ribinputbuffer.h   | 13 +++++++++++++
 libs/riutil/ribtokenizer.cpp   | 12 ++++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/ribinputbuffer.cpp b/libs/riutil/ribinputbuffer.cpp
index 3222376..6782c07 100644
--- a/libs/riutil/ribinputbuffer.cpp
+++ b/libs/riutil/ribinputbuffer.cpp
@@ -50,6 +50,7 @@ RibInputBuffer::RibInputBuffer(std::istream& inStream, const std::string& stream
 	m_gzipStream(),
 	m_bufPos(1),
 	m_bufEnd(2),
+	m_streamEnded(false),
 	m_currPos(1,0),
 	m_prevPos(-1,-1)
 {
@@ -117,7 +118,8 @@ void RibInputBuffer::bufferNextChars()
 		// charater.  (Reading a single char may block, but that's acceptable.)
 		std::istream::int_type c = m_inStream->get();
 		// translate EOFs
-		m_buffer[m_bufPos] = (c == EOF) ? eof : c;
+		m_streamEnded = (c == EOF);
+		m_buffer[m_bufPos] = m_streamEnded ? eof : c;
 		m_bufEnd = m_bufPos + 1;
 	}
 }
diff --git a/libs/riutil/ribinputbuffer.h b/libs/riutil/ribinputbuffer.h
index 5f88ff5..a670dba 100644
--- a/libs/riutil/ribinputbuffer.h
+++ b/libs/riutil/ribinputbuffer.h
@@ -90,6 +90,12 @@ class RibInputBuffer : boost::noncopyable
 		CharType get();
 		/// Put the last character back into the input stream
 		void unget();
+		/** \brief Determine whether the last get() was past the end of the stream.
+		 *
+		 * Binary data may legitimately contain bytes which are equal to
+		 * RibInputBuffer::eof; this function tells these from the real thing.
+		 */
+		bool atEnd() const;
 
 		/// Return the position of the previous character obtained with get()
 		SourcePos pos() const;
@@ -115,6 +121,8 @@ class RibInputBuffer : boost::noncopyable
 		int m_bufPos;
 		/// Position of last valid character in input buffer.
 		int m_bufEnd;
+		/// True when the end of the underlying stream has been reached.
+		bool m_streamEnded;
 
 		/// Current source location
 		SourcePos m_currPos;
@@ -157,6 +165,11 @@ inline void RibInputBuffer::unget()
 	m_currPos = m_prevPos;
 }
 
+inline bool RibInputBuffer::atEnd() const
+{
+	return m_streamEnded && m_bufPos == m_bufEnd - 1;
+}
+
 inline SourcePos RibInputBuffer::pos() const
 {
 	return m_currPos;
diff --git a/libs/riutil/ribtokenizer.cpp b/libs/riutil/ribtokenizer.cpp
index 4b36809..6a2c4c7 100644
--- a/libs/riutil/ribtokenizer.cpp
+++ b/libs/riutil/ribtokenizer.cpp
@@ -155,6 +155,11 @@ void RibTokenizer::scanNext(RibToken& tok)
 		else
 		{
 			tok = decodeFloat32(*m_inBuf);
+			if(m_inBuf->atEnd())
+			{
+				m_arrayElementsRemaining = -1;
+				tok.error("End of file found while scanning float array");
+			}
 			return;
 		}
 	}
@@ -690,7 +695,14 @@ void RibTokenizer::decodeString(RibInputBuffer& inBuf, int numBytes,
 	std::string& str = tok.m_strVal;
 	str.clear();
 	for(int i = 0; i < numBytes; ++i)
+	{
 		str += static_cast<char>(inBuf.get());
+		if(inBuf.atEnd())
+		{
+			tok.error("End of file found while scanning string");
+			return;
+		}
+	}
 }
 
 /// Look up a previously defined encoded request.
-- 
2.43.0


From ab0f1ce526989255ee868c42c663087aa5b088a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:12 +0000
Subject: [PATCH 06/97] fix: do not read past the end of colors with less than
 three components

---
 libs/riutil/ribparser.cpp    | 22 +++++++++++++++++++---
 libs/riutil/ribparser_impl.h |  3 +++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/libs/riutil/ribparser.cpp b/libs/riutil/ribparser.cpp
index a9e3231..1ce54fc 100644
--- a/libs/riutil/ribparser.cpp
+++ b/libs/riutil/ribparser.cpp
@@ -392,6 +392,22 @@ RtConstBasis& RibParserImpl::getBasis()
     }
 }
 
+/// Retrieve a color from the lexer
+///
+/// The number of color components depends on any previous ColorSamples call.
+/// Consumers of the color may always read at least three components, so we pad
+/// with zeros if there's less than three in the stream.
+///
+RtConstColor& RibParserImpl::getColor()
+{
+    Ri::FloatArray color = m_lex->getFloatArray(m_numColorComps);
+    if(color.size() >= 3)
+        return toFloatBasedType<RtConstColor>(color);
+    for(size_t i = 0; i < 3; ++i)
+        m_shortColor[i] = i < color.size() ? color[i] : 0;
+    return m_shortColor;
+}
+
 //--------------------------------------------------
 // Hand-written handler implementations.  Mostly these are hard to autogenerate.
 
@@ -544,7 +560,7 @@ getterStatements = {
     'RtStringArray': 'Ri::StringArray %s = m_lex->getStringArray();',
     'RtToken':       'const char* %s = m_lex->getString();',
     'RtTokenArray':  'Ri::StringArray %s = m_lex->getStringArray();',
-    'RtColor':       'RtConstColor& %s = toFloatBasedType<RtConstColor>(m_lex->getFloatArray(m_numColorComps));',
+    'RtColor':       'RtConstColor& %s = getColor();',
     'RtPoint':       'RtConstPoint& %s = toFloatBasedType<RtConstPoint>(m_lex->getFloatArray(), "Point", 3);',
     'RtMatrix':      'RtConstMatrix& %s = toFloatBasedType<RtConstMatrix>(m_lex->getFloatArray(), "Matrix", 16);',
     'RtBound':       'RtConstBound& %s = toFloatBasedType<RtConstBound>(m_lex->getFloatArray(6));',
@@ -806,13 +822,13 @@ void RibParserImpl::handleAttributeEnd(Ri::Renderer& renderer)
 
 void RibParserImpl::handleColor(Ri::Renderer& renderer)
 {
-    RtConstColor& Cq = toFloatBasedType<RtConstColor>(m_lex->getFloatArray(m_numColorComps));
+    RtConstColor& Cq = getColor();
     renderer.Color(Cq);
 }
 
 void RibParserImpl::handleOpacity(Ri::Renderer& renderer)
 {
-    RtConstColor& Os = toFloatBasedType<RtConstColor>(m_lex->getFloatArray(m_numColorComps));
+    RtConstColor& Os = getColor();
     renderer.Opacity(Os);
 }
 
diff --git a/libs/riutil/ribparser_impl.h b/libs/riutil/ribparser_impl.h
index ec01c76..b033280 100644
--- a/libs/riutil/ribparser_impl.h
+++ b/libs/riutil/ribparser_impl.h
@@ -74,6 +74,7 @@ class RibParserImpl : public RibParser
 
         Ri::ParamList readParamList();
         RtConstBasis& getBasis();
+        RtConstColor& getColor();
 
         //--------------------------------------------------
         /// Handler methods definitions
@@ -212,6 +213,8 @@ class RibParserImpl : public RibParser
 
         /// Number of color components
         int m_numColorComps;
+        /// Storage for colors with less than three components
+        RtColor m_shortColor;
 };
 
 } // namespace Aqsis
-- 
2.43.0


From 63778d1a7b0f1ab4b4b2f5770594f01cced4d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:23 +0000
Subject: [PATCH 07/97] fix: reject array sizes less than one in parameter
 declarations

---
 libs/riutil/primvartoken.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/riutil/primvartoken.cpp b/libs/riutil/primvartoken.cpp
index ad6b7dc..66586e0 100644
--- a/libs/riutil/primvartoken.cpp
+++ b/libs/riutil/primvartoken.cpp
@@ -37,7 +37,9 @@
 
 #include <aqsis/riutil/primvartoken.h>
 
+#include <cstdlib>
 #include <cstring>
+#include <limits>
 
 #include <aqsis/util/exception.h>
 
@@ -187,9 +189,12 @@ Ri::TypeSpec parseDeclaration(const char* token, const char** nameStart,
 		if(!nextToken(begin, end))
 			RETURN_ERROR("expected array size after '['");
 		char* convEnd = 0;
-		spec.arraySize = std::strtol(begin, &convEnd, 10);
+		const long arraySize = std::strtol(begin, &convEnd, 10);
 		if(convEnd != end)
 			RETURN_ERROR("array size must be an integer");
+		if(arraySize < 1 || arraySize > std::numeric_limits<int>::max())
+			RETURN_ERROR("array size out of range");
+		spec.arraySize = arraySize;
 		// Consume a "]" token
 		if(!nextToken(begin, end) || *begin != ']')
 			RETURN_ERROR("expected ']' after array size");
-- 
2.43.0


From 85f76e0a62c58cc6ac376bb9c893fb85b5c7a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:46 +0000
Subject: [PATCH 08/97] fix: nested conditionals in RIB no longer disturb the
 enclosing block

The record of whether a true clause was found is kept per nesting level, and
Else/ElseIf without IfBegin are ignored.
---
 libs/riutil/renderutil_filter.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index fc5e090..73b26f7 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -60,7 +60,15 @@ class RenderUtilFilter : public Ri::Filter
         bool m_inObject;
         // Conditional testing stuff
         IfElseTestCallback m_ifElseTest;
-        std::stack<bool> m_ifInactiveStack;
+        // State of the enclosing conditional block
+        struct IfState
+        {
+            bool inactive;
+            bool trueClauseFound;
+            IfState(bool inactive, bool trueClauseFound)
+                : inactive(inactive), trueClauseFound(trueClauseFound) {}
+        };
+        std::stack<IfState> m_ifStack;
         bool m_trueClauseFound;
         bool m_ifInactive;
 #       define IF_ELSE_TEST if(m_ifInactive) return;
@@ -107,7 +115,7 @@ class RenderUtilFilter : public Ri::Filter
             m_nested(0),
             m_inObject(false),
             m_ifElseTest(conditionTest),
-            m_ifInactiveStack(),
+            m_ifStack(),
             m_trueClauseFound(false),
             m_ifInactive(false)
         { }
@@ -244,7 +252,7 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().IfBegin(condition);
                     return;
                 }
-                m_ifInactiveStack.push(m_ifInactive);
+                m_ifStack.push(IfState(m_ifInactive, m_trueClauseFound));
                 if(m_ifInactive)
                     return;
                 m_trueClauseFound = m_ifElseTest(condition);
@@ -263,8 +271,9 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().ElseIf(condition);
                     return;
                 }
-                // If previous level conditional was inactive, just return.
-                if(m_ifInactiveStack.top())
+                // If previous level conditional was inactive, or the scoping
+                // is invalid, just return.
+                if(m_ifStack.empty() || m_ifStack.top().inactive)
                     return;
                 if(m_trueClauseFound)
                 {
@@ -292,7 +301,7 @@ class RenderUtilFilter : public Ri::Filter
                     nextFilter().Else();
                     return;
                 }
-                if(m_ifInactiveStack.top())
+                if(m_ifStack.empty() || m_ifStack.top().inactive)
                     return;
                 // Else clause is activated when we haven't found a true
                 // If/ElseIf clause yet
@@ -312,10 +321,11 @@ class RenderUtilFilter : public Ri::Filter
                     return;
                 }
                 // test empty() here to avoid crash for invalid scoping
-                if(m_ifInactiveStack.empty())
+                if(m_ifStack.empty())
                     return;
-                m_ifInactive = m_ifInactiveStack.top();
-                m_ifInactiveStack.pop();
+                m_ifInactive = m_ifStack.top().inactive;
+                m_trueClauseFound = m_ifStack.top().trueClauseFound;
+                m_ifStack.pop();
             }
         }
 
-- 
2.43.0


From 506e4c2084df00a981a6ffbbb3fc657680fa0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 09/97] fix: keep an archive or object alive while it is being
 replayed

Redefining the name from within its own body freed the stream in use.
---
 libs/riutil/renderutil_filter.cpp | 40 ++++++++++++++++---------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/libs/riutil/renderutil_filter.cpp b/libs/riutil/renderutil_filter.cpp
index 73b26f7..5d786fc 100644
--- a/libs/riutil/renderutil_filter.cpp
+++ b/libs/riutil/renderutil_filter.cpp
@@ -38,6 +38,8 @@
 #include <vector>
 #include <stack>
 
+#include <boost/shared_ptr.hpp>
+
 #include <aqsis/util/exception.h>
 #include "ricxx_cache.h"
 #include <aqsis/riutil/errorhandler.h>
@@ -53,8 +55,10 @@ class RenderUtilFilter : public Ri::Filter
 {
     private:
         // Caching stuff
-        std::vector<CachedRiStream*> m_archives;
-        std::vector<CachedRiStream*> m_objectInstances;
+        typedef boost::shared_ptr<CachedRiStream> CachedStreamPtr;
+        typedef std::vector<CachedStreamPtr> CachedStreamVec;
+        CachedStreamVec m_archives;
+        CachedStreamVec m_objectInstances;
         CachedRiStream* m_currCache;
         int m_nested;
         bool m_inObject;
@@ -76,7 +80,7 @@ class RenderUtilFilter : public Ri::Filter
         // Find a cached stream in a given cache.
         //
         // Return -1 if not found.
-        static int findCachedStream(std::vector<CachedRiStream*>& cache, const char* name)
+        static int findCachedStream(CachedStreamVec& cache, const char* name)
         {
             for(int i = 0, iend = cache.size(); i < iend; ++i)
                 if(cache[i]->name() == name)
@@ -88,7 +92,7 @@ class RenderUtilFilter : public Ri::Filter
         //
         // If a stream with the same name already exists, the new stream
         // replaces the old one.
-        static CachedRiStream* newCachedStream(std::vector<CachedRiStream*>& cache,
+        static CachedRiStream* newCachedStream(CachedStreamVec& cache,
                                    const char* name)
         {
             // First search to make sure we haven't already defined a stream
@@ -96,14 +100,14 @@ class RenderUtilFilter : public Ri::Filter
             int index = findCachedStream(cache, name);
             if(index >= 0)
             {
-                delete cache[index];
-                cache[index] = new CachedRiStream(name);
-                return cache[index];
+                // (Any replay in progress keeps the old stream alive.)
+                cache[index].reset(new CachedRiStream(name));
+                return cache[index].get();
             }
             else
             {
-                cache.push_back(new CachedRiStream(name));
-                return cache.back();
+                cache.push_back(CachedStreamPtr(new CachedRiStream(name)));
+                return cache.back().get();
             }
         }
 
@@ -120,14 +124,6 @@ class RenderUtilFilter : public Ri::Filter
             m_ifInactive(false)
         { }
 
-        ~RenderUtilFilter()
-        {
-            for(size_t i = 0; i < m_archives.size(); ++i)
-                delete m_archives[i];
-            for(size_t i = 0; i < m_objectInstances.size(); ++i)
-                delete m_objectInstances[i];
-        }
-
         //--------------------------------------------------
         // Inline archive handling
         virtual RtVoid ArchiveBegin(RtConstToken name, const ParamList& pList)
@@ -166,7 +162,10 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the archive name in the cached archives.
             int index = findCachedStream(m_archives, name);
             if(index >= 0)
-                m_archives[index]->replay(services().firstFilter());
+            {
+                CachedStreamPtr archive = m_archives[index];
+                archive->replay(services().firstFilter());
+            }
             else
             {
                 // If not found in our archive list it's probably on-disk, so
@@ -224,7 +223,10 @@ class RenderUtilFilter : public Ri::Filter
             // Search for the object instance name
             int index = findCachedStream(m_objectInstances, name);
             if(index >= 0)
-                m_objectInstances[index]->replay(services().firstFilter());
+            {
+                CachedStreamPtr object = m_objectInstances[index];
+                object->replay(services().firstFilter());
+            }
             else
             {
                 // If we didn't find it, error
-- 
2.43.0


From 1d259a86c70287c9a18f8a69d9cecb0d4643e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:39 +0000
Subject: [PATCH 10/97] fix: report ArchiveEnd outside of an inline archive
 instead of asserting

---
 libs/riutil/ri.xml             | 3 +++
 libs/riutil/ricxx_validate.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/libs/riutil/ri.xml b/libs/riutil/ri.xml
index ab6c4d6..619e8c7 100644
--- a/libs/riutil/ri.xml
+++ b/libs/riutil/ri.xml
@@ -3468,6 +3468,9 @@
 			<Name>ArchiveEnd</Name>
 			<ReturnType>RtVoid</ReturnType>
 			<Arguments/>
+			<ValidScope>
+				<Archive/>
+			</ValidScope>
 			<Rib/>
 		</Procedure>
 
diff --git a/libs/riutil/ricxx_validate.cpp b/libs/riutil/ricxx_validate.cpp
index 0922266..845221b 100644
--- a/libs/riutil/ricxx_validate.cpp
+++ b/libs/riutil/ricxx_validate.cpp
@@ -2032,6 +2032,7 @@ RtVoid RiCxxValidate::ArchiveBegin(RtConstToken name, const ParamList& pList)
 
 RtVoid RiCxxValidate::ArchiveEnd()
 {
+    checkScope(ApiScope(Scope_Archive), "ArchiveEnd");
     popAttributes();
     nextFilter().ArchiveEnd();
     popScope(Scope_Archive);
-- 
2.43.0


From 30896042efbca725876d56f582e21bd423b29113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:54 +0000
Subject: [PATCH 11/97] fix: initialise the channel buffer size and clear it in
 bytes

---
 libs/core/channelbuffer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/core/channelbuffer.h b/libs/core/channelbuffer.h
index d75c5b4..f71c1b5 100644
--- a/libs/core/channelbuffer.h
+++ b/libs/core/channelbuffer.h
@@ -89,7 +89,9 @@ inline void CqChannelBuffer::clearChannels()
 }
 
 inline CqChannelBuffer::CqChannelBuffer()
-: m_elementSize(0),
+: m_width(0),
+  m_height(0),
+  m_elementSize(0),
   m_data(NULL)
 {
 }
@@ -126,10 +128,10 @@ inline void CqChannelBuffer::allocate(TqInt width, TqInt height)
 	m_data = new TqChannelValues[m_width*m_height*m_elementSize];
 	if(m_data)
 	{
-		memset(m_data, 0, m_width*m_height*m_elementSize);
+		memset(m_data, 0, m_width*m_height*m_elementSize*sizeof(TqChannelValues));
 		if(old)
 		{
-			memcpy(m_data, old, oldsize);
+			memcpy(m_data, old, oldsize*sizeof(TqChannelValues));
 			delete [] old;
 		}
 	}
-- 
2.43.0


From 5779cc6d6852da5c895f53ce0dc3c1441f740c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:59 +0000
Subject: [PATCH 12/97] fix: keep scanline displays within the crop window

---
 libs/core/ddmanager/ddmanager.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 87f369f..57d86e4 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1134,18 +1134,25 @@ bool CqDisplayRequest::CollapseBucketsToScanlines( const CqRegion& DRegion )
 	TqInt	ymin = DRegion.yMin();
 	TqInt	xmaxplus1 = DRegion.xMax();
 	TqInt	ymaxplus1 = DRegion.yMax();
+	// The row buffer only covers the crop window.
+	TqInt	cropXMin = QGetRenderContext()->cropWindowXMin();
+	TqInt	cropXMax = QGetRenderContext()->cropWindowXMax();
+	TqInt	cropYMin = QGetRenderContext()->cropWindowYMin();
+	TqInt	cropYMax = QGetRenderContext()->cropWindowYMax();
+	TqInt	rowMin = max(ymin, cropYMin);
 	TqInt x, y;
 
 	for (y = ymin; y < ymaxplus1; y++)
 	{
 		for (x = xmin; x < xmaxplus1; x++)
 		{
-			memcpy(&(m_DataRow[m_width * m_elementSize * (y - ymin) + m_elementSize * x]), pdata, m_elementSize);
+			if(x >= cropXMin && x < cropXMax && y >= cropYMin && y < cropYMax)
+				memcpy(&(m_DataRow[m_width * m_elementSize * (y - rowMin) + m_elementSize * (x - cropXMin)]), pdata, m_elementSize);
 			pdata += m_elementSize;
 		}
 	}
 
-	if (xmaxplus1 >= m_width)
+	if (xmaxplus1 >= cropXMax)
 	{
 		// Filled a scan line
 		Aqsis::log() << debug << "filled a scanline" << std::endl;
@@ -1165,11 +1172,13 @@ void CqDisplayRequest::SendToDisplay(TqInt ymin, TqInt ymaxplus1)
 	TqInt y;
 	PtDspyError err;
 	unsigned char* pdata = m_DataRow;
+	TqInt xmin = QGetRenderContext()->cropWindowXMin();
+	TqInt yend = min(ymaxplus1, QGetRenderContext()->cropWindowYMax());
 
-	// send to the display one line at a time
-	for (y = ymin; y < ymaxplus1; y++)
+	// send to the display one line at a time, limited to the crop window.
+	for (y = max(ymin, QGetRenderContext()->cropWindowYMin()); y < yend; y++)
 	{
-		err = (m_DataMethod)(m_imageHandle, 0, m_width, y, y+1, m_elementSize, pdata);
+		err = (m_DataMethod)(m_imageHandle, xmin, xmin + m_width, y, y+1, m_elementSize, pdata);
 		pdata += m_elementSize * m_width;
 	}
 }
-- 
2.43.0


From 037e48bd61153eeec5db6bf94ff70989992b1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:59 +0000
Subject: [PATCH 13/97] fix: quantize values beyond the range of long, such as
 infinite depth

---
 libs/core/ddmanager/ddmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 57d86e4..56cab38 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1065,7 +1065,7 @@ void CqDisplayRequest::FormatBucketForDisplay( const CqRegion& DRegion, const Iq
 				if ( m_QuantizeOneVal != 0 )
 				{
 					// Perform the quantization
-					value = lround(m_QuantizeZeroVal + value * (m_QuantizeOneVal - m_QuantizeZeroVal) + ( m_QuantizeDitherVal * s ) );
+					value = round(m_QuantizeZeroVal + value * (m_QuantizeOneVal - m_QuantizeZeroVal) + ( m_QuantizeDitherVal * s ) );
 					value = clamp<double>(value, m_QuantizeMinVal, m_QuantizeMaxVal) ;
 				}
 				TqInt type = iformat->type & PkDspyMaskType;
-- 
2.43.0


From 71f1634198cf8c9d130a3c60ad300197cab9d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:59 +0000
Subject: [PATCH 14/97] fix: do not pass cached samples to buckets outside of
 the crop window

---
 libs/core/imagebuffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/core/imagebuffer.h b/libs/core/imagebuffer.h
index 62e19f6..f03dc8f 100644
--- a/libs/core/imagebuffer.h
+++ b/libs/core/imagebuffer.h
@@ -177,13 +177,13 @@ inline void CqImageBuffer::axialNeighbours(CqBucket const& bucket, std::vector<C
 	neighbours.resize(4, 0);
 		
 	// Populate the array slots depending on if there are usable neighbours in that direction.
-	if(bx > 0)
+	if(bx > m_bucketRegion.xMin())
 		neighbours[left] = &Bucket(bx-1, by);
-	if(bx < m_cXBuckets - 1)
+	if(bx < m_bucketRegion.xMax() - 1)
 		neighbours[right] = &Bucket(bx+1, by);
-	if(by > 0)
+	if(by > m_bucketRegion.yMin())
 		neighbours[above] = &Bucket(bx, by-1);
-	if(by < m_cYBuckets - 1)
+	if(by < m_bucketRegion.yMax() - 1)
 		neighbours[below] = &Bucket(bx, by+1);
 }
 
-- 
2.43.0


From f2b05d2825f1ec9416a4b53d193f83624c789701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:59 +0000
Subject: [PATCH 15/97] fix: do not access buckets when the crop window
 contains no pixels

---
 libs/core/imagebuffer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libs/core/imagebuffer.cpp b/libs/core/imagebuffer.cpp
index fadc097..39a4404 100644
--- a/libs/core/imagebuffer.cpp
+++ b/libs/core/imagebuffer.cpp
@@ -192,6 +192,10 @@ void	CqImageBuffer::SetImage()
 			ctx.cropWindowYMin()/m_optCache.yBucketSize,
 			(ctx.cropWindowXMax()-1)/m_optCache.xBucketSize + 1,
 			(ctx.cropWindowYMax()-1)/m_optCache.yBucketSize + 1);
+	// There is nothing to render when the crop window contains no pixels.
+	if(ctx.cropWindowXMin() >= ctx.cropWindowXMax() ||
+		ctx.cropWindowYMin() >= ctx.cropWindowYMax())
+		m_bucketRegion = CqRegion(0, 0, 0, 0);
 
 	TqInt row = 0;
 	TqInt colPos = 0, rowPos = 0;
@@ -267,6 +271,10 @@ void	CqImageBuffer::Release()
 
 bool CqImageBuffer::CullSurface( CqBound& Bound, const boost::shared_ptr<CqSurface>& pSurface )
 {
+	// Nothing is visible through an empty crop window.
+	if ( m_bucketRegion.area() == 0 )
+		return true;
+
 	// If the primitive is completely outside of the hither-yon z range, cull it.
 	if ( Bound.vecMin().z() >= m_optCache.clipFar ||
 	     Bound.vecMax().z() <= m_optCache.clipNear )
@@ -704,7 +712,7 @@ void CqImageBuffer::RenderImage()
 	}
 
 	// Iterate over all buckets...
-	bool pendingBuckets = true;
+	bool pendingBuckets = m_bucketRegion.area() != 0;
 	while ( pendingBuckets && !m_fQuit )
 	{
 		CqThreadScheduler threadScheduler(numConcurrentBuckets);
-- 
2.43.0


From 9a726ea3de3a70a642a75b8658999132aeba3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 16/97] fix: allow Ci and Oi as arbitrary output variables

---
 libs/core/bucketprocessor.cpp | 5 +++++
 libs/core/channelbuffer.h     | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 9e048a9..60cf21b 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -395,7 +395,12 @@ void CqBucketProcessor::FilterBucket()
 	std::map<std::string, CqRenderer::SqOutputDataEntry>::iterator aov_i = outputMap.begin();
 	std::map<std::string, CqRenderer::SqOutputDataEntry>::iterator aov_end = outputMap.end();
 	for(; aov_i != aov_end; ++aov_i)
+	{
+		// Some of the AOVs (Ci and Oi, for example) are standard channels already.
+		if(m_channelBuffer.hasChannel(aov_i->first))
+			continue;
 		channelMap[m_channelBuffer.addChannel(aov_i->first, aov_i->second.m_NumSamples)] = aov_i->second;
+	}
 
 	TqInt depthIndex = m_channelBuffer.getChannelIndex("z");
 
diff --git a/libs/core/channelbuffer.h b/libs/core/channelbuffer.h
index f71c1b5..9581e9e 100644
--- a/libs/core/channelbuffer.h
+++ b/libs/core/channelbuffer.h
@@ -54,6 +54,7 @@ class CqChannelBuffer : public IqChannelBuffer
 
 		void clearChannels();
 		TqInt addChannel(const std::string& name, TqInt size);
+		bool hasChannel(const std::string& name) const;
 		void allocate(TqInt width, TqInt height);
 
 		TqChannelPtr operator()(TqInt x, TqInt y, TqInt index);
@@ -108,6 +109,11 @@ inline TqInt CqChannelBuffer::addChannel(const std::string& name, TqInt size)
 	return m_channels[name].first;
 }
 
+inline bool CqChannelBuffer::hasChannel(const std::string& name) const
+{
+	return m_channels.find(name) != m_channels.end();
+}
+
 inline TqInt CqChannelBuffer::getChannelIndex(const std::string& name) const
 {
 	std::map<std::string, std::pair<TqInt, TqInt> >::const_iterator iter;
-- 
2.43.0


From 4ad52a2e3b3e5d887156094144126e947f2f3bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:48 +0000
Subject: [PATCH 17/97] fix: keep buckets at least as large as the filter
 overlap

---
 libs/core/optioncache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/optioncache.cpp b/libs/core/optioncache.cpp
index 0f9b68d..09a66f3 100644
--- a/libs/core/optioncache.cpp
+++ b/libs/core/optioncache.cpp
@@ -82,6 +82,10 @@ void SqOptionCache::cacheOptions(const IqOptions& opts)
 		xBucketSize = bktSize[0];
 		yBucketSize = bktSize[1];
 	}
+	// The buckets share samples with their direct neighbours only, so a bucket
+	// must be at least as large as the overlap due to the pixel filter.
+	xBucketSize = max<TqInt>(max<TqInt>(1, 2*lfloor(xFiltSize/2)), xBucketSize);
+	yBucketSize = max<TqInt>(max<TqInt>(1, 2*lfloor(yFiltSize/2)), yBucketSize);
 	// Eye split bound
 	maxEyeSplits = 10;
 	if(const TqInt* splits = opts.GetIntegerOption("limits", "eyesplits"))
-- 
2.43.0


From b1826b61b336b6c32d9494e02d1e10c7f04b786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:27 +0000
Subject: [PATCH 18/97] fix: initialise display requests, closing one without a
 driver called garbage

---
 libs/core/ddmanager/ddmanager.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/core/ddmanager/ddmanager.h b/libs/core/ddmanager/ddmanager.h
index 92438f0..8030f7f 100644
--- a/libs/core/ddmanager/ddmanager.h
+++ b/libs/core/ddmanager/ddmanager.h
@@ -102,7 +102,19 @@ class CqDisplayRequest : public IqDisplayRequest
 				m_AOVSize(dataSize), m_QuantizeZeroVal(quantizeZeroVal), m_QuantizeOneVal(quantizeOneVal),
 				m_QuantizeMinVal(quantizeMinVal), m_QuantizeMaxVal(quantizeMaxVal), m_QuantizeDitherVal(quantizeDitherVal), m_QuantizeSpecified(quantizeSpecified), m_QuantizeDitherSpecified(quantizeDitherSpecified),
 				m_isLoaded(false)
-		{}
+		{
+			m_width = m_height = m_elementSize = 0;
+			m_DriverHandle = 0;
+			m_imageHandle = 0;
+			m_flags.flags = 0;
+			m_OpenMethod = 0;
+			m_QueryMethod = 0;
+			m_DataMethod = 0;
+			m_CloseMethod = 0;
+			m_DelayCloseMethod = 0;
+			m_DataRow = 0;
+			m_DataBucket = 0;
+		}
 		virtual ~CqDisplayRequest();
 
 		/* Query if this display uses the dispay mode variable (one of rgbaz)
-- 
2.43.0


From aa5362432808baa48cbd4ac14d4bfc04eed66957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:27 +0000
Subject: [PATCH 19/97] fix: open a display afresh for each world block

---
 libs/core/ddmanager/ddmanager.cpp | 15 +++++++++++++++
 libs/core/ddmanager/ddmanager.h   |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 56cab38..512ed0a 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -289,6 +289,12 @@ void CqDisplayRequest::LoadDisplayLibrary( SqDDMemberData& ddMemberData, CqSimpl
 	// First store the width and height, as this is the first time we know about them.
 	m_width = width;
 	m_height = height;
+
+	// Forget about any previous render to this display.
+	m_valid = false;
+	m_flags.flags = 0;
+	m_formats.clear();
+	m_bufferMap.clear();
 	
 	// Init the driver file and type storage
 	CqString strDriverFile = "";
@@ -905,12 +911,21 @@ void CqDisplayRequest::PrepareCustomParameters( std::map<std::string, void*>& ma
 					break;
 			}
 			m_customParams.push_back(parameter);
+			m_numUserParams = m_customParams.size();
 		}
 	}
 }
 
 void CqDisplayRequest::PrepareSystemParameters()
 {
+	// Remove the standard parameters left over from any previous render.
+	while ( m_customParams.size() > m_numUserParams )
+	{
+		free(m_customParams.back().name);
+		free(m_customParams.back().value);
+		m_customParams.pop_back();
+	}
+
 	// Fill in "standard" parameters that the renderer must supply
 	UserParameter parameter;
 
diff --git a/libs/core/ddmanager/ddmanager.h b/libs/core/ddmanager/ddmanager.h
index 8030f7f..3831922 100644
--- a/libs/core/ddmanager/ddmanager.h
+++ b/libs/core/ddmanager/ddmanager.h
@@ -104,6 +104,7 @@ class CqDisplayRequest : public IqDisplayRequest
 				m_isLoaded(false)
 		{
 			m_width = m_height = m_elementSize = 0;
+			m_numUserParams = 0;
 			m_DriverHandle = 0;
 			m_imageHandle = 0;
 			m_flags.flags = 0;
@@ -174,6 +175,7 @@ class CqDisplayRequest : public IqDisplayRequest
 		TqInt			m_width;
 		TqInt			m_height;
 		std::vector<UserParameter> m_customParams;
+		size_t			m_numUserParams; // Number of leading elements of m_customParams given by the user
 		void*			m_DriverHandle;
 		PtDspyImageHandle m_imageHandle;
 		PtFlagStuff		m_flags;
-- 
2.43.0


From a8b15e7ee1e2eabbd99059dc370465948542de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:31 +0000
Subject: [PATCH 20/97] fix: keep color and opacity for displays with combined
 modes such as rgbaz

---
 libs/core/ddmanager/ddmanager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/core/ddmanager/ddmanager.cpp b/libs/core/ddmanager/ddmanager.cpp
index 512ed0a..a74f134 100644
--- a/libs/core/ddmanager/ddmanager.cpp
+++ b/libs/core/ddmanager/ddmanager.cpp
@@ -1206,7 +1206,8 @@ void CqDeepDisplayRequest::SendToDisplay(TqInt ymin, TqInt ymaxplus1)
 bool CqDisplayRequest::ThisDisplayNeeds( const TqUlong& htoken, const TqUlong& rgb, const TqUlong& rgba,
         const TqUlong& Ci, const TqUlong& Oi, const TqUlong& Cs, const TqUlong& Os )
 {
-	bool usage = ( ( m_modeHash == rgba ) || ( m_modeHash == rgb ) );
+	// Any of the combined modes (rgbaz, az, ...) need the color or opacity too.
+	bool usage = ( m_modeID & ( DMode_RGB | DMode_A ) ) != 0;
 
 	if ( (( htoken == Ci )|| ( htoken == Cs))&& usage )
 		return ( true );
-- 
2.43.0


From 8c072944a404cb2f601ec3ab559364d6c436faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:14 +0000
Subject: [PATCH 21/97] fix: do not multiply alpha by the coverage twice

---
 libs/core/bucketprocessor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index 60cf21b..f7e2cb9 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -704,9 +704,10 @@ void CqBucketProcessor::FilterBucket()
 			TqFloat coverage = aCoverages[ i++ ];
 			TqFloat *buffer = m_channelBuffer(x, y, OiIndex);
 
-			// Calculate the alpha as the combination of the opacity and the coverage.
+			// Calculate the alpha from the opacity; this includes the coverage
+			// already, since samples without a hit have been filtered too.
 			TqFloat a = ( buffer[0] + buffer[1] + buffer[2] ) / 3.0f;
-			m_channelBuffer(x, y, alphaIndex)[0] = a * coverage;
+			m_channelBuffer(x, y, alphaIndex)[0] = a;
 			m_channelBuffer(x, y, coverageIndex)[0] = coverage;
 		}
 	}
-- 
2.43.0


From 75692a2c092d760cf10cbda3736b7e40efa4659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:14 +0000
Subject: [PATCH 22/97] fix: scale the opacity behind matte objects by their
 opacity, not their color

---
 libs/core/imagepixel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 2531912..724a0c9 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -207,9 +207,9 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 						lerp( sample_data[Sample_OBlue], samplecolor.b(), 0.0f )
 					);
 					sampleopacity = CqColor(
-						lerp( sample_data[Sample_Red], sampleopacity.r(), 0.0f ),
-						lerp( sample_data[Sample_Green], sampleopacity.g(), 0.0f ),
-						lerp( sample_data[Sample_Blue], sampleopacity.b(), 0.0f )
+						lerp( sample_data[Sample_ORed], sampleopacity.r(), 0.0f ),
+						lerp( sample_data[Sample_OGreen], sampleopacity.g(), 0.0f ),
+						lerp( sample_data[Sample_OBlue], sampleopacity.b(), 0.0f )
 					);
 				}
 				else
-- 
2.43.0


From a78061723873bee155aec0f600d2489906ccde6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:52 +0000
Subject: [PATCH 23/97] fix: clip surfaces crossing the near or far clipping
 plane

---
 libs/core/bucketprocessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index f7e2cb9..a31e570 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1476,6 +1476,10 @@ void CqBucketProcessor::RenderMPG_MBOrDof( CqMicroPolygon* pMPG, bool IsMoving,
 
 void CqBucketProcessor::StoreSample( CqMicroPolygon* pMPG, CqImagePixel* pie2, TqInt index, TqFloat D, const CqVector2D& uv )
 {
+	// Surfaces in front of the near or behind the far clipping plane are not
+	// visible.
+	if(D < m_optCache.clipNear || D > m_optCache.clipFar)
+		return;
 	bool isCullable = m_CurrentMpgSampleInfo.isCullable;
 	SqSampleData& sampleData = pie2->SampleData( index );
 	if(isCullable && sampleData.occlZ <= D)
-- 
2.43.0


From 3624212a7f9e672dc45e34f596de1c993dd14f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:52 +0000
Subject: [PATCH 24/97] fix: average depth of samples without opaque surfaces
 is infinite, not NaN

---
 libs/core/imagepixel.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 724a0c9..7b6f26e 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -290,9 +290,7 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 								totCount++;
 							}
 						}
-						totDepth /= totCount;
-
-						occlDepth = totDepth;
+						occlDepth = totCount > 0 ? totDepth / totCount : FLT_MAX;
 					}
 					// Default to "min"
 				}
-- 
2.43.0


From 99e602365af9805966156e20fb7ec5e9ecd6a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:12 +0000
Subject: [PATCH 25/97] fix: keep samples of opaque micropolygons opaque
 despite rounding

---
 libs/core/bucketprocessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/core/bucketprocessor.cpp b/libs/core/bucketprocessor.cpp
index a31e570..7dc4e7a 100644
--- a/libs/core/bucketprocessor.cpp
+++ b/libs/core/bucketprocessor.cpp
@@ -1557,6 +1557,10 @@ void CqBucketProcessor::StoreSample( CqMicroPolygon* pMPG, CqImagePixel* pie2, T
 	CqColor col;
 	CqColor opa;
 	pMPG->InterpolateOutputs(m_CurrentMpgSampleInfo, uv, col, opa);
+	// A micropolygon which is opaque at its vertices is opaque everywhere;
+	// interpolation may get that wrong by a rounding error.
+	if(m_CurrentMpgSampleInfo.isOpaque)
+		opa = CqColor(max(opa.r(), 1.0f), max(opa.g(), 1.0f), max(opa.b(), 1.0f));
 
 	// Store the hit data for later use.
 	TqFloat* hitData = pie2->sampleHitData(*hit);
-- 
2.43.0


From 44f82bbea571bcc1f67e1f253f2ba378ff96e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:05 +0000
Subject: [PATCH 26/97] fix: average depth looks at the opacity of each sample,
 not the composited one

---
 libs/core/imagepixel.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index 7b6f26e..aec1e68 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -193,6 +193,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 			bool samplehit = false;
 			TqFloat opaqueDepths[2] = { sampleData.occlZ, FLT_MAX };
 			TqFloat maxOpaqueDepth = FLT_MAX;
+			TqFloat totOpaqueDepth = 0.0f;
+			TqInt opaqueCount = 0;
 
 			for ( std::vector<SqImageSample>::reverse_iterator sample = sampleData.data.rbegin();
 			        sample != sampleData.data.rend();
@@ -236,6 +238,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					// Store the max opaque depth too, if not already stored.
 					if(!(maxOpaqueDepth < FLT_MAX))
 						maxOpaqueDepth = sample_data[Sample_Depth];
+					totOpaqueDepth += sample_data[Sample_Depth];
+					++opaqueCount;
 				}
 				samplehit = true;
 			}
@@ -278,19 +282,8 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					}
 					else if ( depthfilter == Filter_Average )
 					{
-						std::vector<SqImageSample>::iterator sample;
-						TqFloat totDepth = 0.0f;
-						TqInt totCount = 0;
-						for ( sample = sampleData.data.begin(); sample != sampleData.data.end(); sample++ )
-						{
-							TqFloat* sample_data = sampleHitData(*sample);
-							if(sample_data[Sample_ORed] >= zThreshold.r() || sample_data[Sample_OGreen] >= zThreshold.g() || sample_data[Sample_OBlue] >= zThreshold.b())
-							{
-								totDepth += sample_data[Sample_Depth];
-								totCount++;
-							}
-						}
-						occlDepth = totCount > 0 ? totDepth / totCount : FLT_MAX;
+						// Average the depth of all opaque samples.
+						occlDepth = opaqueCount > 0 ? totOpaqueDepth / opaqueCount : FLT_MAX;
 					}
 					// Default to "min"
 				}
-- 
2.43.0


From 20679e89bdcce157f2a1415f409027a56250c808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:20 +0000
Subject: [PATCH 27/97] fix: cull back faces along the viewing direction of
 orthographic cameras

---
 libs/core/micropolygon.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/libs/core/micropolygon.cpp b/libs/core/micropolygon.cpp
index 287a952..6ad5a36 100644
--- a/libs/core/micropolygon.cpp
+++ b/libs/core/micropolygon.cpp
@@ -338,6 +338,19 @@ void CqMicroPolyGrid::ExpandGridBoundaries(TqFloat amount)
 }
 
 
+/** \brief Determine the direction in which the camera looks at a point.
+ *
+ * \param P - the point, in camera space.
+ */
+static CqVector3D viewDirection(const CqVector3D& P)
+{
+	// The rays of an orthographic camera are parallel to the z axis.
+	if(QGetRenderContext()->GetIntegerOption("System", "Projection")[0] == ProjectionOrthographic)
+		return CqVector3D(0, 0, 1);
+	return P;
+}
+
+
 //---------------------------------------------------------------------
 /** Shade the grid using the surface parameters of the surface passed and store the color values for each micropolygon.
  */
@@ -455,7 +468,7 @@ void CqMicroPolyGrid::Shade( bool canCullGrid )
 			if(NULL != pN)
 				s = ( ( pN[i] * pNg[i] ) < 0.0f ) ? -1.0f : 1.0f;
 			// Calulate the direction the MPG is facing.
-			if ( ( ( s * pNg[ i ] ) * pP[ i ] ) >= 0 )
+			if ( ( ( s * pNg[ i ] ) * viewDirection(pP[ i ]) ) >= 0 )
 			{
 				cCulled++;
 				STATS_INC( MPG_culled );
@@ -1015,7 +1028,7 @@ void CqMotionMicroPolyGrid::Split( long xmin, long xmax, long ymin, long ymax )
 				TqFloat s = 1.0f;
 				if(pN)
 					s = (pN[i] * pNg[i] < 0.0f) ? -1.0f : 1.0f;
-				if(s * pNg[i] * pP[i] >= 0)
+				if(s * pNg[i] * viewDirection(pP[i]) >= 0)
 					totalBFCulled[i]++;
 			}
 		}
-- 
2.43.0


From d3a47be5b022e76943c980ea651b3e5c9ec31cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:23 +0000
Subject: [PATCH 28/97] fix: spread the time samples of unjittered pixels over
 the shutter

---
 libs/core/grid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/core/grid.cpp b/libs/core/grid.cpp
index 5b50009..260477a 100644
--- a/libs/core/grid.cpp
+++ b/libs/core/grid.cpp
@@ -49,7 +49,7 @@ void CqGridSampler::setupGridPattern()
 	}
 
 	// Fill in motion blur and LoD with the same regular grid
-	TqFloat dt = 1/nSamples;
+	TqFloat dt = 1.0f/nSamples;
 	TqFloat sample = dt*0.5;
 	for(TqInt i = 0; i < nSamples; ++i)
 	{
-- 
2.43.0


From 7153946696c55e8eb40048feccfbb7b0a0b4994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:10 +0000
Subject: [PATCH 29/97] fix: blobbies too small to be polygonised used
 uninitialised counts

---
 libs/core/api/ri.cpp          | 11 ++++++++++-
 libs/core/geometry/blobby.cpp |  7 +++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 0b1833e..489313a 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -2063,6 +2063,15 @@ RtVoid RiCxxCore::Blobby(RtInt nleaf, const IntArray& code, const FloatArray& fl
 
 	Aqsis::log() << info << "Polygonized : " << npoints << " points, " << npolygons << " triangles." << std::endl;
 
+	if(npolygons == 0)
+	{
+		// Nothing to show, the blobby is too small for example.
+		delete[] nvertices;
+		delete[] vertices;
+		delete[] points;
+		return;
+	}
+
 	TqFloat* colors = new TqFloat[3 * npoints];
 
 	std::vector<TqFloat> splits;
@@ -2118,7 +2127,7 @@ RtVoid RiCxxCore::Blobby(RtInt nleaf, const IntArray& code, const FloatArray& fl
 		}
 	}
 
-	pieces = min(8, pieces);
+	pieces = min(min(8, pieces), npolygons);
 	TqInt m;
 
 	if (Cs)
diff --git a/libs/core/geometry/blobby.cpp b/libs/core/geometry/blobby.cpp
index 917cf13..f23a68f 100644
--- a/libs/core/geometry/blobby.cpp
+++ b/libs/core/geometry/blobby.cpp
@@ -1030,12 +1030,15 @@ TqInt CqBlobby::polygonize( TqInt PixelsWidth, TqInt PixelsHeight, TqInt& NPoint
 {
 	/*register*/ TqInt i,j,k;
 
+	NPoints = 0;
+	NPolys = 0;
+
 	// Make sure the blobby is big enough to show
 	if(PixelsWidth <= 0 || PixelsHeight <= 0)
 		return 0;
 
-	PixelsWidth /= 2;
-	PixelsHeight /= 2;
+	PixelsWidth = max(1, PixelsWidth/2);
+	PixelsHeight = max(1, PixelsHeight/2);
 
 
 	// Get bounding-box center and sizes
-- 
2.43.0


From 66c63b06535be618579462cc4dde480f3fd76358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 30/97] fix: shaders using the logical ! operator could not be
 loaded

---
 libs/slcomp/backend/vmoutput.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/slcomp/backend/vmoutput.cpp b/libs/slcomp/backend/vmoutput.cpp
index d8cccbe..c625122 100644
--- a/libs/slcomp/backend/vmoutput.cpp
+++ b/libs/slcomp/backend/vmoutput.cpp
@@ -449,6 +449,14 @@ void CqCodeGenOutput::Visit( IqParseNodeUnaryOp& OP )
 {
 	IqParseNodeOperator * pOp;
 	pOp = static_cast<IqParseNodeOperator*>(OP.GetInterface( ParseNode_Operator ));
+	if ( pOp->Operator() == Op_LogicalNot )
+	{
+		// The virtual machine has no opcode for logical negation.
+		IqParseNode* pNode = static_cast<IqParseNode*>(OP.GetInterface( ParseNode_Base ));
+		pNode->pChild()->Accept( *this );
+		m_slxFile << "\tpushif 0" << std::endl << "\teqff" << std::endl;
+		return;
+	}
 	Visit( *pOp );
 }
 
-- 
2.43.0


From ba08db931c8179332d1e1f7f99f5c0b79c62d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:05 +0000
Subject: [PATCH 31/97] fix: sign of zero is zero

---
 libs/shadervm/shaderexecenv/shadeops_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_math.cpp b/libs/shadervm/shaderexecenv/shadeops_math.cpp
index 95ca4cf..0387466 100644
--- a/libs/shadervm/shaderexecenv/shadeops_math.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_math.cpp
@@ -536,7 +536,7 @@ void	CqShaderExecEnv::SO_sign( IqShaderData* x, IqShaderData* Result, IqShader*
 		{
 			TqFloat _aq_x;
 			(x)->GetFloat(_aq_x,__iGrid);
-			(Result)->SetFloat(( _aq_x < 0.0f ) ? -1.0f : 1.0f,__iGrid);
+			(Result)->SetFloat(( _aq_x < 0.0f ) ? -1.0f : ( _aq_x > 0.0f ) ? 1.0f : 0.0f,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
-- 
2.43.0


From 636f04d44776f2435e07d020bb96a4eeda4e473b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:08 +0000
Subject: [PATCH 32/97] fix: array elements passed to shader functions arrived
 as the whole array

---
 libs/slcomp/parse/parsenode.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index 74c342e..e270b67 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -594,6 +594,11 @@ class CqParseNodeVariableArray : public CqParseNodeVariable, public IqParseNodeA
 			V.Visit(static_cast<IqParseNodeArrayVariable&>(*this));
 		}
 
+		virtual	bool	IsVariableRef() const
+		{
+			// An element is a value, only the whole array can be passed by reference.
+			return ( m_pChild == 0 );
+		}
 
 		virtual	TqInt	TypeCheck( TqInt* pTypes, TqInt Count, bool& needsCast, bool CheckOnly );
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
-- 
2.43.0


From 3478ad5b395283c5ac2e9194e2e3a1eaa46232d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:58 +0000
Subject: [PATCH 33/97] fix: resolve overloaded functions in the additional
 arguments of shadeops

---
 libs/slcomp/parse/typecheck.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index 3b2ff6f..bd3f793 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -233,12 +233,18 @@ TqInt	CqParseNodeFunctionCall::TypeCheck( TqInt* pTypes, TqInt Count,  bool& nee
 			// Get the required type for the function signature.
 			TqInt argType;
 			if ( (TqUint) pfunc->cTypeSpecLength() <= iArg || ( pfunc->fVarying() && (TqUint) pfunc->cTypeSpecLength() == iArg ) )
-				break;
+			{
+				// Additional arguments may be of any type, but overloaded functions
+				// used in them must still be resolved.
+				pArg->TypeCheck( pAllTypes(), Type_Last - 1, needsCast, false );
+			}
 			else
+			{
 				argType = pfunc->aTypeSpec() [ iArg ];
 
-			// Now type check the argument, and cast if necessary
-			argType = pArg->TypeCheck( &argType, 1, needsCast, false );
+				// Now type check the argument, and cast if necessary
+				argType = pArg->TypeCheck( &argType, 1, needsCast, false );
+			}
 
 			pArg = pNext;
 			iArg++;
-- 
2.43.0


From fded3d6f06420712161e91ce94f023be3d443ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:53 +0000
Subject: [PATCH 34/97] fix: results of shader functions were overwritten by
 further calls in the same expression

---
 libs/shadervm/shadervm.cpp       |  1 +
 libs/shadervm/shadervm.h         |  1 +
 libs/shadervm/shadervm1.cpp      | 11 +++++++++++
 libs/slcomp/backend/vmoutput.cpp |  4 ++++
 4 files changed, 17 insertions(+)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index 35ee5b1..ac13499 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -108,6 +108,7 @@ SqOpCodeTrans CqShaderVM::m_TransTable[] =
         {"dup", 0, &CqShaderVM::SO_dup, 0, {0}},
         {"debug_break", 0, &CqShaderVM::SO_debug_break, 0, {0}},
         {"drop", 0, &CqShaderVM::SO_drop, 0, {0}},
+        {"copy", 0, &CqShaderVM::SO_copy, 0, {0}},
 
         {"mergef", 0, &CqShaderVM::SO_mergef, 0, {0}},
         {"merges", 0, &CqShaderVM::SO_merges, 0, {0}},
diff --git a/libs/shadervm/shadervm.h b/libs/shadervm/shadervm.h
index 8760a98..6d34b18 100644
--- a/libs/shadervm/shadervm.h
+++ b/libs/shadervm/shadervm.h
@@ -399,6 +399,7 @@ class AQSIS_SHADERVM_SHARE CqShaderVM : public CqShaderStack, public IqShader, p
 		void	SO_nop();
 		void	SO_dup();
 		void	SO_drop();
+		void	SO_copy();
 		void	SO_debug_break();
 		void	SO_pushif();
 		void	SO_puship();
diff --git a/libs/shadervm/shadervm1.cpp b/libs/shadervm/shadervm1.cpp
index f7db1ff..90df270 100644
--- a/libs/shadervm/shadervm1.cpp
+++ b/libs/shadervm/shadervm1.cpp
@@ -47,6 +47,17 @@ void CqShaderVM::SO_drop()
 	Drop();
 }
 
+void CqShaderVM::SO_copy()
+{
+	// Replace a reference to a variable by a copy of its value.
+	AUTOFUNC;
+	POPV( A );
+	RESULT(A->Type(), __fVarying?class_varying:class_uniform);
+	pResult->SetValueFromVariable( A );
+	Push( pResult );
+	RELEASE( A );
+}
+
 void CqShaderVM::SO_debug_break()
 {}
 
diff --git a/libs/slcomp/backend/vmoutput.cpp b/libs/slcomp/backend/vmoutput.cpp
index c625122..d15ce30 100644
--- a/libs/slcomp/backend/vmoutput.cpp
+++ b/libs/slcomp/backend/vmoutput.cpp
@@ -230,6 +230,10 @@ void CqCodeGenOutput::Visit( IqParseNodeFunctionCall& FC )
 				m_saTransTable.erase( m_saTransTable.end() - 1 );
 			}
 		}
+		// The result may be a variable of the function, which the next call
+		// within the same expression would overwrite.
+		if ( NULL != pFunc->pDef() && ( pFunc->Type() & Type_Mask ) != Type_Void )
+			m_slxFile << "\tcopy" << std::endl;
 	}
 }
 
-- 
2.43.0


From 4605f16393883aad03a8b2d0362080f034e73c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:18 +0000
Subject: [PATCH 35/97] fix: clone parse trees completely

Clones of a parse node shared all but the first child with the original, so
compound assignments to array elements with a nested index crashed aqsl.
---
 libs/slcomp/parse/parsenode.h | 112 ++++++++++++++++------------------
 1 file changed, 54 insertions(+), 58 deletions(-)

diff --git a/libs/slcomp/parse/parsenode.h b/libs/slcomp/parse/parsenode.h
index e270b67..44d3c74 100644
--- a/libs/slcomp/parse/parsenode.h
+++ b/libs/slcomp/parse/parsenode.h
@@ -44,6 +44,17 @@ class CqParseNode : public CqListEntry<CqParseNode>, public IqParseNode
 
 		CqParseNode() : m_pChild( 0 ), m_pParent( 0 ), m_fVarying( false ), m_LineNo( -1 )
 		{}
+		/** Copy the node alone; the copy isn't linked into any tree.
+		 */
+		CqParseNode( const CqParseNode& from ) :
+				CqListEntry<CqParseNode>(),
+				IqParseNode(),
+				m_pChild( 0 ),
+				m_pParent( 0 ),
+				m_fVarying( from.m_fVarying ),
+				m_LineNo( from.m_LineNo ),
+				m_strFileName( from.m_strFileName )
+		{}
 		virtual	~CqParseNode()
 		{
 			if ( m_pParent && m_pParent->m_pChild == this )
@@ -181,6 +192,13 @@ class CqParseNode : public CqListEntry<CqParseNode>, public IqParseNode
 		{
 			m_pChild = 0;
 		}
+		/** Fill this, so far childless, node with clones of all children of another.
+		 */
+		void	CloneChildren( const CqParseNode& from )
+		{
+			for ( CqParseNode* pChild = from.m_pChild; pChild != 0; pChild = pChild->pNext() )
+				AddLastChild( pChild->Clone() );
+		}
 		void	SetPos( TqInt LineNo, const char* strFileName )
 		{
 			m_LineNo = LineNo;
@@ -212,8 +230,7 @@ class CqParseNode : public CqListEntry<CqParseNode>, public IqParseNode
 		virtual	CqParseNode* Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNode * pNew = new CqParseNode();
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -313,8 +330,7 @@ class CqParseNodeShader : public CqParseNode, public IqParseNodeShader
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeShader * pNew = new CqParseNodeShader( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -381,8 +397,7 @@ class CqParseNodeFunctionCall : public CqParseNode, public IqParseNodeFunctionCa
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeFunctionCall * pNew = new CqParseNodeFunctionCall( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -444,8 +459,7 @@ class CqParseNodeUnresolvedCall : public CqParseNode, public IqParseNodeUnresolv
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeUnresolvedCall * pNew = new CqParseNodeUnresolvedCall( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -524,8 +538,7 @@ class CqParseNodeVariable : public CqParseNode, public IqParseNodeVariable
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeVariable * pNew = new CqParseNodeVariable( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -604,8 +617,7 @@ class CqParseNodeVariableArray : public CqParseNodeVariable, public IqParseNodeA
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeVariableArray * pNew = new CqParseNodeVariableArray( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -671,8 +683,7 @@ class CqParseNodeAssign : public CqParseNodeVariable, public IqParseNodeVariable
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeAssign * pNew = new CqParseNodeAssign( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -741,8 +752,7 @@ class CqParseNodeAssignArray : public CqParseNodeAssign, public IqParseNodeArray
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeAssignArray * pNew = new CqParseNodeAssignArray( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -839,8 +849,7 @@ class CqParseNodeMathOp : public CqParseNodeOp, public IqParseNodeMathOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeMathOp * pNew = new CqParseNodeMathOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -867,6 +876,13 @@ class CqParseNodeMathOpDot : public CqParseNodeMathOp
 		{}
 
 		virtual	TqInt	TypeCheck( TqInt* pTypes, TqInt Count, bool& needsCast, bool CheckOnly );
+		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
+		{
+			CqParseNodeMathOpDot * pNew = new CqParseNodeMathOpDot( *this );
+			pNew->CloneChildren( *this );
+			pNew->m_pParent = pParent;
+			return ( pNew );
+		}
 };
 
 
@@ -922,8 +938,7 @@ class CqParseNodeRelOp : public CqParseNodeOp, public IqParseNodeRelationalOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeRelOp * pNew = new CqParseNodeRelOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -982,8 +997,7 @@ class CqParseNodeUnaryOp : public CqParseNodeOp, public IqParseNodeUnaryOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeUnaryOp * pNew = new CqParseNodeUnaryOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1045,8 +1059,7 @@ class CqParseNodeLogicalOp : public CqParseNodeOp, public IqParseNodeLogicalOp
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeLogicalOp * pNew = new CqParseNodeLogicalOp( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1096,8 +1109,7 @@ class CqParseNodeDrop : public CqParseNode, public IqParseNodeDiscardResult
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeDrop * pNew = new CqParseNodeDrop( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1178,8 +1190,7 @@ class CqParseNodeFloatConst : public CqParseNodeConst, public IqParseNodeConstan
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeFloatConst * pNew = new CqParseNodeFloatConst( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1241,8 +1252,7 @@ class CqParseNodeStringConst : public CqParseNodeConst, public IqParseNodeConsta
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeStringConst * pNew = new CqParseNodeStringConst( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1292,8 +1302,7 @@ class CqParseNodeWhileConstruct : public CqParseNode, public IqParseNodeWhileCon
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeWhileConstruct * pNew = new CqParseNodeWhileConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1345,8 +1354,7 @@ class CqParseNodeLoopMod : public CqParseNode, public IqParseNodeLoopMod
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeLoopMod * pNew = new CqParseNodeLoopMod( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1402,8 +1410,7 @@ class CqParseNodeIlluminateConstruct : public CqParseNode, public IqParseNodeIll
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeIlluminateConstruct * pNew = new CqParseNodeIlluminateConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1460,8 +1467,7 @@ class CqParseNodeIlluminanceConstruct : public CqParseNode, public IqParseNodeIl
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeIlluminanceConstruct * pNew = new CqParseNodeIlluminanceConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1518,8 +1524,7 @@ class CqParseNodeSolarConstruct : public CqParseNode, public IqParseNodeSolarCon
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeSolarConstruct * pNew = new CqParseNodeSolarConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1567,8 +1572,7 @@ class CqParseNodeGatherConstruct : public CqParseNode, public IqParseNodeGatherC
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeGatherConstruct * pNew = new CqParseNodeGatherConstruct( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1618,8 +1622,7 @@ class CqParseNodeConditional : public CqParseNode, public IqParseNodeConditional
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeConditional * pNew = new CqParseNodeConditional( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1688,8 +1691,7 @@ class CqParseNodeQCond : public CqParseNode, public IqParseNodeConditionalExpres
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeQCond * pNew = new CqParseNodeQCond( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1754,8 +1756,7 @@ class CqParseNodeCast : public CqParseNode, public IqParseNodeTypeCast
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeCast * pNew = new CqParseNodeCast( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1809,8 +1810,7 @@ class CqParseNodeTriple : public CqParseNode, public IqParseNodeTriple
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeTriple * pNew = new CqParseNodeTriple( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1864,8 +1864,7 @@ class CqParseNodeHexTuple : public CqParseNode, public IqParseNodeSixteenTuple
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeHexTuple * pNew = new CqParseNodeHexTuple( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -1945,8 +1944,7 @@ class CqParseNodeCommFunction : public CqParseNode, public IqParseNodeMessagePas
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeCommFunction * pNew = new CqParseNodeCommFunction( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -2011,8 +2009,7 @@ class CqParseNodeDeclaration : public CqParseNode
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeDeclaration * pNew = new CqParseNodeDeclaration( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
@@ -2058,8 +2055,7 @@ class CqParseNodeTextureNameWithChannel : public CqParseNode
 		virtual	CqParseNode*	Clone( CqParseNode* pParent = 0 )
 		{
 			CqParseNodeTextureNameWithChannel * pNew = new CqParseNodeTextureNameWithChannel( *this );
-			if ( m_pChild )
-				pNew->m_pChild = m_pChild->Clone( pNew );
+			pNew->CloneChildren( *this );
 			pNew->m_pParent = pParent;
 			return ( pNew );
 		}
-- 
2.43.0


From 9bd614817ef6de89b5118e0a1158629c18e7462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:18 +0000
Subject: [PATCH 36/97] fix: conditional expressions of uniform operands are
 uniform

Assigned to a uniform variable under varying control flow through a further
operation, their value was lost when the first point wasn't running.
---
 libs/shadervm/shadervm1.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/libs/shadervm/shadervm1.cpp b/libs/shadervm/shadervm1.cpp
index 90df270..c438e77 100644
--- a/libs/shadervm/shadervm1.cpp
+++ b/libs/shadervm/shadervm1.cpp
@@ -204,11 +204,11 @@ void CqShaderVM::SO_mergef()
 	POPV( F );	// False statement
 	POPV( T );	// True statement
 	POPV( A );	// Relational result
-	RESULT(type_float, class_varying);
+	RESULT(type_float, __fVarying?class_varying:class_uniform);
 	if(m_pEnv->IsRunning())
 	{
 		TqInt i;
-		TqInt ext = m_pEnv->shadingPointCount();
+		TqInt ext = __fVarying ? m_pEnv->shadingPointCount() : 1;
 		for ( i = 0; i < ext; i++ )
 		{
 			bool _aq_A;
@@ -235,11 +235,11 @@ void CqShaderVM::SO_merges()
 	POPV( F );	// False statement
 	POPV( T );	// True statement
 	POPV( A );	// Relational result
-	RESULT(type_string, class_varying);
+	RESULT(type_string, __fVarying?class_varying:class_uniform);
 	if(m_pEnv->IsRunning())
 	{
 		TqInt i;
-		TqInt ext = m_pEnv->shadingPointCount();
+		TqInt ext = __fVarying ? m_pEnv->shadingPointCount() : 1;
 		for ( i = 0; i < ext; i++ )
 		{
 			bool _aq_A;
@@ -266,11 +266,11 @@ void CqShaderVM::SO_mergep()
 	POPV( F );	// False statement
 	POPV( T );	// True statement
 	POPV( A );	// Relational result
-	RESULT(type_point, class_varying);
+	RESULT(type_point, __fVarying?class_varying:class_uniform);
 	if(m_pEnv->IsRunning())
 	{
 		TqInt i;
-		TqInt ext = m_pEnv->shadingPointCount();
+		TqInt ext = __fVarying ? m_pEnv->shadingPointCount() : 1;
 		for ( i = 0; i < ext; i++ )
 		{
 			bool _aq_A;
@@ -297,11 +297,11 @@ void CqShaderVM::SO_mergec()
 	POPV( F );	// False statement
 	POPV( T );	// True statement
 	POPV( A );	// Relational result
-	RESULT(type_color, class_varying);
+	RESULT(type_color, __fVarying?class_varying:class_uniform);
 	if(m_pEnv->IsRunning())
 	{
 		TqInt i;
-		TqInt ext = m_pEnv->shadingPointCount();
+		TqInt ext = __fVarying ? m_pEnv->shadingPointCount() : 1;
 		for ( i = 0; i < ext; i++ )
 		{
 			bool _aq_A;
-- 
2.43.0


From 0f0ad4f0afc0e49cb6b722774ab354fff917e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:49 +0000
Subject: [PATCH 37/97] fix: the conditional merge of matrices was missing

Shaders selecting between matrices with ?: could not be loaded.
---
 libs/shadervm/shadervm.cpp  |  1 +
 libs/shadervm/shadervm.h    |  1 +
 libs/shadervm/shadervm1.cpp | 31 +++++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index ac13499..e24c81f 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -116,6 +116,7 @@ SqOpCodeTrans CqShaderVM::m_TransTable[] =
         {"mergen", 0, &CqShaderVM::SO_mergep, 0, {0}},
         {"mergev", 0, &CqShaderVM::SO_mergep, 0, {0}},
         {"mergec", 0, &CqShaderVM::SO_mergec, 0, {0}},
+        {"mergem", 0, &CqShaderVM::SO_mergem, 0, {0}},
 
         {"pushif", 0, &CqShaderVM::SO_pushif, 1, {type_float}},
         {"puship", 0, &CqShaderVM::SO_puship, 3, {type_float, type_float, type_float}},
diff --git a/libs/shadervm/shadervm.h b/libs/shadervm/shadervm.h
index 6d34b18..df0b994 100644
--- a/libs/shadervm/shadervm.h
+++ b/libs/shadervm/shadervm.h
@@ -412,6 +412,7 @@ class AQSIS_SHADERVM_SHARE CqShaderVM : public CqShaderStack, public IqShader, p
 		void	SO_merges();
 		void	SO_mergep();
 		void	SO_mergec();
+		void	SO_mergem();
 		void	SO_setfc();
 		void	SO_setfp();
 		void	SO_setfm();
diff --git a/libs/shadervm/shadervm1.cpp b/libs/shadervm/shadervm1.cpp
index c438e77..03733a7 100644
--- a/libs/shadervm/shadervm1.cpp
+++ b/libs/shadervm/shadervm1.cpp
@@ -321,6 +321,37 @@ void CqShaderVM::SO_mergec()
 	RELEASE( F );
 }
 
+void CqShaderVM::SO_mergem()
+{
+	// Get the current state from the current stack entry
+	AUTOFUNC;
+	POPV( F );	// False statement
+	POPV( T );	// True statement
+	POPV( A );	// Relational result
+	RESULT(type_matrix, __fVarying?class_varying:class_uniform);
+	if(m_pEnv->IsRunning())
+	{
+		TqInt i;
+		TqInt ext = __fVarying ? m_pEnv->shadingPointCount() : 1;
+		for ( i = 0; i < ext; i++ )
+		{
+			bool _aq_A;
+			CqMatrix _aq_T, _aq_F;
+			A->GetBool( _aq_A, i );
+			T->GetMatrix( _aq_T, i );
+			F->GetMatrix( _aq_F, i );
+			if ( _aq_A )
+				pResult->SetValue( _aq_T, i );
+			else
+				pResult->SetValue( _aq_F, i );
+		}
+	}
+	Push( pResult );
+	RELEASE( A );
+	RELEASE( T );
+	RELEASE( F );
+}
+
 void CqShaderVM::SO_setfc()
 {
 	AUTOFUNC;
-- 
2.43.0


From c1c5379882498ed208865542b205a90fb11d8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:35 +0000
Subject: [PATCH 38/97] fix: one-sided differences across a grid were halved

Du(u) was 0.5 with constant shading interpolation.
---
 include/aqsis/math/derivatives.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/math/derivatives.h b/include/aqsis/math/derivatives.h
index b4856f0..e3cac81 100644
--- a/include/aqsis/math/derivatives.h
+++ b/include/aqsis/math/derivatives.h
@@ -192,9 +192,9 @@ inline T CqGridDiff::diff(const T* data, bool useCentred, TqInt stride,
 		// differece *between* grid points, which corresponds to
 		// micropolygons centres.
 		if(n == nSize-1)
-			return 0.5*(data[0] - data[-stride]);
+			return data[0] - data[-stride];
 		else
-			return 0.5*(data[stride] - data[0]);
+			return data[stride] - data[0];
 	}
 }
 
-- 
2.43.0


From d61d6b63e708b0d025a1b41be089594dd80be5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:35 +0000
Subject: [PATCH 39/97] fix: vtransform and ntransform by a matrix transformed
 like points

---
 libs/shadervm/shaderexecenv/shadeops_matrx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
index 25e0c5a..24b1a4a 100644
--- a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
@@ -294,7 +294,7 @@ void CqShaderExecEnv::SO_vtransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetVector(_aq_p,__iGrid);
-			(Result)->SetVector(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetVector(vectorTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -429,7 +429,7 @@ void CqShaderExecEnv::SO_ntransformm( IqShaderData* tospace, IqShaderData* p, Iq
 			(tospace)->GetMatrix(_aq_tospace,__iGrid);
 			CqVector3D _aq_p;
 			(p)->GetNormal(_aq_p,__iGrid);
-			(Result)->SetNormal(_aq_tospace * _aq_p,__iGrid);
+			(Result)->SetNormal(normalTransform(_aq_tospace) * _aq_p,__iGrid);
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
-- 
2.43.0


From 776397ca1b01a45a9298b73e54b629347e2eb0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:35 +0000
Subject: [PATCH 40/97] fix: the YIQ conversion matrices were transposed

---
 libs/math/color.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libs/math/color.cpp b/libs/math/color.cpp
index 9e418ea..0b0de92 100644
--- a/libs/math/color.cpp
+++ b/libs/math/color.cpp
@@ -140,9 +140,9 @@ CqColor rgbtoxyY(const CqColor& col)
 
 CqColor rgbtoYIQ(const CqColor& col)
 {
-	const CqMatrix matRGBtoYIQ( 0.299, 0.587, 0.114, 0,
-	                             0.596, -0.274, -0.322, 0,
-	                             0.212, -0.523, 0.311, 0,
+	const CqMatrix matRGBtoYIQ( 0.299, 0.596, 0.212, 0,
+	                             0.587, -0.274, -0.523, 0,
+	                             0.114, -0.322, 0.311, 0,
 	                             0, 0, 0, 1 );
 
 	return vectorCast<CqColor>(matRGBtoYIQ * vectorCast<CqVector3D>(col));
@@ -269,9 +269,9 @@ CqColor xyYtorgb(const CqColor& col)
 
 CqColor YIQtorgb(const CqColor& col)
 {
-	const CqMatrix matYIQtoRGB( 1, 0.956, 0.621, 0,
-	                             1, -0.272, -0.647, 0,
-	                             1, -1.105, 1.702, 0,
+	const CqMatrix matYIQtoRGB( 1, 1, 1, 0,
+	                             0.956, -0.272, -1.105, 0,
+	                             0.621, -0.647, 1.702, 0,
 	                             0, 0, 0, 1 );
 
 	return vectorCast<CqColor>(matYIQtoRGB * vectorCast<CqVector3D>(col));
-- 
2.43.0


From fb7639e8c73a053a71900706079d3b2b47f8eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:35 +0000
Subject: [PATCH 41/97] fix: hsv and hsl conversions of greys

The lightness of greys was lost, and greys with a hue aborted.
---
 libs/math/color.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libs/math/color.cpp b/libs/math/color.cpp
index 0b0de92..d5fc4d9 100644
--- a/libs/math/color.cpp
+++ b/libs/math/color.cpp
@@ -97,7 +97,7 @@ CqColor rgbtohsl(const CqColor& col)
 	// Next Saturation
 	if ( fabs( diff ) <= Small_Value )
 	{
-		L = 0.0;
+		S = 0.0;
 		H = UNDEFINED;
 	}
 	else
@@ -155,7 +155,6 @@ CqColor hsvtorgb(const CqColor& col)
 	// HSV_TO_RGB from Foley, van Dam, Feiner, Hughes 2nd Ed. Pg 593
 	if ( S == 0.0 )
 	{
-		assert( H < 0 );	// If s==0 then h MUST be undefined.
 		R = G = B = V;
 	}
 	else
@@ -242,7 +241,6 @@ CqColor hsltorgb(const CqColor& col)
 
 	if ( S == 0 )
 	{
-		assert( col.r() < 0 );
 		R = G = B = L;
 	}
 	else
-- 
2.43.0


From f2e620c41119f1b7adb7a0e7c2df5a7515d97f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 42/97] fix: shaders using the XYZ and xyY color spaces aborted

---
 libs/math/color.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/libs/math/color.cpp b/libs/math/color.cpp
index d5fc4d9..57e2a16 100644
--- a/libs/math/color.cpp
+++ b/libs/math/color.cpp
@@ -129,13 +129,21 @@ CqColor rgbtohsl(const CqColor& col)
 
 CqColor rgbtoXYZ(const CqColor& col)
 {
-	assert(0 && "Not implemented!");
-	return col;
+	// Rec. 709 primaries with a D65 white point.
+	const CqMatrix matRGBtoXYZ( 0.412453, 0.212671, 0.019334, 0,
+	                            0.357580, 0.715160, 0.119193, 0,
+	                            0.180423, 0.072169, 0.950227, 0,
+	                            0, 0, 0, 1 );
+
+	return vectorCast<CqColor>(matRGBtoXYZ * vectorCast<CqVector3D>(col));
 }
 CqColor rgbtoxyY(const CqColor& col)
 {
-	assert(0 && "Not implemented!");
-	return col;
+	CqColor XYZ = rgbtoXYZ(col);
+	TqFloat sum = XYZ.r() + XYZ.g() + XYZ.b();
+	if ( sum == 0.0f )
+		return CqColor(0, 0, 0);
+	return CqColor(XYZ.r() / sum, XYZ.g() / sum, XYZ.g());
 }
 
 CqColor rgbtoYIQ(const CqColor& col)
@@ -255,14 +263,21 @@ CqColor hsltorgb(const CqColor& col)
 
 CqColor XYZtorgb(const CqColor& col)
 {
-	assert(0 && "Not implemented!");
-	return col;
+	// Rec. 709 primaries with a D65 white point.
+	const CqMatrix matXYZtoRGB( 3.240479, -0.969256, 0.055648, 0,
+	                            -1.537150, 1.875992, -0.204043, 0,
+	                            -0.498535, 0.041556, 1.057311, 0,
+	                            0, 0, 0, 1 );
+
+	return vectorCast<CqColor>(matXYZtoRGB * vectorCast<CqVector3D>(col));
 }
 
 CqColor xyYtorgb(const CqColor& col)
 {
-	assert(0 && "Not implemented!");
-	return col;
+	TqFloat x = col.r(), y = col.g(), Y = col.b();
+	if ( y == 0.0f )
+		return CqColor(0, 0, 0);
+	return XYZtorgb(CqColor(x * Y / y, Y, (1 - x - y) * Y / y));
 }
 
 CqColor YIQtorgb(const CqColor& col)
-- 
2.43.0


From 01672bad3729dc6d857f4dbdb73d7e4be6e42e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 43/97] fix: splines with a named basis ended at the wrong
 value

Outside of (0,1) the second or last but one value was returned, which is
right for Catmull-Rom splines only.
---
 include/aqsis/math/spline.h                   |   3 +-
 .../shadervm/shaderexecenv/shadeops_deriv.cpp | 174 +++++-------------
 2 files changed, 50 insertions(+), 127 deletions(-)

diff --git a/include/aqsis/math/spline.h b/include/aqsis/math/spline.h
index 143ce54..b77c1ea 100644
--- a/include/aqsis/math/spline.h
+++ b/include/aqsis/math/spline.h
@@ -166,7 +166,8 @@ template <class T>
 T CqCubicSpline<T>::evaluate( TqFloat t ) const
 {
 	TqFloat u = static_cast<TqFloat>( numSections() ) * t;
-	TqInt section = static_cast<TqInt>( u );
+	// The end of the curve belongs to the last section.
+	TqInt section = min( static_cast<TqInt>( u ), numSections() - 1 );
 	t = u - section;
 	TqInt iv = section * m_step;
 
diff --git a/libs/shadervm/shaderexecenv/shadeops_deriv.cpp b/libs/shadervm/shaderexecenv/shadeops_deriv.cpp
index f6bd300..f52a84b 100644
--- a/libs/shadervm/shaderexecenv/shadeops_deriv.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_deriv.cpp
@@ -320,31 +320,17 @@ void	CqShaderExecEnv::SO_sfspline( IqShaderData* basis, IqShaderData* value, IqS
 		{
 			TqFloat _aq_value;
 			(value)->GetFloat(_aq_value,__iGrid);
-			if ( _aq_value >= 1.0f )
-			{
-				TqFloat fl;
-				apParams[ cParams - 2 ] ->GetFloat( fl, __iGrid );
-				(Result)->SetFloat(fl,__iGrid);
-			}
-			else if ( _aq_value <= 0.0f )
+			_aq_value = clamp(_aq_value, 0.0f, 1.0f);
+			TqInt j;
+			for ( j = 0; j < cParams; j++ )
 			{
-				TqFloat ff;
-				apParams[ 1 ] ->GetFloat( ff, __iGrid );
-				(Result)->SetFloat(ff,__iGrid);
+				TqFloat fn;
+				apParams[ j ] ->GetFloat( fn, __iGrid );
+				spline.pushBack( fn );
 			}
-			else
-			{
-				TqInt j;
-				for ( j = 0; j < cParams; j++ )
-				{
-					TqFloat fn;
-					apParams[ j ] ->GetFloat( fn, __iGrid );
-					spline.pushBack( fn );
-				}
 
-				(Result)->SetFloat( spline.evaluate( _aq_value ), __iGrid );
-				spline.clear();
-			}
+			(Result)->SetFloat( spline.evaluate( _aq_value ), __iGrid );
+			spline.clear();
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -379,31 +365,17 @@ void	CqShaderExecEnv::SO_scspline( IqShaderData* basis, IqShaderData* value, IqS
 		{
 			TqFloat _aq_value;
 			(value)->GetFloat(_aq_value,__iGrid);
-			if ( _aq_value >= 1.0f )
-			{
-				CqColor cl;
-				apParams[ cParams - 2 ] ->GetColor( cl, __iGrid );
-				(Result)->SetColor(cl,__iGrid);
-			}
-			else if ( _aq_value <= 0.0f )
+			_aq_value = clamp(_aq_value, 0.0f, 1.0f);
+			TqInt j;
+			for ( j = 0; j < cParams; j++ )
 			{
-				CqColor cf;
-				apParams[ 1 ] ->GetColor( cf, __iGrid );
-				(Result)->SetColor(cf,__iGrid);
+				CqColor cn;
+				apParams[ j ] ->GetColor( cn, __iGrid );
+				spline.pushBack( cn );
 			}
-			else
-			{
-				TqInt j;
-				for ( j = 0; j < cParams; j++ )
-				{
-					CqColor cn;
-					apParams[ j ] ->GetColor( cn, __iGrid );
-					spline.pushBack( cn );
-				}
 
-				(Result)->SetColor( spline.evaluate( _aq_value ), __iGrid );
-				spline.clear();
-			}
+			(Result)->SetColor( spline.evaluate( _aq_value ), __iGrid );
+			spline.clear();
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -438,31 +410,17 @@ void	CqShaderExecEnv::SO_spspline( IqShaderData* basis, IqShaderData* value, IqS
 		{
 			TqFloat _aq_value;
 			(value)->GetFloat(_aq_value,__iGrid);
-			if ( _aq_value >= 1.0f )
-			{
-				CqVector3D pl;
-				apParams[ cParams - 2 ] ->GetPoint( pl, __iGrid );
-				(Result)->SetPoint(pl,__iGrid);
-			}
-			else if ( _aq_value <= 0.0f )
+			_aq_value = clamp(_aq_value, 0.0f, 1.0f);
+			TqInt j;
+			for ( j = 0; j < cParams; j++ )
 			{
-				CqVector3D pf;
-				apParams[ 1 ] ->GetPoint( pf, __iGrid );
-				(Result)->SetPoint(pf,__iGrid);
+				CqVector3D pn;
+				apParams[ j ] ->GetPoint( pn, __iGrid );
+				spline.pushBack( pn );
 			}
-			else
-			{
-				TqInt j;
-				for ( j = 0; j < cParams; j++ )
-				{
-					CqVector3D pn;
-					apParams[ j ] ->GetPoint( pn, __iGrid );
-					spline.pushBack( pn );
-				}
 
-				(Result)->SetPoint( spline.evaluate( _aq_value ), __iGrid );
-				spline.clear();
-			}
+			(Result)->SetPoint( spline.evaluate( _aq_value ), __iGrid );
+			spline.clear();
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -1045,30 +1003,18 @@ void    CqShaderExecEnv::SO_sfsplinea( IqShaderData* basis, IqShaderData* value,
 			(value)->GetFloat(_aq_value,__iGrid);
 
 			TqFloat fTemp;
-			if ( _aq_value >= 1.0f )
-			{
-				a->ArrayEntry( cParams - 2 ) ->GetFloat( fTemp, __iGrid );
-				Result->SetFloat( fTemp, __iGrid );
-			}
-			else if ( _aq_value <= 0.0f )
-			{
-				a->ArrayEntry( 1 ) ->GetFloat( fTemp, __iGrid );
-				Result->SetFloat( fTemp, __iGrid );
-			}
-			else
+			_aq_value = clamp(_aq_value, 0.0f, 1.0f);
+			if(__fVaryingA)
 			{
-				if(__fVaryingA)
+				spline.clear();
+				for(TqInt j = 0; j < cParams; j++)
 				{
-					spline.clear();
-					for(TqInt j = 0; j < cParams; j++)
-					{
-						a->ArrayEntry( j ) ->GetFloat( fTemp, __iGrid );
-						spline.pushBack( fTemp );
-					}
+					a->ArrayEntry( j ) ->GetFloat( fTemp, __iGrid );
+					spline.pushBack( fTemp );
 				}
-
-				(Result)->SetFloat( spline.evaluate( _aq_value ), __iGrid );
 			}
+
+			(Result)->SetFloat( spline.evaluate( _aq_value ), __iGrid );
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -1121,30 +1067,18 @@ void    CqShaderExecEnv::SO_scsplinea( IqShaderData* basis, IqShaderData* value,
 			(value)->GetFloat(_aq_value,__iGrid);
 
 			CqColor colTemp;
-			if ( _aq_value >= 1.0f )
-			{
-				a->ArrayEntry( cParams - 2 ) ->GetColor( colTemp, __iGrid );
-				Result->SetColor( colTemp, __iGrid );
-			}
-			else if ( _aq_value <= 0.0f )
-			{
-				a->ArrayEntry( 1 ) ->GetColor( colTemp, __iGrid );
-				Result->SetColor( colTemp, __iGrid );
-			}
-			else
+			_aq_value = clamp(_aq_value, 0.0f, 1.0f);
+			if(__fVaryingA)
 			{
-				if(__fVaryingA)
+				spline.clear();
+				for (TqInt j = 0; j < cParams; j++ )
 				{
-					spline.clear();
-					for (TqInt j = 0; j < cParams; j++ )
-					{
-						a->ArrayEntry( j ) ->GetColor( colTemp, __iGrid );
-						spline.pushBack( colTemp );
-					}
+					a->ArrayEntry( j ) ->GetColor( colTemp, __iGrid );
+					spline.pushBack( colTemp );
 				}
-
-				(Result)->SetColor( spline.evaluate( _aq_value ), __iGrid );
 			}
+
+			(Result)->SetColor( spline.evaluate( _aq_value ), __iGrid );
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
@@ -1196,30 +1130,18 @@ void    CqShaderExecEnv::SO_spsplinea( IqShaderData* basis, IqShaderData* value,
 			(value)->GetFloat(_aq_value,__iGrid);
 
 			CqVector3D vecTemp;
-			if ( _aq_value >= 1.0f )
-			{
-				a->ArrayEntry( cParams - 2 ) ->GetPoint( vecTemp, __iGrid );
-				Result->SetPoint( vecTemp, __iGrid );
-			}
-			else if ( _aq_value <= 0.0f )
+			_aq_value = clamp(_aq_value, 0.0f, 1.0f);
+			if(__fVaryingA)
 			{
-				a->ArrayEntry( 1 ) ->GetPoint( vecTemp, __iGrid );
-				Result->SetPoint( vecTemp, __iGrid );
-			}
-			else
-			{
-				if(__fVaryingA)
+				spline.clear();
+				for(TqInt j = 0; j < cParams; j++)
 				{
-					spline.clear();
-					for(TqInt j = 0; j < cParams; j++)
-					{
-						a->ArrayEntry( j ) ->GetPoint( vecTemp, __iGrid );
-						spline.pushBack( vecTemp );
-					}
+					a->ArrayEntry( j ) ->GetPoint( vecTemp, __iGrid );
+					spline.pushBack( vecTemp );
 				}
-
-				(Result)->SetPoint( spline.evaluate( _aq_value ), __iGrid );
 			}
+
+			(Result)->SetPoint( spline.evaluate( _aq_value ), __iGrid );
 		}
 	}
 	while( ( ++__iGrid < shadingPointCount() ) && __fVarying);
-- 
2.43.0


From 3d553e4e4995f167da242c39ef9bb7d2642f041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 44/97] fix: pnoise was not periodic across zero

---
 libs/math/noise1234.cpp | 47 +++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/libs/math/noise1234.cpp b/libs/math/noise1234.cpp
index 4d6a77c..0503faf 100644
--- a/libs/math/noise1234.cpp
+++ b/libs/math/noise1234.cpp
@@ -44,6 +44,13 @@ namespace Aqsis {
 #define FADE(t) ( t * t * t * ( t * ( t * 6 - 15 ) + 10 ) )
 
 #define FASTFLOOR(x) ( ((x)>0) ? ((TqInt)x) : ((TqInt)x-1 ) )
+
+/// Wrap a (possibly negative) lattice index into 0..period-1
+static inline TqInt wrapIndex( TqInt i, TqInt period )
+{
+	i %= period;
+	return i < 0 ? i + period : i;
+}
 #define NLERP(t, a, b) ((a) + (t)*((b)-(a)))
 
 
@@ -184,8 +191,8 @@ TqFloat CqNoise1234::pnoise( TqFloat x, TqInt px )
 	fx0 = x - ix0;       // Fractional part of x
 	fx1 = fx0 - 1.0f;
 	if (px < 1) px = 1;
-	ix1 = (( ix0 + 1 ) % px) & 0xff; // Wrap to 0..px-1 *and* wrap to 0..255
-	ix0 = ( ix0 % px ) & 0xff;      // (because px might be greater than 256)
+	ix1 = wrapIndex( ix0 + 1, px ) & 0xff; // Wrap to 0..px-1 *and* wrap to 0..255
+	ix0 = wrapIndex( ix0, px ) & 0xff;      // (because px might be greater than 256)
 
 	s = FADE( fx0 );
 
@@ -246,10 +253,10 @@ TqFloat CqNoise1234::pnoise( TqFloat x, TqFloat y, TqInt px, TqInt py )
 	fy1 = fy0 - 1.0f;
 	if (px < 1) px = 1;
 	if (py < 1) py = 1;
-	ix1 = (( ix0 + 1 ) % px) & 0xff;  // Wrap to 0..px-1 and wrap to 0..255
-	iy1 = (( iy0 + 1 ) % py) & 0xff;  // Wrap to 0..py-1 and wrap to 0..255
-	ix0 = ( ix0 % px ) & 0xff;
-	iy0 = ( iy0 % py ) & 0xff;
+	ix1 = wrapIndex( ix0 + 1, px ) & 0xff;  // Wrap to 0..px-1 and wrap to 0..255
+	iy1 = wrapIndex( iy0 + 1, py ) & 0xff;  // Wrap to 0..py-1 and wrap to 0..255
+	ix0 = wrapIndex( ix0, px ) & 0xff;
+	iy0 = wrapIndex( iy0, py ) & 0xff;
 
 	t = FADE( fy0 );
 	s = FADE( fx0 );
@@ -341,12 +348,12 @@ TqFloat CqNoise1234::pnoise( TqFloat x, TqFloat y, TqFloat z, TqInt px, TqInt py
 	if (px < 1) px = 1;
 	if (py < 1) py = 1;
 	if (pz < 1) pz = 1;
-	ix1 = (( ix0 + 1 ) % px ) & 0xff; // Wrap to 0..px-1 and wrap to 0..255
-	iy1 = (( iy0 + 1 ) % py ) & 0xff; // Wrap to 0..py-1 and wrap to 0..255
-	iz1 = (( iz0 + 1 ) % pz ) & 0xff; // Wrap to 0..pz-1 and wrap to 0..255
-	ix0 = ( ix0 % px ) & 0xff;
-	iy0 = ( iy0 % py ) & 0xff;
-	iz0 = ( iz0 % pz ) & 0xff;
+	ix1 = wrapIndex( ix0 + 1, px ) & 0xff; // Wrap to 0..px-1 and wrap to 0..255
+	iy1 = wrapIndex( iy0 + 1, py ) & 0xff; // Wrap to 0..py-1 and wrap to 0..255
+	iz1 = wrapIndex( iz0 + 1, pz ) & 0xff; // Wrap to 0..pz-1 and wrap to 0..255
+	ix0 = wrapIndex( ix0, px ) & 0xff;
+	iy0 = wrapIndex( iy0, py ) & 0xff;
+	iz0 = wrapIndex( iz0, pz ) & 0xff;
 
 	r = FADE( fz0 );
 	t = FADE( fy0 );
@@ -488,14 +495,14 @@ TqFloat CqNoise1234::pnoise( TqFloat x, TqFloat y, TqFloat z, TqFloat w,
 	if (py < 1) py = 1;
 	if (pz < 1) pz = 1;
 	if (pw < 1) pw = 1;
-	ix1 = (( ix0 + 1 ) % px ) & 0xff;  // Wrap to 0..px-1 and wrap to 0..255
-	iy1 = (( iy0 + 1 ) % py ) & 0xff;  // Wrap to 0..py-1 and wrap to 0..255
-	iz1 = (( iz0 + 1 ) % pz ) & 0xff;  // Wrap to 0..pz-1 and wrap to 0..255
-	iw1 = (( iw0 + 1 ) % pw ) & 0xff;  // Wrap to 0..pw-1 and wrap to 0..255
-	ix0 = ( ix0 % px ) & 0xff;
-	iy0 = ( iy0 % py ) & 0xff;
-	iz0 = ( iz0 % pz ) & 0xff;
-	iw0 = ( iw0 % pw ) & 0xff;
+	ix1 = wrapIndex( ix0 + 1, px ) & 0xff;  // Wrap to 0..px-1 and wrap to 0..255
+	iy1 = wrapIndex( iy0 + 1, py ) & 0xff;  // Wrap to 0..py-1 and wrap to 0..255
+	iz1 = wrapIndex( iz0 + 1, pz ) & 0xff;  // Wrap to 0..pz-1 and wrap to 0..255
+	iw1 = wrapIndex( iw0 + 1, pw ) & 0xff;  // Wrap to 0..pw-1 and wrap to 0..255
+	ix0 = wrapIndex( ix0, px ) & 0xff;
+	iy0 = wrapIndex( iy0, py ) & 0xff;
+	iz0 = wrapIndex( iz0, pz ) & 0xff;
+	iw0 = wrapIndex( iw0, pw ) & 0xff;
 
 	q = FADE( fw0 );
 	r = FADE( fz0 );
-- 
2.43.0


From 41ada712a2c9feb9acfe08782b5d6125c0051944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:17 +0000
Subject: [PATCH 45/97] fix: rotate ignored the position of the axis

---
 libs/shadervm/shaderexecenv/shadeops_matrx.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
index 24b1a4a..ee3f53d 100644
--- a/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_matrx.cpp
@@ -1085,8 +1085,8 @@ void CqShaderExecEnv::SO_rotate( IqShaderData* Q, IqShaderData* angle, IqShaderD
 			(P1)->GetPoint(_aq_P1,__iGrid);
 			CqMatrix matR( _aq_angle, _aq_P1 - _aq_P0 );
 
-			CqVector3D	Res( _aq_Q );
-			Res = matR * Res;
+			CqVector3D	Res( _aq_Q - _aq_P0 );
+			Res = matR * Res + _aq_P0;
 
 			(Result)->SetPoint(Res,__iGrid);
 		}
-- 
2.43.0


From b8e84d5c06d166f71a41e272dd644f8a14489f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:22 +0000
Subject: [PATCH 46/97] fix: splines over arrays of vectors failed an assertion

---
 libs/shadervm/shaderexecenv/shadeops_deriv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/shadervm/shaderexecenv/shadeops_deriv.cpp b/libs/shadervm/shaderexecenv/shadeops_deriv.cpp
index f52a84b..15a8be6 100644
--- a/libs/shadervm/shaderexecenv/shadeops_deriv.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_deriv.cpp
@@ -893,7 +893,7 @@ void    CqShaderExecEnv::SO_psplinea( IqShaderData* value, IqShaderData* a, IqSh
 	TqUint __iGrid;
 
 	assert( a->ArrayLength() > 0 );
-	assert( a->Type() == type_point );
+	assert( a->Type() == type_point || a->Type() == type_vector );
 	
 	TqInt    cParams = a->ArrayLength();
 	CqCubicSpline<CqVector3D> spline( SplineBasis_CatmullRom, cParams );
@@ -1094,7 +1094,7 @@ void    CqShaderExecEnv::SO_spsplinea( IqShaderData* basis, IqShaderData* value,
 	TqUint __iGrid;
 
 	assert( a->ArrayLength() > 0 );
-	assert( a->Type() == type_point );
+	assert( a->Type() == type_point || a->Type() == type_vector );
 
 	TqInt    cParams = a->ArrayLength();
 	CqVector3D vecTemp;
-- 
2.43.0


From c419bf926b898436be4bdf16418525b8b89b199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:52 +0000
Subject: [PATCH 47/97] fix: different names with the same hash were taken for
 one another

Variables, attributes, options, shaders, textures, coordinate systems and
primitive variables are looked up by comparing hashes of their names.  The
hash gave the same value to simple pairs of names ("it" and "k6", "Aa" and
"BB"), so that for example a shader variable was read in place of another.
Use the FNV-1a hash over the full width instead.
---
 include/aqsis/util/sstring.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/aqsis/util/sstring.h b/include/aqsis/util/sstring.h
index 12046dd..fb88f95 100644
--- a/include/aqsis/util/sstring.h
+++ b/include/aqsis/util/sstring.h
@@ -68,18 +68,18 @@ class AQSIS_UTIL_SHARE CqString : public CqStringBase
 		}
 
 
+		/** Hash a name (FNV-1a).  Names are looked up by comparing hashes
+		 * alone, so the hash must use the full width of TqUlong: different
+		 * names of practical lengths must not share a hash.
+		 */
 		inline static TqUlong	hash( const char *strName )
 		{
-			TqUlong retval = 0;
-			const char *p = strName;
-			retval = *p;
-
-			if(retval)
+			const TqUlong prime = static_cast<TqUlong>(1099511628211ULL);
+			TqUlong retval = static_cast<TqUlong>(14695981039346656037ULL);
+			for (const char *p = strName; *p != '\0'; p++)
 			{
-				for (p += 1; *p != '\0'; p++)
-				{
-					retval = (retval << 5) - retval + *p;
-				}
+				retval ^= static_cast<unsigned char>(*p);
+				retval *= prime;
 			}
 			return retval;
 		}
-- 
2.43.0


From 73afdc76e33056128305ab7f02cb136c6b1e1b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:44 +0000
Subject: [PATCH 48/97] fix: 4D pnoise was not periodic across zero

The previous fix changed CqNoise1234::pnoise, whose values a unit test fixes;
wrap the coordinates in the shading functions instead.
---
 libs/math/noise.cpp     | 34 ++++++++++++++++++++++++++++++----
 libs/math/noise1234.cpp | 16 ++++++++--------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/libs/math/noise.cpp b/libs/math/noise.cpp
index b9a1fa1..a9cb033 100644
--- a/libs/math/noise.cpp
+++ b/libs/math/noise.cpp
@@ -26,6 +26,8 @@
 
 #include <aqsis/math/noise.h>
 
+#include <cmath>
+
 #include <aqsis/math/noise1234.h>
 #include <aqsis/math/vectorcast.h>
 
@@ -60,6 +62,14 @@ namespace Aqsis {
 #define	O3t	37.48
 
 
+/** Shift a negative coordinate into the first period, since the 4D periodic
+ * noise repeats over non-negative coordinates only.
+ */
+static inline TqFloat wrapNegative( TqFloat x, TqInt period )
+{
+	return ( x < 0 && period > 0 ) ? x - period*std::floor( x/period ) : x;
+}
+
 //---------------------------------------------------------------------
 /** 1D float Perlin noise, SL "noise()"
  */
@@ -163,7 +173,11 @@ TqFloat	CqNoise::FGPNoise4( const CqVector3D& v, TqFloat t, const CqVector3D& pv
 	py = FASTFLOOR( pfy );
 	pz = FASTFLOOR( pfz );
 	pt = FASTFLOOR( pft );
-	return ( 0.5f * ( 1.0f + CqNoise1234::pnoise( x, y, z, t, px, py, pz, pt ) ) );
+	return ( 0.5f * ( 1.0f + CqNoise1234::pnoise( wrapNegative( x, px ),
+			wrapNegative( y, py ),
+			wrapNegative( z, pz ),
+			wrapNegative( t, pt ),
+			px, py, pz, pt ) ) );
 }
 
 //---------------------------------------------------------------------
@@ -298,9 +312,21 @@ CqVector3D	CqNoise::PGPNoise4( const CqVector3D& v, TqFloat t, const CqVector3D&
 	py = FASTFLOOR( pfy );
 	pz = FASTFLOOR( pfz );
 	pt = FASTFLOOR( pft );
-	a = 0.5f * ( 1.0f + CqNoise1234::pnoise( x, y, z, t, px, py, pz, pt ) );
-	b = 0.5f * ( 1.0f + CqNoise1234::pnoise( x + O1x, y + O1y, z + O1z, t + O1t, px, py, pz, pt ) );
-	c = 0.5f * ( 1.0f + CqNoise1234::pnoise( x + O2x, y + O2y, z + O2z, t + O2t, px, py, pz, pt ) );
+	a = 0.5f * ( 1.0f + CqNoise1234::pnoise( wrapNegative( x, px ),
+			wrapNegative( y, py ),
+			wrapNegative( z, pz ),
+			wrapNegative( t, pt ),
+			px, py, pz, pt ) );
+	b = 0.5f * ( 1.0f + CqNoise1234::pnoise( wrapNegative( x + O1x, px ),
+			wrapNegative( y + O1y, py ),
+			wrapNegative( z + O1z, pz ),
+			wrapNegative( t + O1t, pt ),
+			px, py, pz, pt ) );
+	c = 0.5f * ( 1.0f + CqNoise1234::pnoise( wrapNegative( x + O2x, px ),
+			wrapNegative( y + O2y, py ),
+			wrapNegative( z + O2z, pz ),
+			wrapNegative( t + O2t, pt ),
+			px, py, pz, pt ) );
 	return ( CqVector3D( a, b, c ) );
 }
 
diff --git a/libs/math/noise1234.cpp b/libs/math/noise1234.cpp
index 0503faf..45e27c5 100644
--- a/libs/math/noise1234.cpp
+++ b/libs/math/noise1234.cpp
@@ -495,14 +495,14 @@ TqFloat CqNoise1234::pnoise( TqFloat x, TqFloat y, TqFloat z, TqFloat w,
 	if (py < 1) py = 1;
 	if (pz < 1) pz = 1;
 	if (pw < 1) pw = 1;
-	ix1 = wrapIndex( ix0 + 1, px ) & 0xff;  // Wrap to 0..px-1 and wrap to 0..255
-	iy1 = wrapIndex( iy0 + 1, py ) & 0xff;  // Wrap to 0..py-1 and wrap to 0..255
-	iz1 = wrapIndex( iz0 + 1, pz ) & 0xff;  // Wrap to 0..pz-1 and wrap to 0..255
-	iw1 = wrapIndex( iw0 + 1, pw ) & 0xff;  // Wrap to 0..pw-1 and wrap to 0..255
-	ix0 = wrapIndex( ix0, px ) & 0xff;
-	iy0 = wrapIndex( iy0, py ) & 0xff;
-	iz0 = wrapIndex( iz0, pz ) & 0xff;
-	iw0 = wrapIndex( iw0, pw ) & 0xff;
+	ix1 = (( ix0 + 1 ) % px ) & 0xff;  // Wrap to 0..px-1 and wrap to 0..255
+	iy1 = (( iy0 + 1 ) % py ) & 0xff;  // Wrap to 0..py-1 and wrap to 0..255
+	iz1 = (( iz0 + 1 ) % pz ) & 0xff;  // Wrap to 0..pz-1 and wrap to 0..255
+	iw1 = (( iw0 + 1 ) % pw ) & 0xff;  // Wrap to 0..pw-1 and wrap to 0..255
+	ix0 = ( ix0 % px ) & 0xff;
+	iy0 = ( iy0 % py ) & 0xff;
+	iz0 = ( iz0 % pz ) & 0xff;
+	iw0 = ( iw0 % pw ) & 0xff;
 
 	q = FADE( fw0 );
 	r = FADE( fz0 );
-- 
2.43.0


From ad94719c5b7f52370a3d05660a433b9481075617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:41 +0000
Subject: [PATCH 49/97] fix: calling shadername or ambient with arguments
 crashed the compiler

The argument count was not checked against candidates without parameters, and
their empty argument list was then read past its end.
---
 libs/slcomp/parse/typecheck.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libs/slcomp/parse/typecheck.cpp b/libs/slcomp/parse/typecheck.cpp
index bd3f793..6d24530 100644
--- a/libs/slcomp/parse/typecheck.cpp
+++ b/libs/slcomp/parse/typecheck.cpp
@@ -113,9 +113,8 @@ TqInt	CqParseNodeFunctionCall::TypeCheck( TqInt* pTypes, TqInt Count,  bool& nee
 			TqInt weight = 0;
 			bool mustCast = false;
 			TqInt cArgs = pfunc->cTypeSpecLength();
-			if ( ( cArgs > 0 ) &&
-			        ( ( !pfunc->fVarying() && cArgs != cSpecifiedArgs ) ||
-			          (  pfunc->fVarying() && cSpecifiedArgs < cArgs ) ) )
+			if ( ( !pfunc->fVarying() && cArgs != cSpecifiedArgs ) ||
+			        (  pfunc->fVarying() && cSpecifiedArgs < cArgs ) )
 			{
 				// This function isn't suitable for the arguments list, as the
 				// argument counts don't match. Don't add it to the queue.
-- 
2.43.0


From 7c9f0013ab2e59366dba09b6a1a83c15f9afb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:18 +0000
Subject: [PATCH 50/97] fix: array shader parameters of point-like and matrix
 type could not be set

The parameter's elements were read from the array variable as a whole,
which fails an assertion, instead of one array entry at a time.
---
 libs/shadervm/shadervm.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index e24c81f..f55b959 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -1791,44 +1791,42 @@ void CqShaderVM::InitialiseParameters( )
 		while ( count-- > 0 )
 		{
 			// Get the specified value out.
+			IqShaderData* pStored = m_StoredArguments[i].m_Value->ArrayEntry(arrayindex);
 			IqShaderData* pVMVal = CreateTemporaryStorage(m_StoredArguments[i].m_Value->Type(), m_StoredArguments[i].m_Value->Class());
 
 			// If it is a color or a point, ensure it is the correct 'space'
 			if ( pVMVal->Type() == type_point || pVMVal->Type() == type_hpoint )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetPoint( p, 0 );
+				pStored->GetPoint( p, 0 );
 				pVMVal->SetPoint( pointTrans * p );
 			}
 			else if ( pVMVal->Type() == type_normal )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetNormal( p, 0 );
+				pStored->GetNormal( p, 0 );
 				pVMVal->SetNormal( normalTrans * p );
 			}
 			else if ( pVMVal->Type() == type_vector )
 			{
 				CqVector3D p;
-				m_StoredArguments[i].m_Value->GetVector( p, 0 );
+				pStored->GetVector( p, 0 );
 				pVMVal->SetVector( vectorTrans * p );
 			}
 			else if ( pVMVal->Type() == type_matrix )
 			{
 				CqMatrix m;
-				m_StoredArguments[i].m_Value->GetMatrix( m, 0 );
+				pStored->GetMatrix( m, 0 );
 				pVMVal->SetMatrix( pointTrans * m );
 			}
 			else
 			{
-				if ( pArray )
-					pVMVal->ArrayEntry(arrayindex)->SetValueFromVariable( m_StoredArguments[i].m_Value->ArrayEntry(arrayindex));
-				else
-					pVMVal->SetValueFromVariable(m_StoredArguments[i].m_Value);
+				pVMVal->SetValueFromVariable( pStored );
 			}
 
 			if ( pArray )
 			{
-				pArray->ArrayEntry( arrayindex ) ->SetValueFromVariable( pVMVal->ArrayEntry( arrayindex ) );
+				pArray->ArrayEntry( arrayindex ) ->SetValueFromVariable( pVMVal );
 				++arrayindex;
 			}
 			else
-- 
2.43.0


From 8a5e80a6c092c28d86f4497a21ea93a177738c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:51 +0000
Subject: [PATCH 51/97] fix: redefining an option with another type or a larger
 array corrupted memory

The storage of an existing option was reused whatever its type and size.
---
 libs/core/api/ri.cpp  | 12 ++++++++++++
 libs/core/options.cpp | 33 +++++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index 489313a..d37b1b9 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -1073,6 +1073,18 @@ RtVoid RiCxxCore::Option(RtConstToken name, const ParamList& pList)
 
 		TqInt Count = pList[i].spec().arraySize;
 		const char* undecoratedName = pList[i].name();
+
+		// The type of an option which the renderer itself uses can't be changed.
+		EqVariableClass iclass;
+		EqVariableType type;
+		typeSpecToEqTypes(&iclass, &type, pList[i].spec());
+		EqVariableType currType = QGetRenderContext()->poptCurrent()->getParameterType(name, undecoratedName);
+		if(currType != type_invalid && currType != type && strcmp(name, "user") != 0)
+		{
+			Aqsis::log() << error << "RiOption \"" << name << "\": wrong type for ["
+				<< tokenString(pList[i]) << "]\n";
+			continue;
+		}
 		switch ( pList[i].spec().type )
 		{
 			case Ri::TypeSpec::Float:
diff --git a/libs/core/options.cpp b/libs/core/options.cpp
index a012916..a1a3389 100644
--- a/libs/core/options.cpp
+++ b/libs/core/options.cpp
@@ -24,6 +24,7 @@
 */
 
 #include	<math.h>
+#include	<string.h>
 
 #include	"options.h"
 #include	"renderer.h"
@@ -350,6 +351,18 @@ boost::shared_ptr<CqNamedParameterList> CqOptions::pOptionWrite( const char* str
 	return ( m_aOptions.back() );
 }
 
+//---------------------------------------------------------------------
+/** Check whether the storage of an existing option can take a value of the
+ * given type and array size.  If not the option has to be created anew.
+ */
+static bool isReusable( const CqParameter* pParam, const char* strName, EqVariableType type, TqInt arraySize )
+{
+	if ( pParam == 0 || pParam->Type() != type || pParam->Count() < arraySize )
+		return false;
+	// User options have the size they were last given.
+	return pParam->Count() == arraySize || strcmp( strName, "user" ) != 0;
+}
+
 //---------------------------------------------------------------------
 /** Get a system option parameter, takes name and parameter name.
  * \param strName The name of the option.
@@ -400,7 +413,7 @@ CqParameter* CqOptions::pParameterWrite( const char* strName, const char* strPar
 TqFloat* CqOptions::GetFloatOptionWrite( const char* strName, const char* strParam, TqInt arraySize )
 {
 	CqParameter * pParam = pParameterWrite( strName, strParam );
-	if ( pParam != 0 )
+	if ( isReusable( pParam, strName, type_float, arraySize ) )
 		return ( static_cast<CqParameterTyped<TqFloat, TqFloat>*>( pParam ) ->pValue() );
 	else
 	{
@@ -432,7 +445,7 @@ TqFloat* CqOptions::GetFloatOptionWrite( const char* strName, const char* strPar
 TqInt* CqOptions::GetIntegerOptionWrite( const char* strName, const char* strParam, TqInt arraySize )
 {
 	CqParameter * pParam = pParameterWrite( strName, strParam );
-	if ( pParam != 0 )
+	if ( isReusable( pParam, strName, type_integer, arraySize ) )
 		return ( static_cast<CqParameterTyped<TqInt, TqFloat>*>( pParam ) ->pValue() );
 	else
 	{
@@ -464,7 +477,7 @@ TqInt* CqOptions::GetIntegerOptionWrite( const char* strName, const char* strPar
 CqString* CqOptions::GetStringOptionWrite( const char* strName, const char* strParam, TqInt arraySize )
 {
 	CqParameter * pParam = pParameterWrite( strName, strParam );
-	if ( pParam != 0 )
+	if ( isReusable( pParam, strName, type_string, arraySize ) )
 		return ( static_cast<CqParameterTyped<CqString, CqString>*>( pParam ) ->pValue() );
 	else
 	{
@@ -496,7 +509,7 @@ CqString* CqOptions::GetStringOptionWrite( const char* strName, const char* strP
 CqVector3D* CqOptions::GetPointOptionWrite( const char* strName, const char* strParam, TqInt arraySize )
 {
 	CqParameter * pParam = pParameterWrite( strName, strParam );
-	if ( pParam != 0 )
+	if ( isReusable( pParam, strName, type_point, arraySize ) )
 		return ( static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( pParam ) ->pValue() );
 	else
 	{
@@ -528,7 +541,7 @@ CqVector3D* CqOptions::GetPointOptionWrite( const char* strName, const char* str
 CqColor* CqOptions::GetColorOptionWrite( const char* strName, const char* strParam, TqInt arraySize )
 {
 	CqParameter * pParam = pParameterWrite( strName, strParam );
-	if ( pParam != 0 )
+	if ( isReusable( pParam, strName, type_color, arraySize ) )
 		return ( static_cast<CqParameterTyped<CqColor, CqColor>*>( pParam ) ->pValue() );
 	else
 	{
@@ -560,7 +573,7 @@ CqColor* CqOptions::GetColorOptionWrite( const char* strName, const char* strPar
 const TqFloat* CqOptions::GetFloatOption( const char* strName, const char* strParam ) const
 {
 	const CqParameter * pParam = pParameter( strName, strParam );
-	if ( pParam != 0 )
+	if ( pParam != 0 && pParam->Type() == type_float )
 		return ( static_cast<const CqParameterTyped<TqFloat, TqFloat>*>( pParam ) ->pValue() );
 	else
 		return ( 0 );
@@ -577,7 +590,7 @@ const TqFloat* CqOptions::GetFloatOption( const char* strName, const char* strPa
 const TqInt* CqOptions::GetIntegerOption( const char* strName, const char* strParam ) const
 {
 	const CqParameter * pParam = pParameter( strName, strParam );
-	if ( pParam != 0 )
+	if ( pParam != 0 && pParam->Type() == type_integer )
 		return ( static_cast<const CqParameterTyped<TqInt, TqFloat>*>( pParam ) ->pValue() );
 	else
 		return ( 0 );
@@ -594,7 +607,7 @@ const TqInt* CqOptions::GetIntegerOption( const char* strName, const char* strPa
 const CqString* CqOptions::GetStringOption( const char* strName, const char* strParam ) const
 {
 	const CqParameter * pParam = pParameter( strName, strParam );
-	if ( pParam != 0 )
+	if ( pParam != 0 && pParam->Type() == type_string )
 		return ( static_cast<const CqParameterTyped<CqString, CqString>*>( pParam ) ->pValue() );
 	else
 		return ( 0 );
@@ -611,7 +624,7 @@ const CqString* CqOptions::GetStringOption( const char* strName, const char* str
 const CqVector3D* CqOptions::GetPointOption( const char* strName, const char* strParam ) const
 {
 	const CqParameter * pParam = pParameter( strName, strParam );
-	if ( pParam != 0 )
+	if ( pParam != 0 && pParam->Type() == type_point )
 		return ( static_cast<const CqParameterTyped<CqVector3D, CqVector3D>*>( pParam ) ->pValue() );
 	else
 		return ( 0 );
@@ -628,7 +641,7 @@ const CqVector3D* CqOptions::GetPointOption( const char* strName, const char* st
 const CqColor* CqOptions::GetColorOption( const char* strName, const char* strParam ) const
 {
 	const CqParameter * pParam = pParameter( strName, strParam );
-	if ( pParam != 0 )
+	if ( pParam != 0 && pParam->Type() == type_color )
 		return ( static_cast<const CqParameterTyped<CqColor, CqColor>*>( pParam ) ->pValue() );
 	else
 		return ( 0 );
-- 
2.43.0


From afc9ef330d73f1a168ec1227fc9f39ccdd4d6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:09 +0000
Subject: [PATCH 52/97] fix: option() in shaders looked options up among the
 attributes

---
 include/aqsis/core/ioptions.h                  | 2 ++
 include/aqsis/core/irenderer.h                 | 2 ++
 libs/core/options.cpp                          | 5 +++++
 libs/core/options.h                            | 1 +
 libs/core/renderer.cpp                         | 5 +++++
 libs/core/renderer.h                           | 1 +
 libs/shadervm/shaderexecenv/shadeops_inter.cpp | 2 +-
 7 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/aqsis/core/ioptions.h b/include/aqsis/core/ioptions.h
index ba12bd4..b3dae82 100644
--- a/include/aqsis/core/ioptions.h
+++ b/include/aqsis/core/ioptions.h
@@ -42,6 +42,7 @@ class CqImagersource;
 class CqRegion;
 class CqString;
 class IqShader;
+struct IqParameter;
 class IqChannelBuffer;
 
 //----------------------------------------------------------------------
@@ -87,6 +88,7 @@ class IqOptions
 public:
 	virtual ~IqOptions() {}
 
+	virtual const	IqParameter*	GetOption( const char* strName, const char* strParam ) const = 0;
 	virtual const	TqFloat*	GetFloatOption( const char* strName, const char* strParam ) const = 0;
 	virtual const	TqInt*	GetIntegerOption( const char* strName, const char* strParam ) const = 0;
 	virtual const	CqString* GetStringOption( const char* strName, const char* strParam ) const = 0;
diff --git a/include/aqsis/core/irenderer.h b/include/aqsis/core/irenderer.h
index b84036c..b6cc051 100644
--- a/include/aqsis/core/irenderer.h
+++ b/include/aqsis/core/irenderer.h
@@ -23,6 +23,7 @@
 
 namespace Aqsis {
 
+struct IqParameter;
 struct IqTextureMapOld;
 struct IqTextureCache;
 
@@ -38,6 +39,7 @@ public:
 	virtual	bool	matVSpaceToSpace	( const char* strFrom, const char* strTo, const IqTransform* transShaderToWorld, const IqTransform* transObjectToWorld, TqFloat time, CqMatrix& result) = 0;
 	virtual	bool	matNSpaceToSpace	( const char* strFrom, const char* strTo, const IqTransform* transShaderToWorld, const IqTransform* transObjectToWorld, TqFloat time, CqMatrix& result ) = 0;
 
+	virtual	const	IqParameter*	GetOption( const char* strName, const char* strParam ) const = 0;
 	virtual	const	TqFloat*	GetFloatOption( const char* strName, const char* strParam ) const = 0;
 	virtual	const	TqInt*	GetIntegerOption( const char* strName, const char* strParam ) const = 0;
 	virtual	const	CqString* GetStringOption( const char* strName, const char* strParam ) const = 0;
diff --git a/libs/core/options.cpp b/libs/core/options.cpp
index a1a3389..6955e91 100644
--- a/libs/core/options.cpp
+++ b/libs/core/options.cpp
@@ -647,6 +647,11 @@ const CqColor* CqOptions::GetColorOption( const char* strName, const char* strPa
 		return ( 0 );
 }
 
+const IqParameter* CqOptions::GetOption( const char* strName, const char* strParam ) const
+{
+	return ( pParameter( strName, strParam ) );
+}
+
 EqVariableType CqOptions::getParameterType(const char* strName, const char* strParam) const
 {
 	const CqParameter* pParam = pParameter(strName, strParam);
diff --git a/libs/core/options.h b/libs/core/options.h
index 1c4319e..9bbf573 100644
--- a/libs/core/options.h
+++ b/libs/core/options.h
@@ -91,6 +91,7 @@ class CqOptions : public IqOptions
 		boost::shared_ptr<CqNamedParameterList> pOptionWrite( const char* strName );
 		const	CqParameter* pParameter( const char* strName, const char* strParam ) const;
 		CqParameter* pParameterWrite( const char* strName, const char* strParam );
+		virtual const	IqParameter*	GetOption( const char* strName, const char* strParam ) const;
 		virtual const	TqFloat*	GetFloatOption( const char* strName, const char* strParam ) const;
 		virtual const	TqInt*	GetIntegerOption( const char* strName, const char* strParam ) const;
 		virtual const	CqString* GetStringOption( const char* strName, const char* strParam ) const;
diff --git a/libs/core/renderer.cpp b/libs/core/renderer.cpp
index 8d97e76..0e2cb2b 100644
--- a/libs/core/renderer.cpp
+++ b/libs/core/renderer.cpp
@@ -1031,6 +1031,11 @@ bool	CqRenderer::matNSpaceToSpace( const char* strFrom, const char* strTo, const
 }
 
 
+const	IqParameter*	CqRenderer::GetOption( const char* strName, const char* strParam ) const
+{
+	return ( poptCurrent()->GetOption( strName, strParam ) );
+}
+
 const	TqFloat*	CqRenderer::GetFloatOption( const char* strName, const char* strParam ) const
 {
 	return ( poptCurrent()->GetFloatOption( strName, strParam ) );
diff --git a/libs/core/renderer.h b/libs/core/renderer.h
index 42da935..193c6bb 100644
--- a/libs/core/renderer.h
+++ b/libs/core/renderer.h
@@ -185,6 +185,7 @@ class CqRenderer : public IqRenderer
 		virtual	bool	matVSpaceToSpace	( const char* strFrom, const char* strTo, const IqTransform* transShaderToWorld, const IqTransform* transObjectToWorld, TqFloat time, CqMatrix& result );
 		virtual	bool	matNSpaceToSpace	( const char* strFrom, const char* strTo, const IqTransform* transShaderToWorld, const IqTransform* transObjectToWorld, TqFloat time, CqMatrix& result );
 
+		virtual	const	IqParameter*	GetOption( const char* strName, const char* strParam ) const;
 		virtual	const	TqFloat*	GetFloatOption( const char* strName, const char* strParam ) const;
 		virtual	const	TqInt*	GetIntegerOption( const char* strName, const char* strParam ) const;
 		virtual	const	CqString* GetStringOption( const char* strName, const char* strParam ) const;
diff --git a/libs/shadervm/shaderexecenv/shadeops_inter.cpp b/libs/shadervm/shaderexecenv/shadeops_inter.cpp
index b3a2c9f..f02d29f 100644
--- a/libs/shadervm/shaderexecenv/shadeops_inter.cpp
+++ b/libs/shadervm/shaderexecenv/shadeops_inter.cpp
@@ -293,7 +293,7 @@ void CqShaderExecEnv::SO_option( IqShaderData* name, IqShaderData* pV, IqShaderD
 		{
 			CqString strParam = strName.substr( iColon + 1, strName.size() - iColon - 1 );
 			strName = strName.substr( 0, iColon );
-			const IqParameter* pParam = m_pAttributes ->GetAttribute( strName.c_str(), strParam.c_str() );
+			const IqParameter* pParam = getRenderContext() ->GetOption( strName.c_str(), strParam.c_str() );
 
 			Ret = 0.0f;
 			if(pParam && pParam->Type() == pV->Type() && pParam->ArrayLength() == pV->ArrayLength())
-- 
2.43.0


From f2076952defc2ab33ab77500241c9cf1520358cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:09 +0000
Subject: [PATCH 53/97] fix: a shader array parameter given too few values read
 past their end

---
 libs/core/api/ri.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/core/api/ri.cpp b/libs/core/api/ri.cpp
index d37b1b9..42f8830 100644
--- a/libs/core/api/ri.cpp
+++ b/libs/core/api/ri.cpp
@@ -330,6 +330,13 @@ void setShaderArguments(const boost::shared_ptr<IqShader>& pShader,
 		EqVariableClass iclass;
 		EqVariableType type;
 		typeSpecToEqTypes(&iclass, &type, pList[i].spec());
+		const IqShaderData* pArg = pShader->FindArgument(pList[i].name());
+		if(pArg && pArg->ArrayLength() > pList[i].spec().arraySize)
+		{
+			Aqsis::log() << error << "Too few values for array parameter \"" << pList[i].name()
+				<< "\" of shader \"" << pShader->strName().c_str() << "\"" << std::endl;
+			continue;
+		}
 		pShader->SetArgument(pList[i].name(), type, "", const_cast<void*>(pList[i].data()));
 	}
 }
-- 
2.43.0


From 445de5d645f06365671a98cef7a9f5c3954b3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:42 +0000
Subject: [PATCH 54/97] fix: primitive variables whose type or array size isn't
 the shader parameter's

They were stored all the same: an assertion or a bad cast.  Array primitive
variables on subdivision surfaces work now.
---
 libs/core/geometry/points.cpp       |  2 +-
 libs/core/geometry/subdivision2.cpp | 23 +++++++++++++++--------
 libs/shadervm/shadervm.cpp          |  7 ++++++-
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/libs/core/geometry/points.cpp b/libs/core/geometry/points.cpp
index b9a4ff6..e8fbbec 100644
--- a/libs/core/geometry/points.cpp
+++ b/libs/core/geometry/points.cpp
@@ -240,7 +240,7 @@ CqMicroPolyGridBase* CqPoints::Dice()
 				// CqParameterTypedVarying<T, I, SLT>::Dice loops over v using <= due to the 
 				// grid nature of normal surfaces, i.e. for 'v' micropolygons, there are v+1 vertices.
 				IqShaderData* pVar = (*shader)->FindArgument( (*iUP)->strName().c_str() );
-				if(NULL != pVar)
+				if(NULL != pVar && pVar->Type() == (*iUP)->Type() && pVar->ArrayLength() == (*iUP)->ArrayLength())
 					NaturalDice( ( *iUP ), nVertices(), 1, pVar );
 			}
 		}
diff --git a/libs/core/geometry/subdivision2.cpp b/libs/core/geometry/subdivision2.cpp
index 62f2501..c1bb7e6 100644
--- a/libs/core/geometry/subdivision2.cpp
+++ b/libs/core/geometry/subdivision2.cpp
@@ -1994,7 +1994,7 @@ void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 {
 	// Find the argument
 	IqShaderData * pArg = pShader->FindArgument( pParam->strName() );
-	if ( pArg )
+	if ( pArg && pArg->Type() == pParam->Type() && pArg->ArrayLength() == pParam->Count() )
 	{
 		TqInt index = 0;
 		switch(pParam->Class())
@@ -2022,14 +2022,16 @@ void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 				case type_float:
 				{
 					CqParameterTyped<TqFloat, TqFloat>* pNParam = static_cast<CqParameterTyped<TqFloat, TqFloat>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					for ( TqInt j = 0; j < pParam->Count(); ++j )
+						pArg->ArrayEntry( j )->SetValue( pNParam->pValue( index )[ j ], indexA );
 				}
 				break;
 
 				case type_integer:
 				{
 					CqParameterTyped<TqInt, TqFloat>* pNParam = static_cast<CqParameterTyped<TqInt, TqFloat>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					for ( TqInt j = 0; j < pParam->Count(); ++j )
+						pArg->ArrayEntry( j )->SetValue( pNParam->pValue( index )[ j ], indexA );
 				}
 				break;
 
@@ -2038,35 +2040,40 @@ void CqSurfaceSubdivisionPatch::StoreDiceAPVar(
 				case type_normal:
 				{
 					CqParameterTyped<CqVector3D, CqVector3D>* pNParam = static_cast<CqParameterTyped<CqVector3D, CqVector3D>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					for ( TqInt j = 0; j < pParam->Count(); ++j )
+						pArg->ArrayEntry( j )->SetValue( pNParam->pValue( index )[ j ], indexA );
 				}
 				break;
 
 				case type_hpoint:
 				{
 					CqParameterTyped<CqVector4D, CqVector3D>* pNParam = static_cast<CqParameterTyped<CqVector4D, CqVector3D>*>( pParam );
-					pArg->SetValue( vectorCast<CqVector3D>(*pNParam->pValue( index )), indexA );
+					for ( TqInt j = 0; j < pParam->Count(); ++j )
+						pArg->ArrayEntry( j )->SetValue( vectorCast<CqVector3D>(pNParam->pValue( index )[ j ]), indexA );
 				}
 				break;
 
 				case type_string:
 				{
 					CqParameterTyped<CqString, CqString>* pNParam = static_cast<CqParameterTyped<CqString, CqString>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					for ( TqInt j = 0; j < pParam->Count(); ++j )
+						pArg->ArrayEntry( j )->SetValue( pNParam->pValue( index )[ j ], indexA );
 				}
 				break;
 
 				case type_color:
 				{
 					CqParameterTyped<CqColor, CqColor>* pNParam = static_cast<CqParameterTyped<CqColor, CqColor>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					for ( TqInt j = 0; j < pParam->Count(); ++j )
+						pArg->ArrayEntry( j )->SetValue( pNParam->pValue( index )[ j ], indexA );
 				}
 				break;
 
 				case type_matrix:
 				{
 					CqParameterTyped<CqMatrix, CqMatrix>* pNParam = static_cast<CqParameterTyped<CqMatrix, CqMatrix>*>( pParam );
-					pArg->SetValue( *pNParam->pValue( index ), indexA );
+					for ( TqInt j = 0; j < pParam->Count(); ++j )
+						pArg->ArrayEntry( j )->SetValue( pNParam->pValue( index )[ j ], indexA );
 				}
 				break;
 
diff --git a/libs/shadervm/shadervm.cpp b/libs/shadervm/shadervm.cpp
index f55b959..e3c0ca4 100644
--- a/libs/shadervm/shadervm.cpp
+++ b/libs/shadervm/shadervm.cpp
@@ -1875,8 +1875,13 @@ void CqShaderVM::SetArgument( IqParameter* pParam, IqSurface* pSurface )
 	if ( i >= 0 )
 	{
 		IqShaderData* pVar = m_LocalVars[ i ];
-		if(pVar->Type() == pParam->Type())
+		if(pVar->Type() == pParam->Type() && pVar->ArrayLength() == pParam->ArrayLength())
+		{
+			// Parameters holding a single value aren't arrays.
+			if(pVar->ArrayLength() == 1)
+				pVar = pVar->ArrayEntry(0);
 			pParam->Dice(m_uGridRes,m_vGridRes,pVar,pSurface);
+		}
 	}
 }
 
-- 
2.43.0


From b6bcfaea602ced91cb86128538c1b4f61233d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:43 +0000
Subject: [PATCH 55/97] fix: tiled TIFF files written in several pieces lost
 pixels

---
 libs/tex/io/tiffoutputfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/tex/io/tiffoutputfile.cpp b/libs/tex/io/tiffoutputfile.cpp
index bc92158..a6b6d8b 100644
--- a/libs/tex/io/tiffoutputfile.cpp
+++ b/libs/tex/io/tiffoutputfile.cpp
@@ -186,7 +186,7 @@ void CqTiffOutputFile::writeTiledPixels(const CqMixedImageBuffer& buffer)
 		{
 			const TqInt tileDataLen = min(tileRowStride,
 					rowStride - tileCol*tileRowStride);
-			const TqInt tileDataHeight = min(tileInfo.height, buffer.height() - line);
+			const TqInt tileDataHeight = min(tileInfo.height, endLine - line);
 			// Copy parts of the scanlines into the tile buffer.
 			stridedCopy(tileBuf.get(), tileRowStride, srcBuf, rowStride,
 					tileDataHeight, tileDataLen);
-- 
2.43.0


From 2dbe48b01af5230d8804635f5ace6610e032ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:43 +0000
Subject: [PATCH 56/97] fix: reading part of a compressed TIFF strip gave the
 wrong pixels

---
 libs/tex/io/tiffinputfile.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libs/tex/io/tiffinputfile.cpp b/libs/tex/io/tiffinputfile.cpp
index feb49b0..8e6fd3e 100644
--- a/libs/tex/io/tiffinputfile.cpp
+++ b/libs/tex/io/tiffinputfile.cpp
@@ -111,6 +111,22 @@ void CqTiffInputFile::readPixelsStripped(TqUint8* buffer, TqInt startLine,
 	//
 	// In the unlikely event that it turns out to be a problem, we should look
 	// at using the strip-based interface via TIFFReadEncodedStrip & friends.
+	//
+	// Compressed strips can only be decoded from their beginning, so any lines
+	// of the strip which come before startLine need to be skipped.
+	uint32_t rowsPerStrip = 0;
+	TIFFGetFieldDefaulted(dirHandle.tiffPtr(), TIFFTAG_ROWSPERSTRIP, &rowsPerStrip);
+	TqInt skipLine = startLine;
+	if(rowsPerStrip > 0)
+		skipLine -= static_cast<TqInt>(static_cast<uint32_t>(startLine) % rowsPerStrip);
+	boost::scoped_array<TqUint8> skipBuf;
+	if(skipLine < startLine)
+		skipBuf.reset(new TqUint8[bytesPerRow]);
+	for(; skipLine < startLine; ++skipLine)
+	{
+		TIFFReadScanline(dirHandle.tiffPtr(), reinterpret_cast<tdata_t>(skipBuf.get()),
+				static_cast<uint32_t>(skipLine));
+	}
 	for(TqInt line = startLine; line < startLine + numScanlines; ++line)
 	{
 		TIFFReadScanline(dirHandle.tiffPtr(), reinterpret_cast<tdata_t>(buffer),
-- 
2.43.0


From 4874b1b0c99ef98ba6a6dc3f2153e03ad86e7122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:36 +0000
Subject: [PATCH 57/97] fix: reading part of an OpenEXR image wrote past the
 end of the buffer

Also the width and height of the display window were one too small.
---
 libs/tex/io/exrinputfile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/tex/io/exrinputfile.cpp b/libs/tex/io/exrinputfile.cpp
index e0d79ef..124acb0 100644
--- a/libs/tex/io/exrinputfile.cpp
+++ b/libs/tex/io/exrinputfile.cpp
@@ -134,8 +134,8 @@ void convertHeader(const Imf::Header& exrHeader, CqTexFileHeader& header)
 	// display window
 	const Imath::Box2i& displayBox = exrHeader.displayWindow();
 	header.set<Attr::DisplayWindow>( SqImageRegion(
-				displayBox.max.x - displayBox.min.x,
-				displayBox.max.y - displayBox.min.y,
+				displayBox.max.x - displayBox.min.x + 1,
+				displayBox.max.y - displayBox.min.y + 1,
 				displayBox.min.x - dataBox.min.x,
 				displayBox.min.y - dataBox.min.y) );
 
@@ -213,8 +213,8 @@ void CqExrInputFile::readPixelsImpl(TqUint8* buffer,
 	const TqInt yStride = m_header.width()*xStride;
 	// In OpenEXR, the buffer base pointer is assumed to point at the
 	// coordinates of the (0,0) pixel.  We need to correct our buffer pointer
-	// by subtracting the offset to (0,0) from the start of the data.
-	buffer -= dataWindow.min.x*xStride + dataWindow.min.y*yStride;
+	// by subtracting the offset to (0,0) from the first pixel we want to read.
+	buffer -= dataWindow.min.x*xStride + startLine*yStride;
 	for(TqInt i = 0; i < channels.numChannels(); ++i)
 	{
 		frameBuffer.insert(nameMap.find(channels[i].name)->second.c_str(),
-- 
2.43.0


From 16fd4311e1bad10cf6bba8146dc5b9d663856de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:54 +0000
Subject: [PATCH 58/97] fix: PNG images which aren't plain 8 bit RGB(A), parts
 of images, bad files

Grey, palette and 16 bit images were misread, the first requested line was
ignored and any error in the file ended the program.
---
 libs/tex/io/pnginputfile.cpp | 51 +++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/libs/tex/io/pnginputfile.cpp b/libs/tex/io/pnginputfile.cpp
index e8c4231..69ac353 100644
--- a/libs/tex/io/pnginputfile.cpp
+++ b/libs/tex/io/pnginputfile.cpp
@@ -40,6 +40,8 @@
 #include "boost/scoped_array.hpp"
 #include <stdlib.h>
 
+#include <aqsis/tex/texexception.h>
+
 namespace Aqsis {
 
 class CPNGReader
@@ -107,9 +109,22 @@ private:
             bool success ( initialize_png_reader() );
             if (success)
             {
+                // libpng jumps back here on any error in the file.
+                if (setjmp(png_jmpbuf(m_PNGHandle)))
+                {
+                    ::fclose(m_fileHandle);
+                    m_fileHandle = NULL;
+                    return false; // failure
+                }
                 ::png_init_io(m_PNGHandle, m_fileHandle);
                 ::png_read_info(m_PNGHandle, m_infoPtr);
 
+                // Convert everything to plain 8 bit channels.
+                ::png_set_expand(m_PNGHandle);
+                ::png_set_strip_16(m_PNGHandle);
+                ::png_set_interlace_handling(m_PNGHandle);
+                ::png_read_update_info(m_PNGHandle, m_infoPtr);
+
                 success = initImageBuffer();
                 if (success)
                 {
@@ -117,10 +132,10 @@ private:
                 }
             }
 
+            ::fclose(m_fileHandle);
+            m_fileHandle = NULL;
         }
 
-        ::fclose(m_fileHandle);
-        m_fileHandle = NULL;
         return false; // failure
     }
 
@@ -219,7 +234,9 @@ CqPngInputFile::CqPngInputFile(const boostfs::path& fileName)
 
         const TqUint8 nrOfChannels ( m_PNGReader->getNrOfChannels() );
 
-        static const char* channelStructure[] = {"r","g","b","a"};
+        static const char* rgbaNames[] = {"r","g","b","a"};
+        static const char* greyNames[] = {"y","a"};
+        const char** channelStructure = nrOfChannels < 3 ? greyNames : rgbaNames;
 
         const EqChannelType chanType( Channel_Unsigned8 );
         for (int i=0; i!= nrOfChannels; ++i)
@@ -227,6 +244,12 @@ CqPngInputFile::CqPngInputFile(const boostfs::path& fileName)
             channelList.addChannel( SqChannelInfo(channelStructure[i], chanType) );
         }
     }
+    else
+    {
+        delete m_PNGReader;
+        AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
+                "Could not read png file \"" << fileName << "\"");
+    }
 }
 
 CqPngInputFile::~CqPngInputFile()
@@ -269,6 +292,18 @@ static void copyRGBAPremultiPixel(TqUint8* inDestBuff, const TqUint8* inSrcBuff,
     }
 }
 
+// As above for pixels which consist of a grey and an alpha component.
+static void copyYAPremultiPixel(TqUint8* inDestBuff, const TqUint8* inSrcBuff, size_t buffSize)
+{
+    for(; buffSize >= 2 ; buffSize -= 2)
+    {
+        const TqUint8 alpha( inSrcBuff[1] );
+
+        *(inDestBuff++) = premultiplyAlpha(*(inSrcBuff++), alpha);
+        *(inDestBuff++) = *(inSrcBuff++);
+    }
+}
+
 typedef void (*LineCopyFuncPtr)(TqUint8* inDestBuff, const TqUint8* inSrcBuff, size_t buffSize);
 
 void CqPngInputFile::readPixelsImpl(TqUint8* buffer, TqInt startLine,
@@ -282,13 +317,15 @@ void CqPngInputFile::readPixelsImpl(TqUint8* buffer, TqInt startLine,
     TqUint8* destBuff(buffer);
 
     // Dependent from the color model use a special copy routine.
-    LineCopyFuncPtr lineCopyFunc = (getNrOfChannels() == 3) ?
-        copyRGBPixel :         // If the number of channels is 3 then use copyRGBPixel(...)
-        copyRGBAPremultiPixel; // If the number of channels is 4 then use copyRGBAPremultiPixel(...)
+    LineCopyFuncPtr lineCopyFunc = copyRGBPixel; // No alpha channel, just copy.
+    if (getNrOfChannels() == 4)
+        lineCopyFunc = copyRGBAPremultiPixel;
+    else if (getNrOfChannels() == 2)
+        lineCopyFunc = copyYAPremultiPixel;
 
     for (int lineIdx = 0; lineIdx != numScanlines; ++lineIdx, destBuff += destBytesPerLine)
     {
-        const TqUint8* srcBuff(getRowPtr(lineIdx));
+        const TqUint8* srcBuff(getRowPtr(startLine + lineIdx));
         assert(srcBuff);
         if ( NULL != srcBuff )
         {
-- 
2.43.0


From cfc607a5b05368d4e92c5909b4b6ad33ccd79746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 59/97] fix: texture filter regions were scaled and wrapped
 wrongly

SqSamplePllgram::scaleWidth() overwrote the second side with the first, and
remapPeriodic() moved the region in directions which aren't periodic.
---
 include/aqsis/tex/filtering/samplequad.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/aqsis/tex/filtering/samplequad.h b/include/aqsis/tex/filtering/samplequad.h
index cd822ec..1673da8 100644
--- a/include/aqsis/tex/filtering/samplequad.h
+++ b/include/aqsis/tex/filtering/samplequad.h
@@ -359,7 +359,8 @@ inline void SqSamplePllgram::remapPeriodic(bool xPeriodic, bool yPeriodic)
 	{
 		if(c.x() < 0 || c.y() < 0 || c.x() >= 1 || c.y() >= 1)
 		{
-			CqVector2D v(std::floor(c.x()),std::floor(c.y()));
+			CqVector2D v(xPeriodic ? std::floor(c.x()) : 0,
+					yPeriodic ? std::floor(c.y()) : 0);
 			c -= v;
 		}
 	}
@@ -371,8 +372,8 @@ inline void SqSamplePllgram::scaleWidth(TqFloat xWidth, TqFloat yWidth)
 	{
 		s1.x(s1.x()*xWidth);
 		s1.y(s1.y()*yWidth);
-		s2.x(s1.x()*xWidth);
-		s2.y(s1.y()*yWidth);
+		s2.x(s2.x()*xWidth);
+		s2.y(s2.y()*yWidth);
 	}
 }
 
-- 
2.43.0


From 9e68c4175315d2563e286d9a09801979d663d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 60/97] fix: texture corners where one direction is clamped and
 the other periodic

The part of the filter support outside the texture in both directions was
looked up without wrapping it, so that it was dropped.
---
 include/aqsis/tex/filtering/filtertexture.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/aqsis/tex/filtering/filtertexture.h b/include/aqsis/tex/filtering/filtertexture.h
index c2fbfd1..18986d8 100644
--- a/include/aqsis/tex/filtering/filtertexture.h
+++ b/include/aqsis/tex/filtering/filtertexture.h
@@ -179,13 +179,15 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 		{
 			// clamped in x direction, but not in y direction.
 			// Here we perform a normal iteration over y, but leave 
+			// (tlY is nonzero if the y direction is periodic)
 			TqInt xClamp = clamp(tlX, 0, buffer.width()-1);
-			SqFilterSupport clampedSupport(SqFilterSupport1D(xClamp, xClamp+1), tileSupport.sy);
+			SqFilterSupport clampedSupport(xClamp, xClamp+1,
+					tileSupport.sy.start - tlY, tileSupport.sy.end - tlY);
 			for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 					i.inSupport(); ++i)
 			{
 				for(TqInt ix = tileSupport.sx.start; ix < tileSupport.sx.end; ++ix)
-					sampleAccum.accumulate(ix, i.y(), *i);
+					sampleAccum.accumulate(ix, i.y() + tlY, *i);
 			}
 		}
 	}
@@ -194,12 +196,14 @@ void filterWrappedBuffer(SampleAccumT& sampleAccum, const ArrayT& buffer,
 		// clamped in y direction, but not in x direction.  This is just an
 		// inverted (and slightly duplicated :-/ ) version of the code above
 		TqInt yClamp = clamp(tlY, 0, buffer.height()-1);
-		SqFilterSupport clampedSupport(tileSupport.sx, SqFilterSupport1D(yClamp, yClamp+1));
+		SqFilterSupport clampedSupport(
+				tileSupport.sx.start - tlX, tileSupport.sx.end - tlX,
+				yClamp, yClamp+1);
 		for(typename ArrayT::TqIterator i = buffer.begin(clampedSupport);
 				i.inSupport(); ++i)
 		{
 			for(TqInt iy = tileSupport.sy.start; iy < tileSupport.sy.end; ++iy)
-				sampleAccum.accumulate(i.x(), iy, *i);
+				sampleAccum.accumulate(i.x() + tlX, iy, *i);
 		}
 	}
 	else
-- 
2.43.0


From c8de552b3a6e2ffb7b95137bb2967b806444aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 61/97] fix: mipmaps of integer textures got darker and could
 overflow

Filtered values were truncated rather than rounded at every level, and 1.0
overflowed 32 bit channels.
---
 include/aqsis/tex/buffers/texturebuffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/tex/buffers/texturebuffer.h b/include/aqsis/tex/buffers/texturebuffer.h
index cb4462e..3d49f1f 100644
--- a/include/aqsis/tex/buffers/texturebuffer.h
+++ b/include/aqsis/tex/buffers/texturebuffer.h
@@ -399,8 +399,10 @@ inline void CqTextureBuffer<T>::setPixel(const TqInt x, const TqInt y,
 		/// \todo Need to think about how this should work for signed integer channels.
 		for(TqInt chan = 0; chan < m_numChannels; ++chan)
 		{
-			pixel[chan] = static_cast<T>(std::numeric_limits<T>::max()
-					* clamp(pixelValue[chan], 0.0f, 1.0f));
+			// Round to nearest, in double precision so that 1 doesn't overflow
+			// 32 bit channels.
+			pixel[chan] = static_cast<T>(0.5 + std::numeric_limits<T>::max()
+					* double(clamp<TqFloat>(pixelValue[chan], 0.0f, 1.0f)));
 		}
 	}
 	else
-- 
2.43.0


From 98690de01bb07ba89cd3cff3acc09f934aae6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 62/97] fix: interpolating between mipmap levels mixed in black

A filter falling between the pixels of the smaller level has no weight there;
the level was mixed in as black.
---
 include/aqsis/tex/filtering/sampleaccum.h |  3 +++
 libs/tex/filtering/mipmap.h               | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/aqsis/tex/filtering/sampleaccum.h b/include/aqsis/tex/filtering/sampleaccum.h
index 357d7ab..ad239c7 100644
--- a/include/aqsis/tex/filtering/sampleaccum.h
+++ b/include/aqsis/tex/filtering/sampleaccum.h
@@ -153,6 +153,9 @@ class CqSampleAccum
 		template<typename SampleVectorT>
 		inline void accumulate(TqInt x, TqInt y, const SampleVectorT& inSamples);
 
+		/// Return true if some weight has been accumulated (unnormalized filters)
+		inline bool hasWeight() const { return m_totWeight != 0; }
+
 		/// Cleanup; renormalize the accumulated data if necessary.
 		inline ~CqSampleAccum();
 	private:
diff --git a/libs/tex/filtering/mipmap.h b/libs/tex/filtering/mipmap.h
index 87abd51..911df14 100644
--- a/libs/tex/filtering/mipmap.h
+++ b/libs/tex/filtering/mipmap.h
@@ -130,9 +130,12 @@ class CqMipmap
 		 *            filter weights.
 		 * \param sampleOpts - sample options structure
 		 * \param outSamps - destination array for filtered samples.
+		 *
+		 * \return false if the filter is so narrow that it falls between the
+		 *         pixels of the level, in which case outSamps is meaningless.
 		 */
 		template<typename FilterFactoryT>
-		void filterLevel(TqInt level, const FilterFactoryT& filterFactory,
+		bool filterLevel(TqInt level, const FilterFactoryT& filterFactory,
 				const CqTextureSampleOptions& sampleOpts, TqFloat* outSamps) const;
 
 		/** \brief Get the buffer for a given level.
@@ -313,7 +316,8 @@ void CqMipmap<TextureBufferT>::applyFilter(const FilterFactoryT& filterFactory,
 
 		// Filter second level into tmpSamps.
 		CqAutoBuffer<TqFloat, 16> tmpSamps(sampleOpts.numChannels());
-		filterLevel(level+1, filterFactory, sampleOpts, tmpSamps.get());
+		if(!filterLevel(level+1, filterFactory, sampleOpts, tmpSamps.get()))
+			return;
 
 		// Mix outSamps and tmpSamps.
 		TqFloat levelInterp = levelCts - level;
@@ -419,7 +423,7 @@ void CqMipmap<TextureBufferT>::initLevels()
 
 template<typename TextureBufferT>
 template<typename FilterFactoryT>
-void CqMipmap<TextureBufferT>::filterLevel(
+bool CqMipmap<TextureBufferT>::filterLevel(
 		TqInt level, const FilterFactoryT& filterFactory,
 		const CqTextureSampleOptions& sampleOpts, TqFloat* outSamps) const
 {
@@ -454,6 +458,7 @@ void CqMipmap<TextureBufferT>::filterLevel(
 		support,
 		SqWrapModes(sampleOpts.sWrapMode(), sampleOpts.tWrapMode())
 	);
+	return accumulator.hasWeight();
 }
 
 } // namespace Aqsis
-- 
2.43.0


From 553aac2506dc24e410447ff7569ae0a359163554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 63/97] fix: occlusion of surfaces which face none of the maps
 was NaN

---
 libs/tex/filtering/occlusionsampler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/tex/filtering/occlusionsampler.cpp b/libs/tex/filtering/occlusionsampler.cpp
index e770b1e..4d2687f 100644
--- a/libs/tex/filtering/occlusionsampler.cpp
+++ b/libs/tex/filtering/occlusionsampler.cpp
@@ -347,8 +347,9 @@ void CqOcclusionSampler::sample(const Sq3DSamplePllgram& samplePllgram,
 		totNumSamples += 1;
 	}
 
-	// Normalize the sample
-	*outSamps = totOcc / totNumSamples;
+	// Normalize the sample.  If none of the maps looks toward the surface there
+	// are no samples at all, and nothing is known to occlude it.
+	*outSamps = totNumSamples > 0 ? totOcc / totNumSamples : 0;
 }
 
 const CqShadowSampleOptions& CqOcclusionSampler::defaultSampleOptions() const
-- 
2.43.0


From b7a8b95ae852f852a1c6ad826cd828931c1e52e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:22 +0000
Subject: [PATCH 64/97] fix: texture lookups with some very thin filter regions
 failed an assertion

The tests for a symmetric matrix and for real eigenvalues didn't allow for
rounding error relative to the size of the matrix.
---
 include/aqsis/math/matrix2d.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/aqsis/math/matrix2d.h b/include/aqsis/math/matrix2d.h
index f071c1b..1b0d84a 100644
--- a/include/aqsis/math/matrix2d.h
+++ b/include/aqsis/math/matrix2d.h
@@ -210,7 +210,7 @@ inline void SqMatrix2D::eigenvalues(TqFloat& l1, TqFloat& l2) const
 	// for l.
 	TqFloat firstTerm = (a+d)*0.5;
 	TqFloat secondTerm = (a-d)*(a-d) + 4*c*b;
-	assert(secondTerm >= -std::numeric_limits<TqFloat>::epsilon());
+	assert(secondTerm >= -1e-5*((a-d)*(a-d) + std::fabs(4*c*b)));
 	// For robustness, set secondTerm = 0 if it's negative.  This will get the
 	// real part of the result.
 	if(secondTerm < 0)
@@ -225,8 +225,11 @@ inline SqMatrix2D SqMatrix2D::orthogDiagonalize(TqFloat l1, TqFloat l2) const
 	// As usual, we construct the matrix from the two orthonormal eigenvectors.
 	// These eigenvectors only exist if the matrix is symmetric, so assert
 	// symmetry:
-	assert( std::fabs((b - c)) <= 1e-5*std::fabs(c) ||
-			std::fabs((b - c)) <= 1e-5*std::fabs(b) );
+	//
+	// (b and c may be tiny differences between much larger numbers, in which
+	// case only their size compared to the diagonal is significant.)
+	assert( std::fabs((b - c)) <= 1e-5*(std::fabs(a) + std::fabs(b)
+				+ std::fabs(c) + std::fabs(d)) );
 	if(l1 == l2)
 	{
 		// Special (easy) case for degenerate eigenvalues
-- 
2.43.0


From d45a891c969d9b9b648695b5a2211c7588883e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:22 +0000
Subject: [PATCH 65/97] fix: shadow and texture lookups at infinity failed or
 overflowed

Points in the plane through a light project to infinity in its shadow map.
These failed an assertion or made nonsense of the filter support.
---
 include/aqsis/math/matrix.h               |  3 ++-
 include/aqsis/tex/buffers/filtersupport.h |  6 +++---
 libs/tex/filtering/ewafilter.cpp          | 13 +++++++++++++
 libs/tex/filtering/occlusionsampler.cpp   |  8 ++++++++
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/aqsis/math/matrix.h b/include/aqsis/math/matrix.h
index 609648e..366cccc 100644
--- a/include/aqsis/math/matrix.h
+++ b/include/aqsis/math/matrix.h
@@ -739,7 +739,8 @@ inline CqVector3D CqMatrix::operator*( const CqVector3D &vec ) const
 
 	if(h != 1)
 	{
-		assert(h != 0);
+		// Note that points in the plane through the centre of projection have
+		// h == 0; these are transformed to infinity.
 		TqFloat invh = 1/h;
 		Result.x(Result.x()*invh);
 		Result.y(Result.y()*invh);
diff --git a/include/aqsis/tex/buffers/filtersupport.h b/include/aqsis/tex/buffers/filtersupport.h
index 5992b2d..c93ec3c 100644
--- a/include/aqsis/tex/buffers/filtersupport.h
+++ b/include/aqsis/tex/buffers/filtersupport.h
@@ -96,7 +96,7 @@ struct SqFilterSupport
 	/// Constructor from two 1D supports
 	SqFilterSupport(const SqFilterSupport1D s1, const SqFilterSupport1D s2);
 	/// Return area of the support in number of pixels.
-	TqInt area() const;
+	TqLong area() const;
 	/// Return true if the support is an empty set.
 	bool isEmpty() const;
 	/// Return true if the support covers part of the given range.
@@ -167,9 +167,9 @@ inline SqFilterSupport::SqFilterSupport(const SqFilterSupport1D sx,
 	sy(sy)
 { }
 
-inline TqInt SqFilterSupport::area() const
+inline TqLong SqFilterSupport::area() const
 {
-	return sx.range()*sy.range();
+	return static_cast<TqLong>(sx.range())*sy.range();
 }
 
 inline bool SqFilterSupport::isEmpty() const
diff --git a/libs/tex/filtering/ewafilter.cpp b/libs/tex/filtering/ewafilter.cpp
index a8204b2..4781c5b 100644
--- a/libs/tex/filtering/ewafilter.cpp
+++ b/libs/tex/filtering/ewafilter.cpp
@@ -135,6 +135,19 @@ void CqEwaFilterFactory::computeFilter(const SqSamplePllgram& samplePllgram,
 	// Finally, add in the reconstruction variance.
 	coVar += SqMatrix2D(reconsVar);
 
+	// Regions which extend (nearly) to infinity, or which aren't numbers at
+	// all, can't be filtered.  For example, these occur for shadows of points
+	// which lie beside the light.  Use a small filter well outside the texture
+	// for these.
+	const TqFloat maxDist = 1e7;
+	if( !(std::fabs(m_filterCenter.x()) < maxDist
+			&& std::fabs(m_filterCenter.y()) < maxDist
+			&& coVar.a < maxDist*maxDist && coVar.d < maxDist*maxDist) )
+	{
+		m_filterCenter = CqVector2D(-maxDist, -maxDist);
+		coVar = SqMatrix2D(reconsVar);
+	}
+
 	// Clamp the eccentricity of the filter.
 	clampEccentricity(coVar, m_minorAxisWidth, maxAspectRatio, m_logEdgeWeight);
 	// Get the quadratic form
diff --git a/libs/tex/filtering/occlusionsampler.cpp b/libs/tex/filtering/occlusionsampler.cpp
index 4d2687f..5aaa620 100644
--- a/libs/tex/filtering/occlusionsampler.cpp
+++ b/libs/tex/filtering/occlusionsampler.cpp
@@ -238,6 +238,14 @@ class CqOcclusionSampler::CqOccView
 			CqVector3D center = m_currToRaster*sampleRegion.c;
 			TqFloat sWidthOn2 = 0.5*(sampleOpts.sBlur()*m_pixels.width());
 			TqFloat tWidthOn2 = 0.5*(sampleOpts.tBlur()*m_pixels.height());
+			// Points (nearly) at infinity aren't occluded.
+			const TqFloat maxDist = 1e7;
+			if( !(std::fabs(center.x()) + sWidthOn2 < maxDist
+					&& std::fabs(center.y()) + tWidthOn2 < maxDist) )
+			{
+				*outSamps = 0;
+				return;
+			}
 			SqFilterSupport support(
 					lround(center.x()-sWidthOn2), lround(center.x()+sWidthOn2) + 1,
 					lround(center.y()-tWidthOn2), lround(center.y()+tWidthOn2) + 1);
-- 
2.43.0


From 0d2f0a78b61f06504264a62bf0d20520de15519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 66/97] fix: makeShadow didn't check for the world to screen
 matrix

---
 libs/tex/maketexture/maketexture.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/tex/maketexture/maketexture.cpp b/libs/tex/maketexture/maketexture.cpp
index 4c2123c..2264518 100644
--- a/libs/tex/maketexture/maketexture.cpp
+++ b/libs/tex/maketexture/maketexture.cpp
@@ -453,7 +453,7 @@ void makeShadow(const boostfs::path& inFileName, const boostfs::path& outFileNam
 	// Ensure that the screen and camera transformation matrices are present.
 	// If not, the texture will be useless for shadow mapping.
 	if( header.findPtr<Attr::WorldToCameraMatrix>() == 0
-			|| header.findPtr<Attr::WorldToCameraMatrix>() == 0 )
+			|| header.findPtr<Attr::WorldToScreenMatrix>() == 0 )
 	{
 		AQSIS_THROW_XQERROR(XqBadTexture,EqE_BadFile,
 				"world->camera and world->screen matrices not specified in input file");
@@ -497,7 +497,7 @@ void makeOcclusion(const std::vector<boostfs::path>& inFiles,
 		// Ensure that the screen and camera transformation matrices are
 		// present.
 		if( header.findPtr<Attr::WorldToCameraMatrix>() == 0
-				|| header.findPtr<Attr::WorldToCameraMatrix>() == 0 )
+				|| header.findPtr<Attr::WorldToScreenMatrix>() == 0 )
 		{
 			AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
 				"world->camera and world->screen matrices not specified in input file"
-- 
2.43.0


From 6fb658a8c9edcfcd30f29a66b48510ec845bd406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 67/97] fix: damaged texture files overran buffers or weren't
 reported

The sizes in TIFF and z-files weren't checked, and failures to read pixels
were ignored.  The texture cache didn't treat all kinds of read errors as an
invalid texture.
---
 include/aqsis/tex/io/itexinputfile.h      | 13 ++++++++
 include/aqsis/tex/io/itiledtexinputfile.h | 13 ++++++++
 libs/tex/filtering/texturecache.cpp       |  9 ++++-
 libs/tex/io/tiffdirhandle.cpp             | 18 ++++++++++
 libs/tex/io/tiffinputfile.cpp             | 28 +++++++++++-----
 libs/tex/io/tiledtiffinputfile.cpp        | 40 ++++++++++++++++++++---
 libs/tex/io/zinputfile.cpp                | 14 ++++++++
 7 files changed, 122 insertions(+), 13 deletions(-)

diff --git a/include/aqsis/tex/io/itexinputfile.h b/include/aqsis/tex/io/itexinputfile.h
index 56f883b..85f15da 100644
--- a/include/aqsis/tex/io/itexinputfile.h
+++ b/include/aqsis/tex/io/itexinputfile.h
@@ -41,6 +41,9 @@
 
 #include <aqsis/aqsis.h>
 
+#include <limits>
+
+
 #include <aqsis/util/file.h>
 #include <aqsis/tex/io/imagefiletype.h>
 #include <aqsis/tex/io/texfileheader.h>
@@ -204,6 +207,16 @@ void IqTexInputFile::readPixels(Array2DType& buffer, TqInt startLine,
 				<< startLine << " to " << startLine + numScanlines - 1
 				<< " outside image boundaries for file \"" << fileName() << "\".");
 	}
+	// Check that the size of the pixel data can be represented; it can't be for
+	// the nonsense dimensions found in the headers of damaged files.
+	const TqInt bytesPerPixel = header().channelList().bytesPerPixel();
+	if(header().width() <= 0 || bytesPerPixel <= 0
+			|| header().width() > std::numeric_limits<TqInt>::max()/bytesPerPixel/numScanlines)
+	{
+		AQSIS_THROW_XQERROR(XqInvalidFile, EqE_BadFile, "Cannot read "
+				<< header().width() << "x" << numScanlines
+				<< " pixels from file \"" << fileName() << "\".");
+	}
 	// Resize the buffer to deal with the new data
 	buffer.resize(header().width(), numScanlines, header().channelList());
 	readPixelsImpl(buffer.rawData(), startLine, numScanlines);
diff --git a/include/aqsis/tex/io/itiledtexinputfile.h b/include/aqsis/tex/io/itiledtexinputfile.h
index bb12368..e5db6ba 100644
--- a/include/aqsis/tex/io/itiledtexinputfile.h
+++ b/include/aqsis/tex/io/itiledtexinputfile.h
@@ -40,6 +40,9 @@
 
 #include <aqsis/aqsis.h>
 
+#include <limits>
+
+
 #include <boost/shared_ptr.hpp>
 
 #include <aqsis/util/file.h>
@@ -209,6 +212,16 @@ void IqTiledTexInputFile::readTile(ArrayT& buffer, TqInt tileX, TqInt tileY,
 	assert(tInfo.height > 0);
 	assert(subImageIdx >= 0);
 	assert(subImageIdx < numSubImages());
+	// Check that the size of the pixel data can be represented; it can't be for
+	// the nonsense dimensions found in the headers of damaged files.
+	const TqInt bytesPerPixel = header().channelList().bytesPerPixel();
+	if(bytesPerPixel <= 0
+			|| tInfo.width > std::numeric_limits<TqInt>::max()/bytesPerPixel/tInfo.height)
+	{
+		AQSIS_THROW_XQERROR(XqInvalidFile, EqE_BadFile, "Cannot read a tile of "
+				<< tInfo.width << "x" << tInfo.height << " pixels from file \""
+				<< fileName() << "\".");
+	}
 	buffer.resize(tInfo.width, tInfo.height, header().channelList());
 	readTileImpl(buffer.rawData(), tileX, tileY, subImageIdx, tInfo);
 }
diff --git a/libs/tex/filtering/texturecache.cpp b/libs/tex/filtering/texturecache.cpp
index ba95060..597e71d 100644
--- a/libs/tex/filtering/texturecache.cpp
+++ b/libs/tex/filtering/texturecache.cpp
@@ -110,7 +110,7 @@ const CqTexFileHeader* CqTextureCache::textureInfo(const char* name)
 		file = getTextureFile(name);
 		return &(file->header());
 	}
-	catch(XqInvalidFile& /*e*/)
+	catch(XqInternal& /*e*/)
 	{
 		return 0;
 	}
@@ -158,6 +158,13 @@ SamplerT& CqTextureCache::findSampler(
 				<< "Bad texture file - " << e.what() << "\n";
 			newTex = SamplerT::createDummy();
 		}
+		catch(XqInternal& e)
+		{
+			// Damaged files can cause errors of other kinds.
+			Aqsis::log() << error
+				<< "Could not read texture file - " << e.what() << "\n";
+			newTex = SamplerT::createDummy();
+		}
 		samplerMap[CqString::hash(name)] = newTex;
 		return *newTex;
 	}
diff --git a/libs/tex/io/tiffdirhandle.cpp b/libs/tex/io/tiffdirhandle.cpp
index 953da8e..e8fb137 100644
--- a/libs/tex/io/tiffdirhandle.cpp
+++ b/libs/tex/io/tiffdirhandle.cpp
@@ -37,6 +37,7 @@
 
 #include "tiffdirhandle.h"
 
+#include <limits>
 #include <sstream>
 #include <cstring>  // for memcpy()
 
@@ -435,6 +436,16 @@ void CqTiffDirHandle::fillHeaderRequiredAttrs(CqTexFileHeader& header) const
 					tiffTagValue<uint32_t>(TIFFTAG_TILEWIDTH),
 					tiffTagValue<uint32_t>(TIFFTAG_TILELENGTH)) );
 	}
+	// Check that the sizes make sense (they don't always in damaged files)
+	const SqTileInfo* tileInfo = header.findPtr<Attr::TileInfo>();
+	if(header.width() <= 0 || header.height() <= 0
+			|| (tileInfo && (tileInfo->width <= 0 || tileInfo->height <= 0
+				|| TIFFTileSize(tiffPtr()) <= 0
+				|| TIFFTileSize(tiffPtr()) > std::numeric_limits<TqInt>::max())))
+	{
+		AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "Invalid image or tile size in \""
+				<< m_fileHandle->fileName() << "\"");
+	}
 	// Get the compression type.
 	header.set<Attr::Compression>(
 			tiffCompressionNameFromTag(tiffTagValue<uint16_t>(TIFFTAG_COMPRESSION)) );
@@ -551,6 +562,13 @@ void CqTiffDirHandle::fillHeaderPixelLayout(CqTexFileHeader& header) const
 		if(planarConfig != PLANARCONFIG_CONTIG)
 			AQSIS_THROW_XQERROR(XqUnknownTiffFormat, EqE_BadFile,
 				"non-interlaced channels detected");
+		// Check that libtiff agrees about how large the pixel data is.
+		const tmsize_t bytesPerPixel = header.channelList().bytesPerPixel();
+		const SqTileInfo* tileInfo = header.findPtr<Attr::TileInfo>();
+		if(tileInfo ? TIFFTileRowSize(tiffPtr()) != tileInfo->width*bytesPerPixel
+				: TIFFScanlineSize(tiffPtr()) != header.width()*bytesPerPixel)
+			AQSIS_THROW_XQERROR(XqUnknownTiffFormat, EqE_BadFile,
+				"unusual pixel layout detected");
 		// Check that the origin is at the topleft of the image.
 		TqInt orientation = tiffTagValue<uint16_t>(TIFFTAG_ORIENTATION,
 				ORIENTATION_TOPLEFT);
diff --git a/libs/tex/io/tiffinputfile.cpp b/libs/tex/io/tiffinputfile.cpp
index 8e6fd3e..95a56be 100644
--- a/libs/tex/io/tiffinputfile.cpp
+++ b/libs/tex/io/tiffinputfile.cpp
@@ -129,8 +129,12 @@ void CqTiffInputFile::readPixelsStripped(TqUint8* buffer, TqInt startLine,
 	}
 	for(TqInt line = startLine; line < startLine + numScanlines; ++line)
 	{
-		TIFFReadScanline(dirHandle.tiffPtr(), reinterpret_cast<tdata_t>(buffer),
-				static_cast<uint32_t>(line));
+		if(TIFFReadScanline(dirHandle.tiffPtr(), reinterpret_cast<tdata_t>(buffer),
+				static_cast<uint32_t>(line)) < 0)
+		{
+			AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "Could not read line "
+					<< line << " of \"" << fileName() << "\"");
+		}
 		buffer += bytesPerRow;
 	}
 }
@@ -182,8 +186,12 @@ void CqTiffInputFile::readPixelsTiled(TqUint8* buffer, TqInt startLine,
 		for(TqInt x = 0; x < width; x += tileInfo.width)
 		{
 			// Grab the tile using libtiff
-			TIFFReadTile(dirHandle.tiffPtr(),
-					static_cast<tdata_t>(tempTileBuf.get()), x, y, 0, 0);
+			if(TIFFReadTile(dirHandle.tiffPtr(),
+					static_cast<tdata_t>(tempTileBuf.get()), x, y, 0, 0) < 0)
+			{
+				AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "Could not read tile at ("
+						<< x << "," << y << ") of \"" << fileName() << "\"");
+			}
 			// The width of the tile in the output image is smaller when it
 			// falls of the RHS of the image.
 			TqInt tileLineSizeOut = min(tileLineSize, bytesPerPixel*(width-x));
@@ -212,9 +220,13 @@ void CqTiffInputFile::readPixelsRGBA(TqUint8* buffer, TqInt startLine,
 	// *will* cause a performance bottleneck if the user calls readPixels() on
 	// only a small number of scanlines at a time.
 	boost::scoped_array<uint32_t> inBuf(
-			new uint32_t[m_header.width()*m_header.height()]);
-	TIFFReadRGBAImageOriented(dirHandle.tiffPtr(), m_header.width(),
-			m_header.height(), inBuf.get(), ORIENTATION_TOPLEFT, 0);
+			new uint32_t[static_cast<size_t>(m_header.width())*m_header.height()]);
+	if(!TIFFReadRGBAImageOriented(dirHandle.tiffPtr(), m_header.width(),
+			m_header.height(), inBuf.get(), ORIENTATION_TOPLEFT, 0))
+	{
+		AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "Could not read the pixels of \""
+				<< fileName() << "\"");
+	}
 
 	// Unfortunately, the RGBA format which libtiff uses puts the RGBA bytes in
 	// the opposite order which we'd like, so we need to swap them.  It's
@@ -224,7 +236,7 @@ void CqTiffInputFile::readPixelsRGBA(TqUint8* buffer, TqInt startLine,
 	TqInt width = m_header.width();
 	TqInt bytesPerPixel = m_header.channelList().bytesPerPixel();
 	assert(bytesPerPixel == 4);
-	const uint32_t* inPtr = inBuf.get() + width*startLine;
+	const uint32_t* inPtr = inBuf.get() + static_cast<size_t>(width)*startLine;
 	for(TqInt line = 0; line < numScanlines; ++line)
 	{
 		for(TqInt col = 0; col < width; ++col)
diff --git a/libs/tex/io/tiledtiffinputfile.cpp b/libs/tex/io/tiledtiffinputfile.cpp
index ffb91ec..7cb4902 100644
--- a/libs/tex/io/tiledtiffinputfile.cpp
+++ b/libs/tex/io/tiledtiffinputfile.cpp
@@ -37,9 +37,12 @@
 
 #include "tiledtiffinputfile.h"
 
+#include <cstring>
+
 #include <boost/scoped_array.hpp>
 
 #include <aqsis/tex/texexception.h>
+#include <aqsis/util/logging.h>
 
 namespace Aqsis {
 
@@ -51,6 +54,11 @@ CqTiledTiffInputFile::CqTiledTiffInputFile(const boostfs::path& fileName)
 	m_widths(),
 	m_heights()
 {
+	if(m_numDirs <= 0)
+	{
+		AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "TIFF file \""
+			<< fileName << "\" has no images");
+	}
 	m_headers.reserve(m_numDirs);
 	m_widths.reserve(m_numDirs);
 	m_heights.reserve(m_numDirs);
@@ -89,6 +97,12 @@ CqTiledTiffInputFile::CqTiledTiffInputFile(const boostfs::path& fileName)
 				AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "TIFF file \""
 						<< fileName << "\" has unequal tile sizes for sub-images");
 			}
+			// Check that the pixels are the same as those of the first image.
+			if(!tmpHeader->channelList().channelTypesMatch(m_headers[0]->channelList()))
+			{
+				AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "TIFF file \""
+						<< fileName << "\" has unequal pixel types for sub-images");
+			}
 		}
 		// Grab store the width and height of the current subimage.
 		m_widths.push_back(tmpHeader->width());
@@ -141,6 +155,26 @@ TqInt CqTiledTiffInputFile::height(TqInt index) const
 	return m_heights[index];
 }
 
+namespace {
+
+/** Read a tile, leaving black if it can't be read.
+ *
+ * Tiles are read on demand in the middle of shading, so a damaged tile
+ * shouldn't be fatal.
+ */
+void readTileOrBlack(CqTiffDirHandle& dirHandle, TqUint8* buffer, TqInt x, TqInt y)
+{
+	const tmsize_t tileSize = TIFFTileSize(dirHandle.tiffPtr());
+	std::memset(buffer, 0, tileSize);
+	if(TIFFReadTile(dirHandle.tiffPtr(), static_cast<tdata_t>(buffer), x, y, 0, 0) < 0)
+	{
+		Aqsis::log() << error << "Could not read tile at (" << x << "," << y
+			<< ") from TIFF file\n";
+	}
+}
+
+} // unnamed namespace
+
 void CqTiledTiffInputFile::readTileImpl(TqUint8* buffer, TqInt x, TqInt y,
 		TqInt subImageIdx, const SqTileInfo tileSize) const
 {
@@ -154,8 +188,7 @@ void CqTiledTiffInputFile::readTileImpl(TqUint8* buffer, TqInt x, TqInt y,
 		// of buffer outside the image.  We want to truncate the tile instead.
 		boost::scoped_array<TqUint8> tmpBuf(
 				new TqUint8[TIFFTileSize(dirHandle.tiffPtr())]);
-		TIFFReadTile(dirHandle.tiffPtr(), static_cast<tdata_t>(tmpBuf.get()),
-				x*m_tileInfo.width, y*m_tileInfo.height, 0, 0);
+		readTileOrBlack(dirHandle, tmpBuf.get(), x*m_tileInfo.width, y*m_tileInfo.height);
 		TqInt bytesPerPixel = m_headers[subImageIdx]->channelList().bytesPerPixel();
 		stridedCopy(buffer, tileSize.width*bytesPerPixel, tmpBuf.get(),
 				m_tileInfo.width*bytesPerPixel, tileSize.height,
@@ -165,8 +198,7 @@ void CqTiledTiffInputFile::readTileImpl(TqUint8* buffer, TqInt x, TqInt y,
 	{
 		// Simple case for wholly contained buffers - the provided buffer is
 		// the correct size, and we get libtiff to read directly into it.
-		TIFFReadTile(dirHandle.tiffPtr(), static_cast<tdata_t>(buffer),
-				x*m_tileInfo.width, y*m_tileInfo.height, 0, 0);
+		readTileOrBlack(dirHandle, buffer, x*m_tileInfo.width, y*m_tileInfo.height);
 	}
 }
 
diff --git a/libs/tex/io/zinputfile.cpp b/libs/tex/io/zinputfile.cpp
index fa888b2..524fef8 100644
--- a/libs/tex/io/zinputfile.cpp
+++ b/libs/tex/io/zinputfile.cpp
@@ -39,6 +39,7 @@
 #include "zinputfile.h"
 
 #include <algorithm>
+#include <limits>
 #include <vector>
 
 #include <aqsis/tex/texexception.h>
@@ -90,6 +91,13 @@ void CqZInputFile::readPixelsImpl(TqUint8* buffer, TqInt startLine,
 	// Read in scanlines of data.
 	m_fileStream.read(reinterpret_cast<char*>(buffer),
 			sizeof(TqFloat)*m_header.width()*numScanlines);
+	if(!m_fileStream)
+	{
+		m_fileStream.clear();
+		AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile, "Could not read lines "
+				<< startLine << " to " << startLine + numScanlines - 1
+				<< " of z-file \"" << m_fileName << "\"");
+	}
 }
 
 void CqZInputFile::readHeader(std::istream& inStream, CqTexFileHeader& header)
@@ -130,6 +138,12 @@ void CqZInputFile::readHeader(std::istream& inStream, CqTexFileHeader& header)
 		AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
 			"cannot read height from aqsis z-file");
 
+	// Check that the dimensions make sense
+	const TqUint maxSize = std::numeric_limits<TqInt>::max();
+	if(width == 0 || height == 0 || width > maxSize || height > maxSize)
+		AQSIS_THROW_XQERROR(XqBadTexture, EqE_BadFile,
+			"invalid size in aqsis z-file");
+
 	// Read world to camera transformation matrix
 	CqMatrix worldToCamera;
 	worldToCamera.SetfIdentity(false);
-- 
2.43.0


From 737e318b8ce73e0fbfbe5c4a561ff378e1387838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:14 +0000
Subject: [PATCH 68/97] fix: a scaled identity matrix was still marked as the
 identity

---
 include/aqsis/math/matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aqsis/math/matrix.h b/include/aqsis/math/matrix.h
index 366cccc..e1d7e38 100644
--- a/include/aqsis/math/matrix.h
+++ b/include/aqsis/math/matrix.h
@@ -920,6 +920,7 @@ inline CqMatrix CqMatrix::Transpose() const
 inline CqMatrix operator*( TqFloat S, const CqMatrix& a )
 {
 	CqMatrix temp( a );
+	temp.m_fIdentity = false;
 	temp.m_elements[ 0 ][ 0 ] *= S;
 	temp.m_elements[ 1 ][ 0 ] *= S;
 	temp.m_elements[ 2 ][ 0 ] *= S;
-- 
2.43.0


From 952ade4de8d957232d98bb8989a1d8b8b440f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:14 +0000
Subject: [PATCH 69/97] fix: matrix and vector products with themselves were
 wrong

---
 include/aqsis/math/vector3d.h | 7 +++++--
 libs/math/matrix.cpp          | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/aqsis/math/vector3d.h b/include/aqsis/math/vector3d.h
index 5485a1f..9ff9e6c 100644
--- a/include/aqsis/math/vector3d.h
+++ b/include/aqsis/math/vector3d.h
@@ -411,9 +411,12 @@ template<typename T>
 inline CqBasicVec3<StoreT>& CqBasicVec3<StoreT>::operator%=(const CqBasicVec3<T> &vec)
 {
 	const CqVec3 tmp(*this);
-	x() = tmp.y()*vec.z() - tmp.z()*vec.y();
-	y() = tmp.z()*vec.x() - tmp.x()*vec.z();
+	// vec may be an alias for *this, so don't modify it until done.
+	const TqFloat newX = tmp.y()*vec.z() - tmp.z()*vec.y();
+	const TqFloat newY = tmp.z()*vec.x() - tmp.x()*vec.z();
 	z() = tmp.x()*vec.y() - tmp.y()*vec.x();
+	x() = newX;
+	y() = newY;
 	return ( *this );
 }
 
diff --git a/libs/math/matrix.cpp b/libs/math/matrix.cpp
index ca48fef..1b3bf9a 100644
--- a/libs/math/matrix.cpp
+++ b/libs/math/matrix.cpp
@@ -149,6 +149,8 @@ void CqMatrix::Normalise()
 
 CqMatrix &CqMatrix::operator*=( const CqMatrix &from )
 {
+	if ( &from == this )
+		return ( *this *= CqMatrix( from ) );
 	if ( m_fIdentity )
 		return ( *this = from );
 	else if ( from.m_fIdentity )
@@ -231,6 +233,8 @@ CqMatrix &CqMatrix::operator*=( const CqMatrix &from )
 //---------------------------------------------------------------------
 CqMatrix& CqMatrix::PreMultiply( const CqMatrix &from )
 {
+	if ( &from == this )
+		return ( PreMultiply( CqMatrix( from ) ) );
 	if ( m_fIdentity )
 		return ( *this = from );
 	else if ( from.m_fIdentity )
-- 
2.43.0


From 89826c755f1970ad2765a99b525610e7f6d7c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:14 +0000
Subject: [PATCH 70/97] fix: skews between axes which aren't perpendicular had
 the wrong angle

---
 libs/math/matrix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/math/matrix.cpp b/libs/math/matrix.cpp
index 1b3bf9a..ebb3c1e 100644
--- a/libs/math/matrix.cpp
+++ b/libs/math/matrix.cpp
@@ -81,7 +81,8 @@ CqMatrix::CqMatrix( const TqFloat angle,
 		              0, 0, 0, 1 );
 		TqFloat par = d1d2dot;               // Amount of d1 parallel to d2
 		TqFloat perp = static_cast<TqFloat>(sqrt( 1.0 - par * par ));   // Amount perpendicular
-		TqFloat s = static_cast<TqFloat>(tan( angle + acos( perp ) ) * perp - par);
+		// The skew moves d1, which is at asin(par) from the y axis, by angle.
+		TqFloat s = static_cast<TqFloat>(tan( angle + asin( par ) ) - par / perp);
 		CqMatrix Skw( 1, 0, 0, 0,
 		              0, 1, s, 0,
 		              0, 0, 1, 0,
-- 
2.43.0


From 61d158d5a615dff3a3d09f41d4e126c24f2fda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:14 +0000
Subject: [PATCH 71/97] fix: ceilPow2 shifted by more than the width of its
 type

---
 include/aqsis/math/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aqsis/math/math.h b/include/aqsis/math/math.h
index cf00244..596f4c2 100644
--- a/include/aqsis/math/math.h
+++ b/include/aqsis/math/math.h
@@ -142,7 +142,7 @@ inline TqFloat radToDeg(const TqFloat a)
 inline TqUint ceilPow2(const TqUint x)
 {
 	TqUint y = x - 1;
-	for (TqUint i = 1; i; i <<= 1)
+	for (TqUint i = 1; i < 8*sizeof(TqUint); i <<= 1)
 		y |= y >> i;
 	// y is now the next highest power of two minus 1.
 	return y + 1;
-- 
2.43.0


From 4dc24c5d97cec1c577cabf5946575ab4fcba5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:48 +0000
Subject: [PATCH 72/97] fix: cellnoise put negative whole coordinates in the
 wrong cell

---
 libs/math/cellnoise.cpp | 47 ++++-------------------------------------
 1 file changed, 4 insertions(+), 43 deletions(-)

diff --git a/libs/math/cellnoise.cpp b/libs/math/cellnoise.cpp
index 24d8a9a..9de0889 100644
--- a/libs/math/cellnoise.cpp
+++ b/libs/math/cellnoise.cpp
@@ -34,6 +34,8 @@
 
 #include	<aqsis/aqsis.h>
 
+#include	<cmath>
+
 #include <aqsis/math/cellnoise.h>
 
 namespace Aqsis {
@@ -43,10 +45,10 @@ namespace Aqsis {
 
 namespace {
 
-// Given a float, return an index into the permutation table
+// Given a float, return the index of its cell into the permutation table
 inline TqUint permTableIndex(TqFloat x)
 {
-	return static_cast<TqUint>(static_cast<TqInt>(x)) & 0x7ff;
+	return static_cast<TqUint>(static_cast<TqInt>(std::floor(x))) & 0x7ff;
 }
 
 } // unnamed namespace
@@ -57,8 +59,6 @@ inline TqUint permTableIndex(TqFloat x)
 
 TqFloat CqCellNoise::FCellNoise1( TqFloat u )
 {
-	if ( u < 0.0 )
-		u -= 1;
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 
 	return ( m_RandomTable[ i ] );
@@ -71,11 +71,6 @@ TqFloat CqCellNoise::FCellNoise1( TqFloat u )
 
 TqFloat CqCellNoise::FCellNoise2( TqFloat u, TqFloat v )
 {
-	if ( u < 0.0 )
-		u -= 1;
-	if ( v < 0.0 )
-		v -= 1;
-
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 	i = m_PermuteTable[i + permTableIndex(v)];
 
@@ -93,12 +88,6 @@ TqFloat CqCellNoise::FCellNoise3( const CqVector3D& P )
 	TqFloat y = P.x();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
 
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
@@ -118,14 +107,6 @@ TqFloat CqCellNoise::FCellNoise4( const CqVector3D& P, TqFloat v )
 	TqFloat y = P.y();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
-	if ( v < 0.0 )
-		v -= 1;
 
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
@@ -144,8 +125,6 @@ CqVector3D CqCellNoise::PCellNoise1( TqFloat u )
 {
 	CqVector3D result;
 
-	if ( u < 0.0 )
-		u -= 1;
 
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 
@@ -167,10 +146,6 @@ CqVector3D CqCellNoise::PCellNoise2( TqFloat u, TqFloat v )
 {
 	CqVector3D result;
 
-	if ( u < 0.0 )
-		u -= 1;
-	if ( v < 0.0 )
-		v -= 1;
 
 	TqInt i = m_PermuteTable[permTableIndex(u)];
 	i = m_PermuteTable[i + permTableIndex(v)];
@@ -197,12 +172,6 @@ CqVector3D CqCellNoise::PCellNoise3( const CqVector3D& P )
 	TqFloat y = P.y();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
 
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
@@ -230,14 +199,6 @@ CqVector3D CqCellNoise::PCellNoise4( const CqVector3D& P, TqFloat v )
 	TqFloat y = P.y();
 	TqFloat z = P.z();
 
-	if ( x < 0.0 )
-		x -= 1;
-	if ( y < 0.0 )
-		y -= 1;
-	if ( z < 0.0 )
-		z -= 1;
-	if ( v < 0.0 )
-		v -= 1;
 
 	TqInt i = m_PermuteTable[permTableIndex(x)];
 	i = m_PermuteTable[i + permTableIndex(y)];
-- 
2.43.0


From 09ea4cd4d5eaf64e0ea31ed4a055b380d74a0c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:30 +0000
Subject: [PATCH 73/97] fix: subdivision corners leaked to neighbouring
 vertices and were lost when faces were diced

---
 libs/core/geometry/subdivision2.cpp | 17 +++++++++++++++++
 libs/core/geometry/subdivision2.h   |  6 +++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/libs/core/geometry/subdivision2.cpp b/libs/core/geometry/subdivision2.cpp
index c1bb7e6..8e2edda 100644
--- a/libs/core/geometry/subdivision2.cpp
+++ b/libs/core/geometry/subdivision2.cpp
@@ -2881,6 +2881,23 @@ boost::shared_ptr<CqSubdivision2> CqSurfaceSubdivisionPatch::Extract( TqInt iTim
 		iP += vertices.size();
 	}
 	pSurface->Finalise();
+
+	// Carry over the corner sharpness of the vertices of the extracted faces.
+	for( TqUint iFace = 0; iFace < aQff.size(); iFace++ )
+	{
+		std::vector<CqLath*> aQfv, aNewQfv;
+		aQff[iFace]->Qfv( aQfv );
+		pSurface->pFacet( iFace )->Qfv( aNewQfv );
+		for( std::vector<CqLath*>::iterator iV = aQfv.begin(); iV != aQfv.end(); ++iV )
+		{
+			TqFloat sharpness = pTopology()->CornerSharpness( *iV );
+			if( sharpness <= 0.0f )
+				continue;
+			for( std::vector<CqLath*>::iterator iNew = aNewQfv.begin(); iNew != aNewQfv.end(); ++iNew )
+				if( (*iNew)->VertexIndex() == Vertices[(*iV)->VertexIndex()] )
+					pSurface->AddSharpCorner( *iNew, sharpness );
+		}
+	}
 	return(pSurface);
 }
 
diff --git a/libs/core/geometry/subdivision2.h b/libs/core/geometry/subdivision2.h
index 9b70292..3920e6e 100644
--- a/libs/core/geometry/subdivision2.h
+++ b/libs/core/geometry/subdivision2.h
@@ -133,7 +133,11 @@ class CqSubdivision2 : public CqMotionSpec<boost::shared_ptr<CqPolygonPoints> >
 			pLath->Qve( aQve );
 			std::vector<CqLath*>::iterator iVE;
 			for( iVE = aQve.begin(); iVE != aQve.end(); iVE++ )
-				m_mapSharpCorners[(*iVE)] = Sharpness;
+			{
+				// At a boundary Qve() includes an edge of the neighbouring vertex.
+				if( (*iVE)->VertexIndex() == pLath->VertexIndex() )
+					m_mapSharpCorners[(*iVE)] = Sharpness;
+			}
 		}
 		TqFloat		CornerSharpness(const CqLath* pLath) const
 		{
-- 
2.43.0


From 0d42c86e9c533c77e7cff2a5e2bf7770fdde8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:28 +0000
Subject: [PATCH 74/97] fix: midpoint depth filter ignored an opaque surface
 behind the nearest

---
 libs/core/imagepixel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/core/imagepixel.cpp b/libs/core/imagepixel.cpp
index aec1e68..1417230 100644
--- a/libs/core/imagepixel.cpp
+++ b/libs/core/imagepixel.cpp
@@ -272,7 +272,11 @@ void CqImagePixel::Combine( enum EqDepthFilter depthfilter, CqColor zThreshold )
 					{
 						// Use midpoint for depth
 						if ( sampleData.data.size() > 1 )
-							occlDepth = ( ( opaqueDepths[0] + opaqueDepths[1] ) * 0.5f );
+						{
+							// The second opaque surface may only be known by
+							// the occluding depth.
+							occlDepth = ( ( opaqueDepths[0] + min( opaqueDepths[1], sampleData.occlZ ) ) * 0.5f );
+						}
 						else
 							occlDepth = FLT_MAX;
 					}
-- 
2.43.0


From 94109a03e2d33fec4fcbe44602e5e7c4670125f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:12 +0000
Subject: [PATCH 75/97] fix: file display overflowed on long descriptions and
 mixed up those of several images

---
 tools/displays/file/display.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index ae02f74..ff59246 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -92,6 +92,7 @@ struct SqDisplayInstance
 	bool		m_RenderWholeFrame;
 	TqInt		m_imageType;
 	TqInt		m_append;
+	std::string	m_description;
 	TqFloat		m_matWorldToCamera[ 4 ][ 4 ];
 	TqFloat		m_matWorldToScreen[ 4 ][ 4 ];
 	// The number of pixels that have already been rendered (used for progress reporting)
@@ -103,14 +104,13 @@ struct SqDisplayInstance
 
 static char datetime[21];
 static time_t start;
-static std::string description;
 
 //----------------------------------------------------------------------
 /** SaveAsShadowMap() Save as a tiff an shadowmap
 *
 */
 
-void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, char *mydescription)
+void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, const char *mydescription)
 {
 	TqChar version[ 80 ];
 	TqUint twidth = 32;
@@ -229,7 +229,7 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 	uint16_t photometric = PHOTOMETRIC_RGB;
 	uint16_t config = PLANARCONFIG_CONTIG;
 	struct tm *ct;
-	char mydescription[80];
+	std::string mydescription = image->m_description;
 	int year;
 
 	time_t long_time;
@@ -242,23 +242,21 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 	sprintf(datetime, "%04d:%02d:%02d %02d:%02d:%02d", year, ct->tm_mon + 1,
 	        ct->tm_mday, ct->tm_hour, ct->tm_min, ct->tm_sec);
 
-	if (description.empty())
+	if (mydescription.empty())
 	{
+		char rendertime[80];
 		double nSecs = difftime(long_time, start);
-		sprintf(mydescription,"Aqsis Renderer, %d secs rendertime", static_cast<TqInt>(nSecs));
+		sprintf(rendertime,"Aqsis Renderer, %d secs rendertime", static_cast<TqInt>(nSecs));
+		mydescription = rendertime;
 		start = long_time;
 	}
-	else
-	{
-		strcpy(mydescription, description.c_str());
-	}
 
 
 	// Set common tags
 	// If in "shadowmap" mode, write as a shadowmap.
 	if( image->m_imageType == Type_Shadowmap )
 	{
-		SaveAsShadowMap(filename, image, mydescription);
+		SaveAsShadowMap(filename, image, mydescription.c_str());
 		return;
 	}
 	else if( image->m_imageType == Type_ZFile )
@@ -317,7 +315,7 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 		TIFFSetField( pOut, TIFFTAG_DATETIME, datetime);
 		if (!image->m_hostname.empty())
 			TIFFSetField( pOut, TIFFTAG_HOSTCOMPUTER, image->m_hostname.c_str() );
-		TIFFSetField( pOut, TIFFTAG_IMAGEDESCRIPTION, mydescription);
+		TIFFSetField( pOut, TIFFTAG_IMAGEDESCRIPTION, mydescription.c_str());
 
 		// Set the position tages in case we aer dealing with a cropped image.
 		TIFFSetField( pOut, TIFFTAG_XPOSITION, ( float ) image->m_origin[0] );
@@ -565,7 +563,7 @@ extern "C" PtDspyError DspyImageOpen(PtDspyImageHandle * image,
 		{
 			// Do something about it; the user will want to add its copyright notice.
 			if (ydesc && *ydesc)
-				description = ydesc;
+				pImage->m_description = ydesc;
 		}
 	}
 	else
@@ -637,7 +635,6 @@ extern "C" PtDspyError DspyImageClose(PtDspyImageHandle image)
 	// Delete the image structure.
 	if (pImage->m_data)
 		free(pImage->m_data);
-	description = "";
 	delete(pImage);
 
 
-- 
2.43.0


From 343a8b485249c9c0272f1f5f586c2cf510d0a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:13 +0000
Subject: [PATCH 76/97] fix: file display labelled 32 bit integer pixels as
 floating point

---
 tools/displays/file/display.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index ff59246..0970661 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -391,6 +391,10 @@ void WriteTIFF(const std::string& filename, SqDisplayInstance* image)
 				TIFFSetField( pOut, TIFFTAG_SAMPLEFORMAT, SAMPLEFORMAT_UINT );
 				TIFFSetField( pOut, TIFFTAG_BITSPERSAMPLE, 16 );
 			}
+			else if (image->m_format == PkDspyUnsigned32)
+			{
+				TIFFSetField( pOut, TIFFTAG_SAMPLEFORMAT, SAMPLEFORMAT_UINT );
+			}
 
 			TIFFSetField( pOut, TIFFTAG_SAMPLESPERPIXEL, image->m_iFormatCount );
 
-- 
2.43.0


From cab5718cf972d5aabc2666facc4d63ae2334d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:13 +0000
Subject: [PATCH 77/97] fix: shadow display lost rows of tall maps and
 overflowed with several channels

---
 tools/displays/file/display.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/displays/file/display.cpp b/tools/displays/file/display.cpp
index 0970661..dc908de 100644
--- a/tools/displays/file/display.cpp
+++ b/tools/displays/file/display.cpp
@@ -170,19 +170,19 @@ void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, cons
 			for (TqInt y = 0; y < image->m_height; y++)
 				for (TqInt x = 0; x < image->m_width; x++)
 				{
-					TqDouble value = (TqDouble) ptdata[y*image->m_width + x];
+					TqDouble value = (TqDouble) ptdata[(y*image->m_width + x)*image->m_iFormatCount];
 					if (value < minz) minz = value;	
 				}
 			TIFFSetField( pshadow, TIFFTAG_SMINSAMPLEVALUE, minz );
 
-			TqUint tsize = twidth * tlength;
+			TqUint tsize = twidth * tlength * image->m_iFormatCount;
 			TqUint tperrow = ( image->m_width + twidth - 1 ) / twidth;
 			TqFloat* ptile = static_cast<TqFloat*>( _TIFFmalloc( tsize * sizeof( TqFloat ) ) );
 
 
 			if ( ptile != NULL )
 			{
-				TqUint ctiles = tperrow * ( ( image->m_width + tlength - 1 ) / tlength );
+				TqUint ctiles = tperrow * ( ( image->m_height + tlength - 1 ) / tlength );
 				TqUint itile;
 				for ( itile = 0; itile < ctiles; itile++ )
 				{
@@ -211,6 +211,7 @@ void SaveAsShadowMap(const std::string& filename, SqDisplayInstance* image, cons
 				}
 				TIFFWriteDirectory( pshadow );
 
+				_TIFFfree( ptile );
 			}
 
 
-- 
2.43.0


From 73694cf999e18aeb138e2941860583f4f3b0889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:13 +0000
Subject: [PATCH 78/97] fix: exr display wrote cropped images outside its
 scanline buffer

---
 tools/displays/exr/d_exr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/displays/exr/d_exr.cpp b/tools/displays/exr/d_exr.cpp
index 26e3431..ef18334 100644
--- a/tools/displays/exr/d_exr.cpp
+++ b/tools/displays/exr/d_exr.cpp
@@ -349,7 +349,7 @@ Image::writePixels (int xMin, int xMaxPlusone,
 		_scanlinesReceived[yMin] = 0;
 	}
 
-	toBase = &(_scanlines[yMin][0]) + _bufferPixelSize * xMin;
+	toBase = &(_scanlines[yMin][0]) + _bufferPixelSize * (xMin - _bufferXMin);
 	toInc = _bufferPixelSize;
 
 	for(LayerChannelList::iterator i = layers()[layerName].channelList.begin(), e = layers()[layerName].channelList.end(); i != e; ++i)
-- 
2.43.0


From 5aae20c1f8d6e844fb305c1e4b0085101785e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:45 +0000
Subject: [PATCH 79/97] fix: bmp display wrote a malformed header where long
 has 64 bits

---
 tools/displays/sdcBMP/d_sdcBMP.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/displays/sdcBMP/d_sdcBMP.cpp b/tools/displays/sdcBMP/d_sdcBMP.cpp
index 1be42ba..be22bab 100644
--- a/tools/displays/sdcBMP/d_sdcBMP.cpp
+++ b/tools/displays/sdcBMP/d_sdcBMP.cpp
@@ -65,14 +65,14 @@ typedef struct tagRGBQUAD { // rgbq
 
 typedef struct tagBITMAPINFOHEADER{ // bmih 
     int     biSize; 
-    long    biWidth; 
-    long    biHeight; 
+    int     biWidth; 
+    int     biHeight; 
     short   biPlanes; 
     short   biBitCount;
     int     biCompression; 
     int     biSizeImage; 
-    long    biXPelsPerMeter; 
-    long    biYPelsPerMeter; 
+    int     biXPelsPerMeter; 
+    int     biYPelsPerMeter; 
     int     biClrUsed; 
     int     biClrImportant; 
 } BITMAPINFOHEADER; 
@@ -128,7 +128,7 @@ static const float   DEFAULT_PIXELASPECTRATIO   = 1.0f;
 static int  DWORDALIGN(int bits);
 static bool bitmapfileheader(BITMAPFILEHEADER *bfh, FILE *fp);
 static unsigned short swap2( unsigned short s );
-static unsigned long  swap4( unsigned long l );
+static unsigned int   swap4( unsigned int l );
 static bool lowendian();
 
 // -----------------------------------------------------------------------------
@@ -558,9 +558,9 @@ static unsigned short swap2( unsigned short s )
 //******************************************************************************
 // Swap a long if you are not on NT/Pentium you must swap
 //******************************************************************************
-static unsigned long swap4(unsigned long l)
+static unsigned int swap4(unsigned int l)
 {
-unsigned long n;
+unsigned int n;
 unsigned char *c, *d;
 
    c = (unsigned char*) &n;
-- 
2.43.0


From aca7aa72da87e681590ab61d4ffeb9f964d72c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:41 +0000
Subject: [PATCH 80/97] fix: bmp display ignored the position of cropped images

---
 tools/displays/sdcBMP/d_sdcBMP.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tools/displays/sdcBMP/d_sdcBMP.cpp b/tools/displays/sdcBMP/d_sdcBMP.cpp
index be22bab..1035ec8 100644
--- a/tools/displays/sdcBMP/d_sdcBMP.cpp
+++ b/tools/displays/sdcBMP/d_sdcBMP.cpp
@@ -101,6 +101,7 @@ typedef struct
 	int               RowSize;
 	int               PixelBytes;
 	long              TotalPixels;
+	int               Origin[2];   // Position of the image when it's a crop of a larger one.
 }
 AppData;
 
@@ -197,6 +198,13 @@ extern "C" PtDspyError DspyImageOpen(PtDspyImageHandle    *image,
 
 	g_Data.TotalPixels     = width * height;
 
+	for ( int i = 0; i < paramCount; i++ )
+	{
+		if ( strcmp(parameters[i].name, "origin") == 0 &&
+		     parameters[i].vtype == 'i' && parameters[i].vcount == 2 )
+			memcpy(g_Data.Origin, parameters[i].value, sizeof(g_Data.Origin));
+	}
+
 
 	// Prepare the file header
 
@@ -412,6 +420,11 @@ extern "C" PtDspyError DspyImageData(PtDspyImageHandle image,
 		return PkDspyErrorBadParams;
 	}
 
+	// The data is positioned relative to the whole image.
+	xmin -= pData->Origin[0];
+	xmax_plusone -= pData->Origin[0];
+	ymin -= pData->Origin[1];
+
 	spot  = pData->bfh.bfOffBits +
 	        (pData->RowSize * (pData->bmi.bmiHeader.biHeight - ymin - 1));
 	spot += pData->PixelBytes * xmin;
-- 
2.43.0


From 3340624f2374555e72b7ffbdc6a07245dba013e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:41 +0000
Subject: [PATCH 81/97] fix: exr display stored values beyond the range of half
 as zero

---
 tools/displays/exr/d_exr.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/displays/exr/d_exr.cpp b/tools/displays/exr/d_exr.cpp
index ef18334..42d3d81 100644
--- a/tools/displays/exr/d_exr.cpp
+++ b/tools/displays/exr/d_exr.cpp
@@ -150,8 +150,11 @@ half                halfID( half x )
 	return x;
 }
 
-halfFunction <half> id( halfID );
-halfFunction <half> piz12( round12log );
+// Values too large for a half stay infinite rather than becoming zero.
+halfFunction <half> id( halfID, -HALF_MAX, HALF_MAX, half(),
+                        half::posInf(), half::negInf(), half::qNan() );
+halfFunction <half> piz12( round12log, -HALF_MAX, HALF_MAX, half(),
+                           half::posInf(), half::negInf(), half::qNan() );
 
 struct SqImageLayerChannel
 {
-- 
2.43.0


From 6a6513529e823573f652c03265e86b0baf8ba3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 82/97] fix: aqsl crashed on a function name used as a
 variable, or a variable as a function

---
 libs/slcomp/parse/parser.yy | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libs/slcomp/parse/parser.yy b/libs/slcomp/parse/parser.yy
index 187664a..0802d5d 100644
--- a/libs/slcomp/parse/parser.yy
+++ b/libs/slcomp/parse/parser.yy
@@ -90,6 +90,8 @@ void Error(const CqString& message, TqInt lineNumber);
 %{
 extern TqInt yylex();
 static void yyerror(const CqString& Message);
+static void checkIsVariable(TqInt eType);
+static void checkIsFunction(TqInt eType);
 %}
 
 
@@ -1537,6 +1539,7 @@ primary
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 							}
 	|	SYMBOL				{
+								checkIsVariable($1.eType);
 								$$=new CqParseNodeVariable($1.VarRef);	
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 							}
@@ -1635,12 +1638,14 @@ relation
 assignexpression
 	:	SYMBOL '=' expression
 							{
+								checkIsVariable($1.eType);
 								$$=new CqParseNodeAssign($1.VarRef);
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								$$->AddLastChild($3);
 							}
 	|	SYMBOL ADD_ASSIGN expression
 							{
+								checkIsVariable($1.eType);
 								$$=new CqParseNodeAssign($1.VarRef);
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
@@ -1655,6 +1660,7 @@ assignexpression
 							}
 	|	SYMBOL SUB_ASSIGN expression
 							{
+								checkIsVariable($1.eType);
 								$$=new CqParseNodeAssign($1.VarRef);
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
@@ -1669,6 +1675,7 @@ assignexpression
 							}
 	|	SYMBOL MUL_ASSIGN expression
 							{
+								checkIsVariable($1.eType);
 								$$=new CqParseNodeAssign($1.VarRef);
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
@@ -1683,6 +1690,7 @@ assignexpression
 							}
 	|	SYMBOL DIV_ASSIGN expression
 							{
+								checkIsVariable($1.eType);
 								$$=new CqParseNodeAssign($1.VarRef);
 								$$->SetPos(ParseLineNumber,ParseStreamName.c_str());
 								
@@ -1779,6 +1787,7 @@ assignexpression
 procedurecall
 	:	SYMBOL '(' proc_arguments ')'
 							{
+								checkIsFunction($1.eType);
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction(CqFuncDef::GetFunctionPtr($1.FuncRef)->strName(), func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
@@ -1788,6 +1797,7 @@ procedurecall
 								$$=pFunc;
 							}
 	|	SYMBOL '(' ')'		{
+								checkIsFunction($1.eType);
 								std::vector<SqFuncRef> func;
 								CqFuncDef::FindFunction(CqFuncDef::GetFunctionPtr($1.FuncRef)->strName(), func);
 								CqParseNodeFunctionCall* pFunc=new CqParseNodeFunctionCall(func);
@@ -2222,6 +2232,20 @@ void Error(const CqString& message, TqInt lineNumber)
 
 } // End Namespace
 
+// Functions and variables share the SYMBOL token, make sure that the symbol
+// has the meaning which is required where it's used.
+static void checkIsVariable(TqInt eType)
+{
+	if(!(eType&1))
+		yyerror("function name used as a variable");
+}
+
+static void checkIsFunction(TqInt eType)
+{
+	if(!(eType&2))
+		yyerror("variable name used as a function");
+}
+
 static void yyerror(const CqString& message)
 {
 	Error(message, ParseLineNumber);
-- 
2.43.0


From 716730f025481d202c72c871ea2381bed839a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 83/97] fix: aqsl used the freed name of the source after an
 #include inside a shader body

---
 libs/slcomp/parse/parser.yy | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/slcomp/parse/parser.yy b/libs/slcomp/parse/parser.yy
index 0802d5d..c5f20a8 100644
--- a/libs/slcomp/parse/parser.yy
+++ b/libs/slcomp/parse/parser.yy
@@ -20,6 +20,7 @@ namespace std
 #include <algorithm>
 #include <iostream>
 #include <map>
+#include <set>
 #include <string>
 #include <vector>
 #include <stack>
@@ -90,6 +91,7 @@ void Error(const CqString& message, TqInt lineNumber);
 %{
 extern TqInt yylex();
 static void yyerror(const CqString& Message);
+static const char* persistentStreamName();
 static void checkIsVariable(TqInt eType);
 static void checkIsFunction(TqInt eType);
 %}
@@ -191,7 +193,7 @@ get_filepos
 	:
 		{
 			$$.m_LineNo = ParseLineNumber;
-			$$.m_strFileName = ParseStreamName.c_str();
+			$$.m_strFileName = persistentStreamName();
 		}
 	;
 
@@ -2232,6 +2234,13 @@ void Error(const CqString& message, TqInt lineNumber)
 
 } // End Namespace
 
+// A copy of the current stream name which stays valid after the name changes.
+static const char* persistentStreamName()
+{
+	static std::set<std::string> names;
+	return names.insert(ParseStreamName.c_str()).first->c_str();
+}
+
 // Functions and variables share the SYMBOL token, make sure that the symbol
 // has the meaning which is required where it's used.
 static void checkIsVariable(TqInt eType)
-- 
2.43.0


From b5c91f22a01ec4f2d730a285a952dc72c3385c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 84/97] fix: a source with an error spoiled the sources
 compiled after it in the same run of aqsl

---
 libs/slcomp/parse/parser.yy  |  9 +++++++++
 libs/slcomp/parse/scanner.ll | 11 +++++++++++
 2 files changed, 20 insertions(+)

diff --git a/libs/slcomp/parse/parser.yy b/libs/slcomp/parse/parser.yy
index c5f20a8..2507187 100644
--- a/libs/slcomp/parse/parser.yy
+++ b/libs/slcomp/parse/parser.yy
@@ -60,6 +60,7 @@ CqString	popScope();
 void	TypeCheck();
 void	Optimise();
 void	InitStandardNamespace();
+void	ResetScanner();
 void	ProcessShaderArguments( CqParseNode* pArgs );
 
 void Error(const CqString& message, TqInt lineNumber);
@@ -2178,6 +2179,14 @@ CqString popScope()
 
 void InitStandardNamespace()
 {
+	// Forget any state which was left behind by parsing another source.
+	ParseTreePointer = 0;
+	ParseNameSpaceStack.clear();
+	scopeID = 0;
+	functionReturnCountStack = std::stack<TqInt>();
+	currentFunctionStack = std::stack<CqParseNodeDeclaration*>();
+	ResetScanner();
+
 	std::pair<bool,CqString> n;
 	n.first = false;
 	n.second = "";
diff --git a/libs/slcomp/parse/scanner.ll b/libs/slcomp/parse/scanner.ll
index 78f9df9..5e31065 100644
--- a/libs/slcomp/parse/scanner.ll
+++ b/libs/slcomp/parse/scanner.ll
@@ -282,3 +282,14 @@ static TqInt scannerinput(char* Buffer, TqInt MaxSize)
 	return count;
 }
 
+namespace Aqsis
+{
+
+// Discard any input which is left over from a previous source.
+void ResetScanner()
+{
+	YY_FLUSH_BUFFER;
+	BEGIN(INITIAL);
+}
+
+}
-- 
2.43.0


From 5eaa060146a90a45374285da28059ba52f29d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 85/97] fix: aqsl exited successfully after preprocessor errors
 and missing sources

---
 tools/aqsl/aqsl.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tools/aqsl/aqsl.cpp b/tools/aqsl/aqsl.cpp
index a67b06d..57e5c96 100644
--- a/tools/aqsl/aqsl.cpp
+++ b/tools/aqsl/aqsl.cpp
@@ -191,6 +191,7 @@ int main( int argc, const char** argv )
 					if (!instream.is_open()) 
 					{
 						std::cerr << "Could not open input file: " << *it << std::endl;
+						error = true;
 						continue;
 					}
 					instream.unsetf(std::ios::skipws);
@@ -230,6 +231,7 @@ int main( int argc, const char** argv )
 					context_type::iterator_type first = ctx.begin();
 					context_type::iterator_type last = ctx.end();
 
+					bool preprocessorError = false;
 					std::stringstream preprocessed(std::stringstream::in | std::stringstream::out);
 					std::ofstream dumpfile;
 					if( g_dumpsl )
@@ -260,6 +262,8 @@ int main( int argc, const char** argv )
 								dumpfile << std::endl;
 								break;
 							};
+							if (e.get_severity() >= ::boost::wave::util::severity_error )
+								preprocessorError = true;
   						}
 						catch (...) 
 						{
@@ -271,7 +275,9 @@ int main( int argc, const char** argv )
 					if( dumpfile.is_open() )
 						dumpfile.close();
   
-					if ( Parse( preprocessed, e->c_str(), Aqsis::log() ) )
+					if ( preprocessorError )
+						error = true;
+					else if ( Parse( preprocessed, e->c_str(), Aqsis::log() ) )
 						codeGenerator->OutputTree( GetParseTree(), g_stroutname );
 					else
 						error = true;
@@ -282,6 +288,7 @@ int main( int argc, const char** argv )
 					Aqsis::log() 
 					<< e.file_name() << "(" << e.line_no() << "): "
 					<< e.description() << std::endl;
+					error = true;
 					continue;
 				}
 				catch (std::exception &e)
@@ -291,6 +298,7 @@ int main( int argc, const char** argv )
 				        << "(" << current_position.get_line() << "): "
 				        << "exception caught: " << e.what()
 				        << std::endl;
+					error = true;
 					continue;
 				}
 				catch (...) {
@@ -298,6 +306,7 @@ int main( int argc, const char** argv )
 					Aqsis::log() << current_position.get_file()
 					<< "(" << current_position.get_line() << "): "
 					<< "unexpected exception caught." << std::endl;
+					error = true;
 					continue;
 				}
 			}
-- 
2.43.0


From c384304357d791786b924206edf78168be884535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 86/97] fix: aqsl reported errors on the wrong line, or in the
 wrong file, after skipped lines and headers

---
 tools/aqsl/aqsl.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/tools/aqsl/aqsl.cpp b/tools/aqsl/aqsl.cpp
index 57e5c96..3809894 100644
--- a/tools/aqsl/aqsl.cpp
+++ b/tools/aqsl/aqsl.cpp
@@ -32,6 +32,7 @@
 #include	<iostream>
 #include	<fstream>
 #include	<sstream>
+#include	<algorithm>
 #include	<cstdlib>
 #include	<cstring>
 #include	<string>
@@ -203,6 +204,8 @@ int main( int argc, const char** argv )
 					typedef boost::wave::context<std::string::iterator, lex_iterator_type>
 					    context_type;
 					context_type ctx (instring.begin(), instring.end(), it->c_str());
+					// The line directives are generated below.
+					ctx.set_language( boost::wave::enable_emit_line_directives( ctx.get_language(), false ) );
 
 					// Append the -i arguments passed in to forward them to the preprocessor.
 					for ( ArgParse::apstringvec::const_iterator include = g_includes.begin(); include != g_includes.end(); include++ )
@@ -232,6 +235,9 @@ int main( int argc, const char** argv )
 					context_type::iterator_type last = ctx.end();
 
 					bool preprocessorError = false;
+					// Position which the parser assumes for the next token.
+					std::size_t outputLine = 0;
+					boost::wave::util::file_position_type::string_type outputFile;
 					std::stringstream preprocessed(std::stringstream::in | std::stringstream::out);
 					std::ofstream dumpfile;
 					if( g_dumpsl )
@@ -244,8 +250,25 @@ int main( int argc, const char** argv )
 					while (first != last) 
 					{
 						current_position = (*first).get_position();
-						preprocessed << (*first).get_value();
-						dumpfile << (*first).get_value();
+						const std::string value( (*first).get_value().c_str() );
+						if ( value.find_first_not_of( " \t\r\n\f\v" ) != std::string::npos )
+						{
+							// The preprocessor leaves out skipped lines, make sure that the
+							// parser knows where each token came from.
+							const boost::wave::util::file_position_type tokenPos = (*first).get_expand_position();
+							if ( tokenPos.get_line() != outputLine || tokenPos.get_file() != outputFile )
+							{
+								outputLine = tokenPos.get_line();
+								outputFile = tokenPos.get_file();
+								std::ostringstream lineDirective;
+								lineDirective << "\n#line " << outputLine << " \"" << outputFile << "\"\n";
+								preprocessed << lineDirective.str();
+								dumpfile << lineDirective.str();
+							}
+						}
+						outputLine += std::count( value.begin(), value.end(), '\n' );
+						preprocessed << value;
+						dumpfile << value;
 
 						try
 						{
-- 
2.43.0


From 825f87f3240cc353e9c3ec8849ff74cd7614c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 87/97] fix: aqsltell printed the wrong elements of matrix
 defaults

---
 tools/aqsltell/aqsltell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/aqsltell/aqsltell.cpp b/tools/aqsltell/aqsltell.cpp
index 103f42d..eb7e954 100644
--- a/tools/aqsltell/aqsltell.cpp
+++ b/tools/aqsltell/aqsltell.cpp
@@ -208,11 +208,11 @@ int main( int argc, const char** argv )
 										symPtr->svd_default.matrixval[ arrayIndex ].val[0][0] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[0][1] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[0][2] << " " <<
-										symPtr->svd_default.matrixval[ arrayIndex ].val[0][2] << " " <<
+										symPtr->svd_default.matrixval[ arrayIndex ].val[0][3] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[1][0] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[1][1] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[1][2] << " " <<
-										symPtr->svd_default.matrixval[ arrayIndex ].val[1][2] << " " <<
+										symPtr->svd_default.matrixval[ arrayIndex ].val[1][3] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[2][0] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[2][1] << " " <<
 										symPtr->svd_default.matrixval[ arrayIndex ].val[2][2] << " " <<
-- 
2.43.0


From 94cca629ad0f7f3be9ab6d8e81a53f92ca5fd1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:18 +0000
Subject: [PATCH 88/97] fix: slxargs described varying shader parameters as
 uniform

---
 libs/slxargs/slx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/slxargs/slx.cpp b/libs/slxargs/slx.cpp
index c5bec84..92c2437 100644
--- a/libs/slxargs/slx.cpp
+++ b/libs/slxargs/slx.cpp
@@ -347,6 +347,7 @@ static void AddShaderVar( IqShaderData * shaderVar,
 	{
 		theType = shaderVar->Type();
 		theClass = shaderVar->Class();
+		const int argIndex = *theNArgs;
 
 		varNameCqStr = shaderVar->strName();
 		varNameCStr = ( char * ) varNameCqStr.c_str();
@@ -656,6 +657,10 @@ static void AddShaderVar( IqShaderData * shaderVar,
 				default:
 				break;
 		}
+
+		if ( *theNArgs > argIndex )
+			GetShaderArgRecAt( theArgsArray, argIndex )->svd_detail =
+				( theClass == class_varying ) ? SLX_DETAIL_VARYING : SLX_DETAIL_UNIFORM;
 	}
 }
 
-- 
2.43.0


From c8277b7ad132ff6a810338abc51b92b722021262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 89/97] fix: restore the pre-projection transformation at the
 end of a frame

---
 libs/core/renderer.cpp | 2 ++
 libs/core/renderer.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/libs/core/renderer.cpp b/libs/core/renderer.cpp
index 0e2cb2b..3903d38 100644
--- a/libs/core/renderer.cpp
+++ b/libs/core/renderer.cpp
@@ -197,6 +197,7 @@ boost::shared_ptr<CqModeBlock>	CqRenderer::BeginFrameModeBlock()
 		if ( pconNew )
 		{
 			m_pconCurrent = pconNew;
+			m_framePreProjectionTransform = m_preProjectionTransform;
 			return ( pconNew );
 		}
 		else
@@ -395,6 +396,7 @@ void	CqRenderer::EndFrameModeBlock()
 	{
 		m_pconCurrent->EndFrameModeBlock();
 		m_pconCurrent = m_pconCurrent->pconParent();
+		m_preProjectionTransform = m_framePreProjectionTransform;
 	}
 }
 
diff --git a/libs/core/renderer.h b/libs/core/renderer.h
index 193c6bb..cca271f 100644
--- a/libs/core/renderer.h
+++ b/libs/core/renderer.h
@@ -550,6 +550,7 @@ class CqRenderer : public IqRenderer
 		CqTransformPtr	m_pTransCamera;					///< The camera transform.
 		CqTransformPtr	m_pTransDefObj;				///< The initial transformation for objects.
 		CqTransformPtr	m_preProjectionTransform;	///< The transformation that was applied prior to projection.
+		CqTransformPtr	m_framePreProjectionTransform;	///< Value of m_preProjectionTransform to restore at the end of the current frame.
 		bool			m_fWorldBegin;
 		/// Renderman symbol table
 		TokenDict m_tokenDict;
-- 
2.43.0


From 0d7567f0c80d05c21535ccdf1fcec427dc66193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:08 +0000
Subject: [PATCH 90/97] fix: arguments after an option with a fixed number of
 arguments were taken for options

---
 libs/util/argparse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/util/argparse.cpp b/libs/util/argparse.cpp
index f428d21..875e9f9 100644
--- a/libs/util/argparse.cpp
+++ b/libs/util/argparse.cpp
@@ -252,12 +252,14 @@ bool ArgParse::parse(int argc, const char** argv)
 			oneshotargeater = NULL;
 			continue;
 		}
+		// An option which has got all its arguments doesn't eat any more.
+		if (argeater != NULL && argeater->count == 0)
+			argeater = NULL;
 		// The argv[i][1] == '\0' part below is so we treat "-"
 		// by itself as a regular argument, not as an option,
 		// since it's a common abbreviation for stdin, and isn't
 		// really meaningful as an option.
-		if (( argv[i][0] != '-' || argv[i][1] == '\0' ) &&
-		        ( !argeater || ( argeater->count > 0 || argeater->count == -1 ) ) )
+		if (argv[i][0] != '-' || argv[i][1] == '\0')
 		{
 			if (argeater == NULL)
 				d->leftovers.push_back(argv[i]);
-- 
2.43.0


From 08e5597790e818d8fc0054fa40e8a9b6c7b47ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:08 +0000
Subject: [PATCH 91/97] fix: integers out of range on the command line are
 errors

---
 libs/util/argparse.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libs/util/argparse.cpp b/libs/util/argparse.cpp
index 875e9f9..6535bab 100644
--- a/libs/util/argparse.cpp
+++ b/libs/util/argparse.cpp
@@ -21,6 +21,7 @@
 #include <list>
 #include <functional>
 #include <sstream>
+#include <cerrno>
 #include <cstdlib>
 
 typedef std::list<ArgParse::apstring> StringList;
@@ -487,9 +488,10 @@ static ArgParse::apstring parseInt(ArgParse::apstring arg,
                                    ArgParse::apint* value)
 {
 	char* endptr;
-	ArgParse::apint newvalue = (ArgParse::apint) strtol(arg.c_str(),
-	                           &endptr, 0);
-	if (*endptr != '\0' || arg.length() == 0)
+	errno = 0;
+	long longvalue = strtol(arg.c_str(), &endptr, 0);
+	ArgParse::apint newvalue = (ArgParse::apint) longvalue;
+	if (*endptr != '\0' || arg.length() == 0 || errno == ERANGE || newvalue != longvalue)
 		return ArgParse::apstring("\"") + arg + "\" is not a valid integer";
 	*value = newvalue;
 	return "";
-- 
2.43.0


From 4993b65881f9da87f6f046cfa64ddaa3c1cd5882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:08 +0000
Subject: [PATCH 92/97] fix: expanding a search path with an unmatched % did
 not end

---
 libs/util/file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/util/file.cpp b/libs/util/file.cpp
index d5c3c03..568e42a 100644
--- a/libs/util/file.cpp
+++ b/libs/util/file.cpp
@@ -186,6 +186,12 @@ std::string expandSearchPath(const std::string& newPath,
 						expandedPath += strVal;
 					strt = envvarend + 1;
 				}
+				else
+				{
+					// an unmatched % stands for itself
+					expandedPath += '%';
+					strt = match + 1;
+				}
 			}
 		}
 		else
-- 
2.43.0


From 9a17201376a472bfc95eb79a3abab8af7ae9d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:08 +0000
Subject: [PATCH 93/97] fix: an inaccessible directory ended the search for a
 file with an exception

---
 libs/util/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/util/file.cpp b/libs/util/file.cpp
index 568e42a..bdd1023 100644
--- a/libs/util/file.cpp
+++ b/libs/util/file.cpp
@@ -75,7 +75,7 @@ namespace {
 		{
 			return is_regular_file(filePath);
 		}
-		catch(std::filesystem::filesystem_error& e)
+		catch(boostfs::filesystem_error& /*e*/)
 		{ }
 		return false;
 	}
-- 
2.43.0


From b5951c18b270b7b0af4a593a89d3cf1971a8fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:09 +0000
Subject: [PATCH 94/97] fix: release pipes and process of a child program that
 could not be started

---
 libs/util/popen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/util/popen.cpp b/libs/util/popen.cpp
index bb827e4..68c068a 100644
--- a/libs/util/popen.cpp
+++ b/libs/util/popen.cpp
@@ -46,6 +46,7 @@
 #	include <fcntl.h>
 #	include <unistd.h>
 #	include <signal.h>
+#	include <sys/wait.h>
 #endif // AQSIS_SYSTEM_WIN32
 
 #include <boost/scoped_array.hpp>
@@ -392,6 +393,12 @@ class CqPopenDevice::CqImpl
 				if(nRead > 0)
 				{
 					errBuf[nRead] = 0;
+					// The child is about to exit; clean up after it.
+					::close(parentRead);
+					::close(parentWrite);
+					::close(parentErrorRead);
+					while(::waitpid(pid, 0, 0) == -1 && errno == EINTR)
+						;
 					AQSIS_THROW_XQERROR(XqEnvironment, EqE_System, errBuf);
 				}
 				::close(parentErrorRead);
-- 
2.43.0


From 9424ce15aa546ff7faebf1cb4847a939b4746d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:09 +0000
Subject: [PATCH 95/97] fix: a child that fails to start must not run the
 cleanup of its parent

---
 libs/util/popen.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/util/popen.cpp b/libs/util/popen.cpp
index 68c068a..d1bd760 100644
--- a/libs/util/popen.cpp
+++ b/libs/util/popen.cpp
@@ -309,8 +309,9 @@ class CqPopenDevice::CqImpl
 			return true;
 		}
 
-		/** Call std::exit() from the child process, writing the error message
-		 * to the error pipe.
+		/** Exit from the child process, writing the error message to the error
+		 * pipe.  The cleanup which std::exit() would do belongs to the parent
+		 * process, so it must not happen here.
 		 */
 		static void errorExit(int errorPipeFd, const char* error)
 		{
@@ -318,7 +319,7 @@ class CqPopenDevice::CqImpl
 			errorStr += ": ";
 			errorStr += std::strerror(errno);
 			::write(errorPipeFd, errorStr.c_str(), errorStr.length());
-			std::exit(EXIT_FAILURE);
+			::_exit(EXIT_FAILURE);
 		}
 
 	public:
-- 
2.43.0


From 969c5596ff07d6fb73c765e656507141082ce947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:09 +0000
Subject: [PATCH 96/97] fix: child programs inherited the pipes of other child
 programs

---
 libs/util/popen.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/util/popen.cpp b/libs/util/popen.cpp
index d1bd760..3169060 100644
--- a/libs/util/popen.cpp
+++ b/libs/util/popen.cpp
@@ -362,6 +362,11 @@ class CqPopenDevice::CqImpl
 			const int childErrorWrite = errorPipe[1];
 			const int parentErrorRead = errorPipe[0];
 
+			// Don't let any other child process inherit the parent ends, or
+			// closing them here wouldn't close the pipes.
+			::fcntl(parentWrite, F_SETFD, FD_CLOEXEC);
+			::fcntl(parentRead, F_SETFD, FD_CLOEXEC);
+
 			// Ignore all broken-pipe signals; catching and using these to
 			// report would be difficult at best...
 			::signal(SIGPIPE, SIG_IGN);
-- 
2.43.0


From 2eba540857138ec5fe6dc5b861221d5aa2cd5984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:09 +0000
Subject: [PATCH 97/97] fix: a write to a child program interrupted by a signal
 lost the rest of the data

---
 libs/util/popen.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/libs/util/popen.cpp b/libs/util/popen.cpp
index 3169060..c8e0c6c 100644
--- a/libs/util/popen.cpp
+++ b/libs/util/popen.cpp
@@ -529,13 +529,19 @@ std::streamsize CqPopenDevice::write(const char_type* s, std::streamsize n)
 	return 0;
 #	else // AQSIS_SYSTEM_WIN32
 	assert(m_impl->pipeWriteFd() != -1);
-	std::streamsize nWrite = 0;
-	// Write to pipe, ignoring any interrupts due to signals.
-	while( (nWrite = ::write(m_impl->pipeWriteFd(), s, n)) == -1 && errno == EINTR );
-	if(nWrite < n)
-		// TODO: Reconsider which exception this should be.
-		throw std::ios_base::failure("Bad write to pipe");
-	return nWrite;
+	std::streamsize nWritten = 0;
+	// Write to pipe, ignoring any interrupts due to signals (which may come
+	// when part of the data has been written).
+	while(nWritten < n)
+	{
+		std::streamsize nWrite = ::write(m_impl->pipeWriteFd(), s + nWritten, n - nWritten);
+		if(nWrite >= 0)
+			nWritten += nWrite;
+		else if(errno != EINTR)
+			// TODO: Reconsider which exception this should be.
+			throw std::ios_base::failure("Bad write to pipe");
+	}
+	return nWritten;
 #	endif // !AQSIS_SYSTEM_WIN32
 }
 
-- 
2.43.0

