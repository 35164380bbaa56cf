From 9b62ddce7b5bd6509c786a3bc1177de5eb98e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:29 +0000
Subject: [PATCH 001/131] fix: keep parser actions alive while a value without
 document events finishes

Finishing a list or map whose parent was never told a document began popped
the child from the action stack first, freeing the object still running.
---
 src/VariantParsing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4bb32f0..e9fc98c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -121,13 +121,14 @@ namespace libvariant {
 		}
 
 		void Finish(ParserImpl *p) {
+			// Hold on to ourselves, our base may pop itself as well.
+			shared_ptr<ParserActions> self = p->PopAction();
 			if (base) {
 				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
 			} else {
 				state->result = result;
 			}
 			done = true;
-			p->PopAction();
 		}
 
 		int Level() {
-- 
2.43.0


From 9ad4a53b7e4f114bb1f4aee1ce7631dbb58f2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:48 +0000
Subject: [PATCH 002/131] fix: report JSON that is malformed before its first
 bracket

A character rejected before the first array or object was ignored, so text
such as 'x{}' was accepted as if the leading garbage were not there.
---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 9d385a8..2e48a8b 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -155,7 +155,7 @@ namespace libvariant {
 							else { status = S_ERROR; }
 						}
 					}
-				} else if (status == S_OK) { status = S_ERROR; }
+				} else { status = S_ERROR; }
 				++c;
 			}
 			input->Release(c - ptr);
-- 
2.43.0


From 733f880dc11987b99782edfa5063cf10f02f08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:51 +0000
Subject: [PATCH 003/131] fix: accept a zero with an exponent in JSON

0e5 and -0E1 are numbers by the JSON grammar and were rejected.
---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..9e8441d 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -264,7 +264,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*u3     U3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,U4,U4,U4,U4,U4,U4,U4,U4,__,__,__,__,__,__,U4,U4,__,__},
 /*u4     U4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,UC,UC,UC,UC,UC,UC,UC,UC,__,__,__,__,__,__,UC,UC,__,__},
 /*minus  MI*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,ZE,IT,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*int    IT*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,IT,IT,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From be647e39d6405ad8e88bc52fcf7df0b9a5d2c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:55 +0000
Subject: [PATCH 004/131] fix: reject JSON keywords cut short by a comment

[tru/**/] was read as [true]; likewise fals and nul.
---
 lib/json/JSON_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 9e8441d..3615533 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -272,14 +272,14 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
-/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*fa     F1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*fal    F2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F3,__,__,__,__,__,__,__,__,__},
 /*fals   F3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F4,__,__,__,__,__,__},
-/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*nu     N1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N2,__,__,__,__},
 /*nul    N2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N3,__,__,__,__,__,__,__,__,__},
-/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
+/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
 /*/      C1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,C2},
 /*/*     C2*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
 /**      C3*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,CE,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
-- 
2.43.0


From 0f6592cf911844d059e4dfc7e17a778dce14477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:59 +0000
Subject: [PATCH 005/131] fix: allow a comment right after a JSON number with
 an exponent

Comments were accepted after every other kind of number.
---
 lib/json/JSON_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 3615533..c8aa561 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -269,7 +269,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*ex     E2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
 /*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
@@ -283,7 +283,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*/      C1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,C2},
 /*/*     C2*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
 /**      C3*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,CE,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
-/*_.     FX*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
+/*_.     FX*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*\      D1*/ {__,__,__,__,__,__,__,__,__,D2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*\      D2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,U1,__,__,__,__},
 };
-- 
2.43.0


From f9de39a1ca38aec5ce71a43b791c714a3e5f4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:17 +0000
Subject: [PATCH 006/131] fix: read JSON integers that do not fit as floats

They were silently clamped to the largest or smallest integer.
---
 lib/json/JSON_parser.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index c8aa561..30caa19 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -58,6 +58,7 @@ SOFTWARE.
 
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <float.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -497,11 +498,21 @@ static int parse_parse_buffer(JSON_parser jc)
                     break;
                 case JSON_T_INTEGER:
                     arg = &value;
+                    errno = 0;
                     sscanf(jc->parse_buffer, JSON_PARSER_INTEGER_SSCANF_TOKEN, &value.vu.integer_value);
+                    if (errno == ERANGE) {
+                        jc->type = JSON_T_FLOAT;
+                        value.vu.float_value = strtod(jc->parse_buffer, NULL);
+                    }
                     break;
                 case JSON_T_UNSIGNED:
                     arg = &value;
+                    errno = 0;
                     sscanf(jc->parse_buffer, JSON_PARSER_UNSIGNED_SSCANF_TOKEN, &value.vu.unsigned_value);
+                    if (errno == ERANGE) {
+                        jc->type = JSON_T_FLOAT;
+                        value.vu.float_value = strtod(jc->parse_buffer, NULL);
+                    }
                     break;
                 case JSON_T_STRING:
                     arg = &value;
-- 
2.43.0


From 32f5bc72dd510515cbecf753ba5e465c66d114f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:22 +0000
Subject: [PATCH 007/131] fix: emit JSON numbers with a digit after the decimal
 point

Floats from 1e16 up to 1e17 came out as '10000000000000000.', which is not
a JSON number.
---
 src/JSONEmitter.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..baa10fd 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -132,7 +132,13 @@ namespace libvariant {
 		} else {
 			oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		}
-		EmitRaw(oss.str().c_str(), oss.str().length());
+		std::string text = oss.str();
+		// JSON requires a digit after the decimal point
+		std::string::size_type point = text.find('.');
+		if (point != std::string::npos && (point + 1 == text.length() || text[point + 1] == 'e')) {
+			text.insert(point + 1, "0");
+		}
+		EmitRaw(text.c_str(), text.length());
 	}
 
 	void JSONEmitterImpl::Emit(ConstBlobPtr b) {
-- 
2.43.0


From 192a4ef6d7cb338a26d89611713e4448e4eb0444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:27 +0000
Subject: [PATCH 008/131] fix: do not take a short read for the end of the
 input

Read() reports the end with 0.  A source that returned fewer bytes than
asked for was cut off there, and a read error after some data was ignored.
---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..5611884 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -68,7 +68,7 @@ namespace libvariant {
 		while (!eof && (num < len || num == 0)) {
 			unsigned to_read = buffer.size() - num - offset;
 			unsigned num_read = Read(&buffer[num + offset], to_read);
-			if (num_read < to_read) { eof = true; }
+			if (num_read == 0) { eof = true; }
 			num += num_read;
 		}
 		len = num;
-- 
2.43.0


From df43b0807525eb1d2b9e71d855c15dd20cd68a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:47 +0000
Subject: [PATCH 009/131] fix: skip empty buffers when base64 encoding

An empty buffer contributed a byte read past its end, so an empty blob or
one with an empty slab did not encode to its contents.
---
 src/Base64.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..7aef14d 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,12 +15,13 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { skip_empty(); }
 		iov_iterator &operator++() {
 			++offset;
 			if (offset >= iov[slab].iov_len) {
 				++slab;
 				offset = 0;
+				skip_empty();
 			}
 			return *this;
 		}
@@ -46,6 +47,10 @@ namespace libvariant {
 		}
 
 	private:
+		void skip_empty() {
+			while (slab < len && iov[slab].iov_len == 0) { ++slab; }
+		}
+
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
-- 
2.43.0


From 73cc10d645327ab1a9b77b2e19e6a8fddf904815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:50 +0000
Subject: [PATCH 010/131] fix: do not read past the base64 decoding table

The character '{' indexed one past its end.
---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 7aef14d..8ee6422 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -133,7 +133,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From 3e12162b4951eb11738416a97f65278e7d302740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:05 +0000
Subject: [PATCH 011/131] fix: a blob that is a prefix of another is not equal
 to it

Comparison stopped at the end of the shorter blob and reported equality.
---
 src/Blob.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Blob.cc b/src/Blob.cc
index 3e12d55..21d2e83 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -116,6 +116,10 @@ namespace libvariant {
 				++j;
 			}
 		}
+		// The common part is the same, so the shorter is less
+		unsigned our_length = GetTotalLength();
+		unsigned oth_length = other->GetTotalLength();
+		if (our_length != oth_length) { return our_length < oth_length ? -1 : 1; }
 		return 0;
 	}
 }
-- 
2.43.0


From 31805188ccb532d9082b14c977b6b7ecbaf9819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:25 +0000
Subject: [PATCH 012/131] fix: do not index the buffer list of a blob without
 buffers

---
 include/Variant/Blob.h | 4 ++--
 src/Blob.cc            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Variant/Blob.h b/include/Variant/Blob.h
index 11d7bf6..5e32c39 100644
--- a/include/Variant/Blob.h
+++ b/include/Variant/Blob.h
@@ -40,8 +40,8 @@ namespace libvariant {
 		void *GetPtr(unsigned i) { return iov[i].iov_base; }
 		const void *GetPtr(unsigned i) const { return iov[i].iov_base; }
 		unsigned GetLength(unsigned i) const { return iov[i].iov_len; }
-		struct iovec *GetIOVec() { return &iov[0]; }
-		const struct iovec *GetIOVec() const { return &iov[0]; }
+		struct iovec *GetIOVec() { return iov.empty() ? 0 : &iov[0]; }
+		const struct iovec *GetIOVec() const { return iov.empty() ? 0 : &iov[0]; }
 		unsigned GetNumBuffers() const { return iov.size(); }
 		unsigned GetTotalLength() const;
 
diff --git a/src/Blob.cc b/src/Blob.cc
index 21d2e83..c823296 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -86,7 +86,7 @@ namespace libvariant {
 	}
 
 	shared_ptr<Blob> Blob::Copy() const {
-		return CreateCopy(&iov[0], iov.size());
+		return CreateCopy(GetIOVec(), iov.size());
 	}
 
 	unsigned Blob::GetTotalLength() const {
-- 
2.43.0


From 7893ed10a1668d14f05e8c4ebd1e86aa1f39dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:21 +0000
Subject: [PATCH 013/131] fix: emit strings with embedded null characters
 completely in JSON and YAML

Emitter::Emit(const std::string&) handed a C string to the implementation, so
everything after the first null character was silently dropped.
---
 include/Variant/Emitter.h | 3 +++
 src/Emitter.cc            | 6 +++++-
 src/JSONEmitter.cc        | 6 +++++-
 src/JSONEmitter.h         | 1 +
 src/YAMLEmitter.cc        | 4 ++++
 src/YAMLEmitter.h         | 1 +
 6 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/Variant/Emitter.h b/include/Variant/Emitter.h
index adff352..c449bd8 100644
--- a/include/Variant/Emitter.h
+++ b/include/Variant/Emitter.h
@@ -51,6 +51,9 @@ namespace libvariant {
 		virtual void EmitTrue() = 0;
 		virtual void EmitFalse() = 0;
 		virtual void Emit(const char *v) = 0;
+		/// Emit a string that may contain null characters.
+		// The default implementation is for formats that cannot represent them.
+		virtual void Emit(const char *v, unsigned length);
 		virtual void Emit(intmax_t v) = 0;
 		virtual void Emit(uintmax_t v) = 0;
 		virtual void Emit(double v) = 0;
diff --git a/src/Emitter.cc b/src/Emitter.cc
index 691d0b3..acc63bc 100644
--- a/src/Emitter.cc
+++ b/src/Emitter.cc
@@ -35,6 +35,10 @@
 namespace libvariant {
 	EmitterImpl::~EmitterImpl() {}
 
+	void EmitterImpl::Emit(const char *v, unsigned length) {
+		Emit(v);
+	}
+
 	void EmitterImpl::SetParams(Variant params) {
 		if (params.IsMap()) {
 			for (Variant::MapIterator i(params.MapBegin()), e(params.MapEnd()); i != e; ++i) {
@@ -97,7 +101,7 @@ namespace libvariant {
 	}
 
 	Emitter &Emitter::Emit(const std::string &v) {
-		impl->Emit(v.c_str());
+		impl->Emit(v.c_str(), v.length());
 		return *this;
 	}
 
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index baa10fd..21df95c 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -103,8 +103,12 @@ namespace libvariant {
 	}
 
 	void JSONEmitterImpl::Emit(const char *v) {
+		Emit(v, strlen(v));
+	}
+
+	void JSONEmitterImpl::Emit(const char *v, unsigned length) {
 		CheckSeparator();
-		EmitString(v, strlen(v));
+		EmitString(v, length);
 	}
 
 	void JSONEmitterImpl::Emit(intmax_t v) {
diff --git a/src/JSONEmitter.h b/src/JSONEmitter.h
index f5a2fb1..4410bf7 100644
--- a/src/JSONEmitter.h
+++ b/src/JSONEmitter.h
@@ -71,6 +71,7 @@ namespace libvariant {
 		virtual void EmitTrue();
 		virtual void EmitFalse();
 		virtual void Emit(const char *v);
+		virtual void Emit(const char *v, unsigned length);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
 		virtual void Emit(double v);
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..f174070 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -306,6 +306,10 @@ namespace libvariant {
 		Emit(v, ANY_SCALAR_STYLE);
 	}
 
+	void YAMLEmitterImpl::Emit(const char *v, unsigned length) {
+		Emit(std::string(v, length), ANY_SCALAR_STYLE);
+	}
+
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
 		CheckClosed();
 		CheckInDocument();
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index a01250d..c0cec81 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -119,6 +119,7 @@ namespace libvariant {
 		virtual void EmitFalse();
 		void Emit(const std::string &v, ScalarStyle style);
 		virtual void Emit(const char *v);
+		virtual void Emit(const char *v, unsigned length);
 		void Emit(const char *v, ScalarStyle style);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
-- 
2.43.0


From 79134b5b296a0340b7bf325018d8bdd5dd79a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:50 +0000
Subject: [PATCH 014/131] fix: quote YAML strings that would be read back as
 another type

Strings such as "true", "123" or "~" were written as plain scalars and
came back as booleans, numbers or null.
---
 src/GuessScalar.cc | 20 ++++++++++++++++++++
 src/GuessScalar.h  |  2 ++
 src/YAMLEmitter.cc | 14 ++++++++++++--
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..647d7cf 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -116,4 +116,24 @@ namespace libvariant {
 		}
 	}
 
+	namespace {
+		class IsNotStringActions : public ParserActions {
+		public:
+			IsNotStringActions() : not_string(false) {}
+			virtual void Scalar(ParserImpl*, double, const char*, const char*) { not_string = true; }
+			virtual void Scalar(ParserImpl*, const char*, unsigned, const char*, const char*) {}
+			virtual void Scalar(ParserImpl*, bool, const char*, const char*) { not_string = true; }
+			virtual void Null(ParserImpl*, const char*, const char*) { not_string = true; }
+			virtual void Scalar(ParserImpl*, intmax_t, const char*, const char*) { not_string = true; }
+			virtual void Scalar(ParserImpl*, uintmax_t, const char*, const char*) { not_string = true; }
+			bool not_string;
+		};
+	}
+
+	bool GuessIsNotString(const char *value, unsigned length) {
+		IsNotStringActions actions;
+		GuessScalar(value, length, 0, 0, 0, &actions);
+		return actions.not_string;
+	}
+
 }
diff --git a/src/GuessScalar.h b/src/GuessScalar.h
index d610451..d301183 100644
--- a/src/GuessScalar.h
+++ b/src/GuessScalar.h
@@ -9,5 +9,7 @@
 namespace libvariant {
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action);
+	/// Return true if GuessScalar would take value for something other than a string
+	bool GuessIsNotString(const char *value, unsigned length);
 }
 #endif
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index f174070..30448a4 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,6 +26,7 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
@@ -303,11 +304,20 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		Emit(v, strlen(v));
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, unsigned length) {
-		Emit(std::string(v, length), ANY_SCALAR_STYLE);
+		CheckClosed();
+		CheckInDocument();
+		yaml_event_t event;
+		// Not allowed to be plain if the parser would take it for another type
+		int plain = GuessIsNotString(v, length) ? 0 : 1;
+		if (yaml_scalar_event_initialize(&event, 0, 0, (yaml_char_t*)v, length, plain, 1,
+					(yaml_scalar_style_t)ANY_SCALAR_STYLE) == 0) {
+			throw std::runtime_error("Unable to initialize scalar event.");
+		}
+		Emit(event);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From f8c5443af50192cb81b7f099c1544313ae690fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:39 +0000
Subject: [PATCH 015/131] fix: collect the text of an XML element before
 converting it

Whitespace-only strings were read as empty, text split into several nodes
produced several values, a scalar root element was rejected and an empty
data element could not be read back.
---
 src/XMLPLISTParser.cc | 100 ++++++++++++++++++------------------------
 src/XMLPLISTParser.h  |   5 ++-
 2 files changed, 45 insertions(+), 60 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..24b8b16 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,7 +99,9 @@ namespace libvariant {
 						loop = EndElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-						loop = ProcessText(TopAction());
+					case XML_READER_TYPE_WHITESPACE:
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
+						loop = ProcessText();
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
@@ -112,8 +114,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
-					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
@@ -139,7 +139,7 @@ namespace libvariant {
 		switch (nodetype) {
 		case NullNode:
 			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Null(this, 0, 0);
+			else { action->Null(this, 0, 0); }
 			return !empty_node;
 		case RootNode:
 			statestack.push_back(nodetype);
@@ -147,16 +147,16 @@ namespace libvariant {
 			return !empty_node;
 		case TrueNode:
 			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Scalar(this, true, 0, 0);
+			else { action->Scalar(this, true, 0, 0); }
 			return !empty_node;
 		case FalseNode:
 			if (!empty_node) { statestack.push_back(nodetype); }
-			action->Scalar(this, false, 0, 0);
+			else { action->Scalar(this, false, 0, 0); }
 			return !empty_node;
 		case IntegerNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty interger elements";
@@ -166,7 +166,7 @@ namespace libvariant {
 		case FloatNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty real elements";
@@ -176,7 +176,7 @@ namespace libvariant {
 		case StringNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty string elements";
@@ -186,7 +186,7 @@ namespace libvariant {
 		case BlobNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty data elements";
@@ -206,7 +206,7 @@ namespace libvariant {
 					throw std::runtime_error(errorstr);
 				}
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			}
 			return true;
 		case ListNode:
@@ -221,19 +221,27 @@ namespace libvariant {
 		}
 	}
 
-	bool XMLPLISTParserImpl::ProcessText(ParserActions *action) {
+	bool XMLPLISTParserImpl::ProcessText() {
 		switch (statestack.back()) {
-		case NullNode:
-		case RootNode:
-		case TrueNode:
-		case FalseNode:
-		case MapNode:
-		case ListNode:
+		case IntegerNode:
+		case FloatNode:
+		case StringNode:
+		case BlobNode:
+		case KeyNode:
+			// The text of an element may arrive in several pieces.
+			text += (const char*)xmlTextReaderConstValue(reader);
+			return true;
+		default:
 			return true;
+		}
+	}
+
+	void XMLPLISTParserImpl::EmitText(ParserActions *action, State_t nodetype) {
+		const char *value = text.c_str();
+		unsigned length = text.length();
+		switch (nodetype) {
 		case IntegerNode:
 			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
 				intmax_t val;
 				val = strtoll(value, 0, 0);
 				if (val == LLONG_MAX && errno == ERANGE) {
@@ -244,27 +252,12 @@ namespace libvariant {
 					action->Scalar(this, val, 0, 0);
 				}
 			}
-			return true;
+			break;
 		case FloatNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				double val = strtod(value, 0);
-				action->Scalar(this, val, 0, 0);
-			}
-			return true;
-		case StringNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
+			action->Scalar(this, strtod(value, 0), 0, 0);
+			break;
 		case BlobNode:
 			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				unsigned length = strlen(value);
 				void *data = 0;
 				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
 					err = true;
@@ -274,20 +267,11 @@ namespace libvariant {
 				unsigned len = Base64Decode(data, value, length);
 				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
 			}
-			return true;
-		case KeyNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
+			break;
 		default:
-			err = true;
-			errorstr = "Invalid libvariant XML PLIST parser state";
-			throw std::runtime_error(errorstr);
+			action->Scalar(this, value, length, 0, 0);
+			break;
 		}
-
 	}
 
 	bool XMLPLISTParserImpl::EndElement(ParserActions *action, State_t nodetype) {
@@ -299,27 +283,27 @@ namespace libvariant {
 		statestack.pop_back();
 		switch (nodetype) {
 		case NullNode:
+			action->Null(this, 0, 0);
+			return false;
 		case TrueNode:
+			action->Scalar(this, true, 0, 0);
+			return false;
 		case FalseNode:
+			action->Scalar(this, false, 0, 0);
 			return false;
 		case IntegerNode:
 		case FloatNode:
-			if (empty) {
+			if (text.empty()) {
 				err = true;
 				errorstr = "libvariant XML PLIST parser cannot have empty numeric nodes";
 				throw std::runtime_error(errorstr);
 			}
+			EmitText(action, nodetype);
 			return false;
 		case BlobNode:
-			if (empty) {
-				err = true;
-				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
-				throw std::runtime_error(errorstr);
-			}
-			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { action->Scalar(this, "", 0, 0, 0); }
+			EmitText(action, nodetype);
 			return false;
 		case RootNode:
 			action->EndDocument(this);
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..9df1812 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,7 +59,8 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
-		bool ProcessText(ParserActions *action);
+		bool ProcessText();
+		void EmitText(ParserActions *action, State_t nodetype);
 		bool EndElement(ParserActions *action, State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
@@ -72,7 +73,7 @@ namespace libvariant {
 		xmlTextReaderPtr reader;
 		shared_ptr<ParserInput> input;
 		bool closed;
-		bool empty;
+		std::string text;
 		bool err;
 		std::string errorstr;
 	};
-- 
2.43.0


From dd0b14929af5f8f2ff724bec7e788669a4edbad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:59 +0000
Subject: [PATCH 016/131] fix: read the last line of a bundle header that lacks
 a newline

---
 src/BundleHdrParser.cc | 17 +++++++++++------
 src/BundleHdrParser.h  |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 6030449..a8ba70b 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -20,11 +20,14 @@ namespace libvariant {
 		while (true) {
 			line = (const char *)input->GetPtr(len);
 			if (!line || line_len == len) {
-				line = 0;
+				// The last line need not end with a newline
+				if (line_len == 0) { line = 0; }
+				line_end_len = 0;
 				return;
 			}
 			for (;line_len < len; ++line_len) {
 				if (line[line_len] == '\n') {
+					line_end_len = 1;
 					return;
 				}
 			}
@@ -33,7 +36,7 @@ namespace libvariant {
 	}
 
 	void BundleHdrParserImpl::RetireLine() {
-		input->Release(line_len + 1);
+		input->Release(line_len + line_end_len);
 		line = 0;
 		line_len = 0;
 	}
@@ -47,7 +50,7 @@ namespace libvariant {
 		const char *e = line + line_len;
 		key.clear();
 		value.clear();
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace(*c)) { ++c; }
 		loop = true;
 		while (loop && c != e) {
 			switch (*c) {
@@ -65,12 +68,12 @@ namespace libvariant {
 			}
 		}
 		key.push_back('\0');
-		while (isspace(*c) && c != e) { ++c; }
-		if (*c != ':') {
+		while (c != e && isspace(*c)) { ++c; }
+		if (c == e || *c != ':') {
 			return false;
 		}
 		++c;
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace(*c)) { ++c; }
 		while (c != e && *c != '#') {
 			value.push_back(*c);
 			++c;
@@ -180,6 +183,7 @@ namespace libvariant {
 		state = START;
 		line = 0;
 		line_len = 0;
+		line_end_len = 0;
 		key.clear();
 		value.clear();
 		list.clear();
@@ -191,6 +195,7 @@ namespace libvariant {
 		state(START),
 		line(0),
 		line_len(0),
+		line_end_len(0),
 		line_num(0)
 	{}
 
diff --git a/src/BundleHdrParser.h b/src/BundleHdrParser.h
index f6bf331..4dd4bee 100644
--- a/src/BundleHdrParser.h
+++ b/src/BundleHdrParser.h
@@ -54,6 +54,7 @@ namespace libvariant {
 		State_t state;
 		const char *line;
 		unsigned line_len;
+		unsigned line_end_len;
 		std::vector<char> key;
 		std::vector<char> value;
 		std::deque<char*> list;
-- 
2.43.0


From 945e1f25c37f0653f83e80f897690976090dac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:03 +0000
Subject: [PATCH 017/131] fix: keep empty elements of lists in bundle headers

---
 src/BundleHdrParser.cc | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index a8ba70b..434a31b 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -128,27 +128,25 @@ namespace libvariant {
 				break;
 			case VALUE:
 				{
-					char *list_context = 0;
-					int i = 0;
-					bool bar_at_end = (value.size() > 1 && value[value.size()-2] == '|');
-					while (true) {
-						char *v = strtok_r((i == 0 ? &value[0] : 0), "|", &list_context);
-						if (!v) {
-							if (i <= 1 && !bar_at_end) {
-								state = KEY;
-								list.clear();
-								GuessScalar(&value[0], strlen(&value[0]), 0, 0, this, TopAction());
-								break;
-							} else {
-								state = LIST;
-								value.clear();
-								TopAction()->BeginList(this, -1, 0, 0);
-								break;
-							}
-						}
+					char *v = &value[0];
+					list.clear();
+					if (!strchr(v, '|')) {
+						state = KEY;
+						GuessScalar(v, strlen(v), 0, 0, this, TopAction());
+						break;
+					}
+					// Empty elements count, except after a bar at the end
+					for (char *bar; (bar = strchr(v, '|')) != 0; v = bar + 1) {
+						*bar = '\0';
+						list.push_back(v);
+					}
+					if (*v) {
 						list.push_back(v);
-						++i;
+					} else if (list.size() == 1 && !*list.front()) {
+						list.clear();
 					}
+					state = LIST;
+					TopAction()->BeginList(this, -1, 0, 0);
 				}
 				break;
 			case LIST:
-- 
2.43.0


From 1c6e47b0e9b7a008b2a1d57602e37ced79d55b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:07 +0000
Subject: [PATCH 018/131] fix: write non-finite numbers in bundle headers so
 that they read back

---
 src/BundleHdrEmitter.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..ac7053d 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -7,6 +7,7 @@
 #include <iomanip>
 #include <stdexcept>
 #include <limits>
+#include <cmath>
 
 #define BUNDLE_VERSION_KEY	"bundle.version"
 #define BUNDLE_VERSION		"0.0"
@@ -105,7 +106,13 @@ namespace libvariant {
 
 	void BundleHdrEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
-		oss << std::setprecision(numeric_precision) << std::showpoint << v;
+		if (v != v) {
+			oss << ".nan";
+		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
+			oss << (v < 0 ? "-" : "") << ".inf";
+		} else {
+			oss << std::setprecision(numeric_precision) << std::showpoint << v;
+		}
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
-- 
2.43.0


From 5e1585b77899d6e7edf9bc2f7bf93834316d7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:41 +0000
Subject: [PATCH 019/131] fix: compute base64 buffer sizes without overflow

---
 src/Base64.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 8ee6422..03dd1d1 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -114,7 +114,7 @@ namespace libvariant {
 
 	unsigned Base64EncodeSize(unsigned len, unsigned cpl) {
 		// Every 3 bytes turns into 4 bytes
-		unsigned res = (len*4)/3+4;
+		unsigned res = len/3*4 + 8;
 		// There are 2 extra bytes every CPL output bytes plus 2 extras at the end
 		if (cpl > 0) { res += 2*(res/cpl + 1); }
 		else { res+= 1; }
@@ -160,6 +160,6 @@ namespace libvariant {
 	}
 
 	unsigned Base64DecodeSize(unsigned len) {
-		return (len*3)/4 + 1;
+		return len/4*3 + 4;
 	}
 }
-- 
2.43.0


From d6fd3702d5c55b93883e0e60e9b94ef83ccfc24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:03 +0000
Subject: [PATCH 020/131] fix: write the payload length into a list without
 looping forever

---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..3599be7 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && len_i->AsUnsigned() >= index) {
+				while (len_i->AsUnsigned() > index) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From 8042a8ef0f4b6211f5b4fe95d3fcae22a1c0ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:08 +0000
Subject: [PATCH 021/131] fix: always write the null byte in front of a payload

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 3599be7..3828149 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -175,7 +175,7 @@ namespace libvariant {
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
 		unsigned written = 0;
-		while (written < num) {
+		while (written < buf.size()) {
 			written += out->Write(&buf[written], buf.size() - written);
 		}
 
-- 
2.43.0


From 47107f80585d8b6bbd9267954c33df083dbfd6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:12 +0000
Subject: [PATCH 022/131] fix: do not look for the end of a payload header past
 the input

---
 src/Payload.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 3828149..de76e64 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -215,9 +215,8 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len) {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
-
 			}
 			len = std::min(len, scanned_to);
 		}
-- 
2.43.0


From d23bc976fe996eba1fdbc35498706ceaf8bcd240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:06 +0000
Subject: [PATCH 023/131] fix: report errors when writing to files and streams

---
 src/EmitterOutput.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..9dccd97 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -41,11 +41,16 @@ namespace libvariant {
 	unsigned EmitterFileOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = fwrite(ptr, 1, len, file);
 		num_bytes += num;
+		if (num < len) {
+			throw std::runtime_error("Error writing to file.");
+		}
 		return num;
 	}
 
 	void EmitterFileOutput::Flush() {
-	   	fflush(file);
+		if (fflush(file) != 0) {
+			throw std::runtime_error("Error writing to file.");
+		}
    	}
 
 	EmitterFilenameOutput::EmitterFilenameOutput(const char *filename, const char *mode)
@@ -72,11 +77,16 @@ namespace libvariant {
 	unsigned EmitterStreambufOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = streambuf->sputn((const char*)ptr, len);
 		num_bytes += num;
+		if (num < len) {
+			throw std::runtime_error("Error writing to stream.");
+		}
 		return num;
 	}
 
 	void EmitterStreambufOutput::Flush() {
-	   	streambuf->pubsync();
+		if (streambuf->pubsync() == -1) {
+			throw std::runtime_error("Error writing to stream.");
+		}
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-- 
2.43.0


From 45e65af9d8a02ff09e7ce6970ff98c4b5e573325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:09 +0000
Subject: [PATCH 024/131] fix: bound writes to a memory output without a length
 pointer

---
 src/EmitterOutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 9dccd97..a4d2f7b 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -90,7 +90,7 @@ namespace libvariant {
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-		: data_ptr(ptr), length(len), out_length(out_len)
+		: data_ptr(ptr), length(len), out_length_dummy(0), out_length(out_len)
    	{
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
@@ -98,7 +98,7 @@ namespace libvariant {
 	}
 
 	unsigned EmitterMemoryOutput::Write(const void *ptr, unsigned len) {
-		if (*out_length + len > length) {
+		if (*out_length > length || len > length - *out_length) {
 			throw std::length_error("Emitter memory output buffer to small.");
 		}
 		memcpy(((char*)data_ptr + *out_length), ptr, len);
-- 
2.43.0


From 5b482ed854e057892b656895d61dd48d8faaeb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:35 +0000
Subject: [PATCH 025/131] fix: neither hang, repeat data nor terminate when an
 output fails

---
 include/Variant/EmitterOutput.h |  3 +++
 src/BundleHdrEmitter.cc         |  3 ++-
 src/BundleHdrEmitter.h          |  5 +----
 src/EmitterOutput.cc            | 12 ++++++++++++
 src/JSONEmitter.cc              | 22 ++++++++++------------
 src/Payload.cc                  | 13 ++-----------
 6 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/include/Variant/EmitterOutput.h b/include/Variant/EmitterOutput.h
index ffc5b1e..9376bbd 100644
--- a/include/Variant/EmitterOutput.h
+++ b/include/Variant/EmitterOutput.h
@@ -34,6 +34,9 @@ namespace libvariant {
 		virtual ~EmitterOutput();
 		/// Return the number of bytes written, or throw an exception
 		virtual unsigned Write(const void *ptr, unsigned len) = 0;
+		/// Write until everything is written. An output that does not
+		// take anything at all has failed.
+		void WriteAll(const void *ptr, unsigned len);
 		virtual void Flush() {}
 		virtual unsigned NumBytesWritten() const = 0;
 	};
diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index ac7053d..995fe8a 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -23,7 +23,8 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 
diff --git a/src/BundleHdrEmitter.h b/src/BundleHdrEmitter.h
index 04b1a2b..7ad0ae4 100644
--- a/src/BundleHdrEmitter.h
+++ b/src/BundleHdrEmitter.h
@@ -95,10 +95,7 @@ namespace libvariant {
 		}
 
 		void Write(const char *str, unsigned len) {
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(str + num_written, len - num_written);
-			}
+			output->WriteAll(str, len);
 		}
 
 		shared_ptr<EmitterOutput> output;
diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index a4d2f7b..03ee8c5 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -29,6 +29,18 @@ namespace libvariant {
 
 	EmitterOutput::~EmitterOutput() {}
 
+	void EmitterOutput::WriteAll(const void *ptr, unsigned len) {
+		const char *data = (const char*)ptr;
+		while (len > 0) {
+			unsigned num = Write(data, len);
+			if (num == 0 || num > len) {
+				throw std::runtime_error("Emitter output does not accept data.");
+			}
+			data += num;
+			len -= num;
+		}
+	}
+
 	EmitterFileOutput::EmitterFileOutput(FILE *f, bool c) : file(f), num_bytes(0), cls(c) {}
 
 	EmitterFileOutput::~EmitterFileOutput() {
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 21df95c..f302cae 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -52,7 +52,8 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
@@ -161,11 +162,10 @@ namespace libvariant {
 
 	void JSONEmitterImpl::Flush() {
 		if (buffer_len > 0) {
-			unsigned num_written = 0;
-			while (num_written < buffer_len) {
-				num_written += output->Write(&buffer[num_written], buffer_len - num_written);
-			}
+			// Do not write anything a second time if the output fails
+			unsigned len = buffer_len;
 			buffer_len = 0;
+			output->WriteAll(&buffer[0], len);
 		}
 		output->Flush();
 	}
@@ -237,9 +237,10 @@ namespace libvariant {
 		if (indent > BUFFER_THRESHOLD) {
 			Flush();
 			memset(&buffer[buffer_len], ' ', BUFFER_THRESHOLD);
-			unsigned num_written = 0;
-			while (num_written < indent) {
-				num_written += output->Write(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
+			while (indent > 0) {
+				unsigned num = min(indent, BUFFER_THRESHOLD);
+				output->WriteAll(&buffer[buffer_len], num);
+				indent -= num;
 			}
 		} else {
 			if (indent + buffer_len > MAX_BUFFER_LEN) {
@@ -291,10 +292,7 @@ namespace libvariant {
 	void JSONEmitterImpl::EmitRaw(const char *text, unsigned len) {
 		if (len > BUFFER_THRESHOLD) {
 			Flush();
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(&text[num_written], len - num_written);
-			}
+			output->WriteAll(text, len);
 		} else {
 			if (len + buffer_len > MAX_BUFFER_LEN) {
 				Flush();
diff --git a/src/Payload.cc b/src/Payload.cc
index de76e64..e8a3925 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -174,21 +174,12 @@ namespace libvariant {
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
-		unsigned written = 0;
-		while (written < buf.size()) {
-			written += out->Write(&buf[written], buf.size() - written);
-		}
+		out->WriteAll(&buf[0], buf.size());
 
 		if (payload_exists && !ignore_payload) {
 			unsigned num_slabs = blob->GetNumBuffers();
 			for (unsigned slab = 0; slab < num_slabs; ++slab) {
-				unsigned to_write = blob->GetLength(slab);
-				char *ptr = (char*)blob->GetPtr(slab);
-				while (to_write > 0) {
-					unsigned num = out->Write(ptr, to_write);
-					ptr += num;
-					to_write -= num;
-				}
+				out->WriteAll(blob->GetPtr(slab), blob->GetLength(slab));
 			}
 			out->Flush();
 		}
-- 
2.43.0


From 1f55888fd82fa8e7bf32c6fdd4d145fed053f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:14 +0000
Subject: [PATCH 026/131] fix: report YAML output errors without corrupting
 memory or leaking

---
 src/YAMLEmitter.cc | 36 ++++++++++++++++++++++++++++--------
 src/YAMLEmitter.h  |  3 +++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 30448a4..45dd95e 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -30,9 +30,25 @@
 
 namespace libvariant {
 
-	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
-		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
+	int YAMLEmitterImpl::WriteHandler(void *data, unsigned char *buffer, size_t size) {
+		YAMLEmitterImpl *impl = (YAMLEmitterImpl*)data;
+		// Once the output has failed nothing more may be written
+		if (!impl->write_error.empty()) { return 0; }
+		// The exception must not pass through the C library
+		try { impl->out->WriteAll((const void*)buffer, size); }
+		catch (const std::exception &e) {
+			impl->write_error = e.what();
+			if (impl->write_error.empty()) { impl->write_error = "YAMLEmitter write error"; }
+			return 0;
+		}
+		return 1;
+	}
+
+	void YAMLEmitterImpl::HandleError() {
+		if (!write_error.empty()) {
+			throw std::runtime_error(write_error);
+		}
+		throw std::runtime_error(emitter.problem ? emitter.problem : "YAMLEmitter error");
 	}
 
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
@@ -181,7 +197,7 @@ namespace libvariant {
 		if (yaml_emitter_initialize(&emitter) == 0) {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
-		yaml_emitter_set_output(&emitter, WriteHandler, out.get());
+		yaml_emitter_set_output(&emitter, &YAMLEmitterImpl::WriteHandler, this);
 		if (conf.indent > 0) {
 			yaml_emitter_set_indent(&emitter, conf.indent);
 		}
@@ -197,7 +213,10 @@ namespace libvariant {
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
 		try { Close(); }
-		catch (const std::runtime_error &) {}
+		catch (...) {}
+		if (!closed) {
+			yaml_emitter_delete(&emitter);
+		}
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
@@ -371,8 +390,9 @@ namespace libvariant {
 	void YAMLEmitterImpl::Flush() {
 		CheckClosed();
 		if (yaml_emitter_flush(&emitter) == 0) {
-			throw std::runtime_error(emitter.problem);
+			HandleError();
 		}
+		out->Flush();
 	}
 
 	void YAMLEmitterImpl::Close() {
@@ -415,9 +435,9 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
+		// The emitter takes the event, even when it fails
 		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
-			throw std::runtime_error(emitter.problem);
+			HandleError();
 		}
 	}
 
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index c0cec81..3de4a35 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -138,6 +138,8 @@ namespace libvariant {
 		virtual void SetParams(Variant params);
 
 	private:
+		static int WriteHandler(void *data, unsigned char *buffer, size_t size);
+		void HandleError();
 		void EmitStreamStart();
 		void Emit(yaml_event_t &event);
 
@@ -163,6 +165,7 @@ namespace libvariant {
 		yaml_emitter_t emitter;
 		bool closed;
 		bool in_document;
+		std::string write_error;
 		Config conf;
 	};
 
-- 
2.43.0


From 92bda454fb4a62903f9850c710ea9dfe8c91d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:18 +0000
Subject: [PATCH 027/131] fix: report XML output errors and write everything on
 short writes

---
 src/XMLPLISTEmitter.cc | 16 ++++++++++++++--
 src/XMLPLISTEmitter.h  |  9 +++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..8884536 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,12 +31,24 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		// Once the output has failed nothing more may be written
+		if (!impl->write_error.empty()) { return -1; }
+		// The exception must not pass through the C library
+		try { impl->output->WriteAll(buffer, len); }
+		catch (const std::exception &e) {
+			impl->SetWriteError(e);
+			return -1;
+		}
+		return len;
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		impl->output->Flush();
+		try { impl->output->Flush(); }
+		catch (const std::exception &e) {
+			impl->SetWriteError(e);
+			return -1;
+		}
 		return 0;
 	}
 
diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index 8e27943..c31e3b2 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -74,7 +74,15 @@ namespace libvariant {
 		static int DoWrite(void *ctx, const char *buffer, int len);
 		static int DoClose(void *ctx);
 	
+		void SetWriteError(const std::exception &e) {
+			write_error = e.what();
+			if (write_error.empty()) { write_error = "XMLPLISTEmitter write error"; }
+		}
+
 		void HandleError(const char *fnname) {
+			if (!write_error.empty()) {
+				throw std::runtime_error(write_error);
+			}
 			xmlErrorPtr error = xmlGetLastError();
 			if (error) {
 				throw std::runtime_error(error->message);
@@ -126,6 +134,7 @@ namespace libvariant {
 		unsigned indent;
 		unsigned precision;
 		bool closed;
+		std::string write_error;
 		std::deque<State> state;
 	};
 }
-- 
2.43.0


From ed9c1bffbb47cb3717f51dbaeceb770acd671ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:18 +0000
Subject: [PATCH 028/131] fix: flush the output when there is no payload

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index e8a3925..a050743 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -181,8 +181,8 @@ namespace libvariant {
 			for (unsigned slab = 0; slab < num_slabs; ++slab) {
 				out->WriteAll(blob->GetPtr(slab), blob->GetLength(slab));
 			}
-			out->Flush();
 		}
+		out->Flush();
 	}
 
 	class ProxyInput : public ParserInput {
-- 
2.43.0


From dddad4623bdf29202b03246fe37877710dbafccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:36 +0000
Subject: [PATCH 029/131] fix: do not end an XML document twice when the flush
 fails

---
 src/XMLPLISTEmitter.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 8884536..ff60805 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -191,8 +191,12 @@ namespace libvariant {
 			if (xmlTextWriterEndDocument(writer) < 0) {
 				HandleError("xmlTextWriterEndDocument");
 			}
-			Flush();
+			// The document has ended, even if the flush fails
 			closed = true;
+			if (xmlTextWriterFlush(writer) < 0) {
+				HandleError("xmlTextWriterFlush");
+			}
+			output->Flush();
 		}
 	}
 
-- 
2.43.0


From 4bdb607a4e350f7635200ec7e96d48dc5395316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:17 +0000
Subject: [PATCH 030/131] fix: never drop the payload length because of what
 its path leads through

---
 src/Payload.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Payload.cc b/src/Payload.cc
index a050743..5b04777 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -36,6 +36,17 @@ namespace libvariant {
 			return;
 		}
 
+		if (on_len_path && v.IsNull()) {
+			Variant tmp;
+			Path newpath(len_i, state.len_end);
+			tmp.SetPath(newpath, state.payload_len);
+			state.e << tmp;
+			return;
+		}
+		if (on_len_path && !v.IsMap() && !v.IsList() && state.payload_len > 0) {
+			throw std::runtime_error("libvariant: The payload length path leads through a value that is not a map or list.");
+		}
+
 		bool output_len = false;
 		unsigned index = 0;
 		unsigned length = 0;
-- 
2.43.0


From 31d5a2aa26fdd44e714fb3c45a3e1bf1d0a055a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:46:23 +0000
Subject: [PATCH 031/131] fix: write the end of an XML header before the
 payload, not after it

---
 src/Payload.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 5b04777..e072b40 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -179,7 +179,8 @@ namespace libvariant {
 		emitter.BeginDocument();
 		PayloadEmit(v, lpath.begin(), true, dpath.begin(), true, state);
 		emitter.EndDocument();
-		emitter.Flush();
+		// Nothing of the header may follow once the payload is written
+		emitter.Close();
 
 		// plus 1 because we want a payload to be aligned when adding 1 null byte
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
-- 
2.43.0


From 170fa02522be805e0256c9fb3ca4c5307c4a27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:44 +0000
Subject: [PATCH 032/131] fix: do not read past the input when guessing the
 format of blank input

---
 src/GuessFormat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..48831da 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,7 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From e2bf9947e4896e821529cb86d0d64e5da09bb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:25 +0000
Subject: [PATCH 033/131] fix: keep exceptions of an input from passing through
 the XML and YAML libraries

---
 src/XMLPLISTParser.cc | 31 ++++++++++++++++++++++---------
 src/XMLPLISTParser.h  |  1 +
 src/YAMLParser.cc     | 33 +++++++++++++++++++++++----------
 src/YAMLParser.h      |  1 +
 4 files changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 24b8b16..264d4ce 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -119,7 +119,7 @@ namespace libvariant {
 					default:
 						break;
 					}
-				} else if (ret == 0) {
+				} else if (ret == 0 && read_error.empty()) {
 					if (statestack.back() != EndState) {
 						err = true;
 						errorstr = "libvariant XML PLIST parser in inconsistent state";
@@ -331,7 +331,10 @@ namespace libvariant {
 	void XMLPLISTParserImpl::HandleError(const char *fnname) {
 		xmlErrorPtr error = xmlGetLastError();
 		err = true;
-		if (error) {
+		if (!read_error.empty()) {
+			errorstr = read_error;
+			throw std::runtime_error(errorstr);
+		} else if (error) {
 			errorstr = error->message;
 			throw std::runtime_error(error->message);
 		} else {
@@ -342,13 +345,22 @@ namespace libvariant {
 
 	int XMLPLISTParserImpl::do_read(void *ctx, char *buffer, int len) {
 		XMLPLISTParserImpl *impl = (XMLPLISTParserImpl*)ctx;
-		unsigned l = len;
-		const void *ptr = impl->input->GetPtr(l);
-		if (!ptr) { return 0; }
-		l = std::min<unsigned>(len, l);
-		memcpy(buffer, ptr, l);
-		impl->input->Release(l);
-		return l;
+		if (!impl->read_error.empty()) { return -1; }
+		// The exception must not pass through the C library
+		try {
+			unsigned l = len;
+			const void *ptr = impl->input->GetPtr(l);
+			if (!ptr) { return 0; }
+			l = std::min<unsigned>(len, l);
+			memcpy(buffer, ptr, l);
+			impl->input->Release(l);
+			return l;
+		} catch (const std::exception &e) {
+			impl->read_error = *e.what() ? e.what() : "read error";
+		} catch (...) {
+			impl->read_error = "read error";
+		}
+		return -1;
 	}
 
 	int XMLPLISTParserImpl::do_close(void *ctx) {
@@ -394,6 +406,7 @@ namespace libvariant {
 		Close();
 		xmlFreeTextReader(reader);
 		reader = 0;
+		read_error.clear();
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
 		if (!reader) {
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 9df1812..7ea8a3a 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -76,6 +76,7 @@ namespace libvariant {
 		std::string text;
 		bool err;
 		std::string errorstr;
+		std::string read_error;
 	};
 }
 #endif
diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 73a03d7..92bd037 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -31,16 +31,24 @@ namespace libvariant {
 
 	int YAMLParserImpl::ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein) {
 		YAMLParserImpl *impl = (YAMLParserImpl*)data;
-		unsigned len = size;
-		const void *ptr = impl->input->GetPtr(len);
-		if (!ptr) {
-			*sizein = 0;
-		   	return 1;
-	   	}
-		*sizein = std::min<unsigned>(size, len);
-		memcpy(buffer, ptr, *sizein);
-		impl->input->Release(*sizein);
-		return 1;
+		// The exception must not pass through the C library
+		try {
+			unsigned len = size;
+			const void *ptr = impl->input->GetPtr(len);
+			if (!ptr) {
+				*sizein = 0;
+				return 1;
+			}
+			*sizein = std::min<unsigned>(size, len);
+			memcpy(buffer, ptr, *sizein);
+			impl->input->Release(*sizein);
+			return 1;
+		} catch (const std::exception &e) {
+			impl->read_error = *e.what() ? e.what() : "read error";
+		} catch (...) {
+			impl->read_error = "read error";
+		}
+		return 0;
 	}
 
 	YAMLParserImpl::YAMLParserImpl(shared_ptr<ParserInput> in)
@@ -93,6 +101,10 @@ namespace libvariant {
 			yaml_event_t event;
 			if (yaml_parser_parse(&parser, &event) == 0) {
 				err = true;
+				if (!read_error.empty()) {
+					errorstr = read_error;
+					throw std::runtime_error(errorstr);
+				}
 				std::ostringstream oss;
 				oss << "Error parsing YAML: " << parser.problem << " "
 					<< (parser.context ? parser.context : "<NULL context>")
@@ -187,6 +199,7 @@ namespace libvariant {
 	void YAMLParserImpl::Reset() {
 		eof = false;
 		err = false;
+		read_error.clear();
 		yaml_parser_delete(&parser);
 		yaml_parser_initialize(&parser);
 		yaml_parser_set_input(&parser, &ParserReadHandler, this);
diff --git a/src/YAMLParser.h b/src/YAMLParser.h
index a1d8f48..1622c06 100644
--- a/src/YAMLParser.h
+++ b/src/YAMLParser.h
@@ -54,6 +54,7 @@ namespace libvariant {
 		bool eof;
 		bool err;
 		std::string errorstr;
+		std::string read_error;
 	};
 
 }
-- 
2.43.0


From ea72136ce484dadb4b5bc8e470cbc35b53aeb515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:38 +0000
Subject: [PATCH 034/131] fix: refuse input nested so deeply that destroying
 the value exhausts the stack

---
 src/VariantParsing.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index e9fc98c..6f741ba 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -42,10 +42,14 @@ namespace libvariant {
 
 	typedef std::map<std::string, Variant> AnchorMap;
 
+	// Values are destroyed, copied and emitted recursively, deeper nesting
+	// could exhaust the stack.
+	static const unsigned MAX_DEPTH = 5000;
+
 	class ParserState {
 	public:
 
-		ParserState()
+		ParserState() : depth(0)
 		{}
 
 		void Anchor(const char *anchor, Variant v) {
@@ -56,8 +60,16 @@ namespace libvariant {
 			return anchors.at(anchor);
 		}
 
+		void Enter() {
+			if (depth >= MAX_DEPTH) { throw std::runtime_error("Parser: nested too deeply"); }
+			++depth;
+		}
+
+		void Leave() { --depth; }
+
 		AnchorMap anchors;
 		Variant result;
+		unsigned depth;
 	};
 
 	class VariantBaseParserActions : public ParserActions {
@@ -124,6 +136,7 @@ namespace libvariant {
 			// Hold on to ourselves, our base may pop itself as well.
 			shared_ptr<ParserActions> self = p->PopAction();
 			if (base) {
+				state->Leave();
 				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
 			} else {
 				state->result = result;
@@ -174,6 +187,7 @@ namespace libvariant {
 
 	void VariantBaseParserActions::BeginMap(ParserImpl *p, int length, const char *anchor, const char *tag) {
 		DBTRACE("BeginMap(" << ANCHOR << ", " << TAG << ")");
+		state->Enter();
 		shared_ptr<VariantMapParserActions> actions(new VariantMapParserActions(state, this));
 		if (anchor) { actions->anchor = anchor; }
 		p->PushAction(actions);
@@ -201,6 +215,7 @@ namespace libvariant {
 
 	void VariantBaseParserActions::BeginList(ParserImpl *p, int length, const char *anchor, const char *tag) {
 		DBTRACE("BeginList(" << ANCHOR << ", " << TAG << ")");
+		state->Enter();
 		shared_ptr<VariantListParserActions> actions(new VariantListParserActions(state, this));
 		if (anchor) { actions->anchor = anchor; }
 		p->PushAction(actions);
-- 
2.43.0


From 3054fdf512488a5bfca5a893496fb84254ae839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:57 +0000
Subject: [PATCH 035/131] fix: leave no parser actions behind when parsing a
 value fails

---
 src/VariantParsing.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 6f741ba..ba30b9c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -135,13 +135,13 @@ namespace libvariant {
 		void Finish(ParserImpl *p) {
 			// Hold on to ourselves, our base may pop itself as well.
 			shared_ptr<ParserActions> self = p->PopAction();
+			done = true;
 			if (base) {
 				state->Leave();
 				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
 			} else {
 				state->result = result;
 			}
-			done = true;
 		}
 
 		int Level() {
@@ -225,7 +225,14 @@ namespace libvariant {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
-		while (p.Run() == 0 && !actions->done);
+		try {
+			while (p.Run() == 0 && !actions->done);
+		} catch (...) {
+			// Leave no actions behind, they refer to the state
+			if (!actions->done) { while (p.PopAction() != actions); }
+			throw;
+		}
+		if (!actions->done) { while (p.PopAction() != actions); }
 		return state.result;
 	}
 
-- 
2.43.0


From 6282d01bfdb83ee4e7ad2720381f74203de4ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:59 +0000
Subject: [PATCH 036/131] fix: do not loop forever when a YAML parser is used
 after an error

---
 src/YAMLParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 92bd037..e1f5236 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -99,6 +99,10 @@ namespace libvariant {
 		bool loop = true;
 		while (loop && !eof && !action_stack.empty()) {
 			yaml_event_t event;
+			// After an error there are no more events
+			if (parser.error != YAML_NO_ERROR) {
+				throw std::runtime_error(errorstr);
+			}
 			if (yaml_parser_parse(&parser, &event) == 0) {
 				err = true;
 				if (!read_error.empty()) {
-- 
2.43.0


From 716be61f8471ffbb7de272f45c47f13f5e75bc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:01 +0000
Subject: [PATCH 037/131] fix: report an XML parser as done after its document,
 clear its state on reset

---
 src/XMLPLISTParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 264d4ce..6d7277d 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -387,7 +387,7 @@ namespace libvariant {
 	}
 
 	bool XMLPLISTParserImpl::Done() const {
-		return closed;
+		return closed || statestack.back() == EndState;
 	}
 
 	bool XMLPLISTParserImpl::Error() const {
@@ -412,6 +412,7 @@ namespace libvariant {
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
+		statestack.clear();
 		statestack.push_back(StartState);
 		closed = false;
 		err = false;
-- 
2.43.0


From 337fec7e6645b5e3dca229d2cf205abad80f782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:22 +0000
Subject: [PATCH 038/131] fix: keep a list unchanged when the largest index is
 used on it

---
 src/Variant.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..620d962 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -26,6 +26,7 @@
 #include <string.h>
 #include <math.h>
 #include <assert.h>
+#include <limits.h>
 #include <algorithm>
 
 template<typename T>
@@ -247,6 +248,13 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e);
 
+		// A list can never be long enough to have the last possible index
+		static inline void CheckIndex(unsigned i) {
+			if (i == UINT_MAX) {
+				throw std::out_of_range("Variant::List index out of range.");
+			}
+		}
+
 		//--------------------
 		// VTable 
 		//--------------------
@@ -614,6 +622,7 @@ namespace libvariant {
 
 		VariantRef Null::GetRefIndex(Data *that, unsigned i, Variant *def) const {
 			if (def) {
+				CheckIndex(i);
 				ListInit(that, Variant::List());
 				return that->vtable->GetRefIndex(that, i, def);
 			}
@@ -631,6 +640,7 @@ namespace libvariant {
 		}
 
 		void Null::SetIndex(Data *that, unsigned i, const Data *other) const {
+			CheckIndex(i);
 			ListInit(that, Variant::List());
 			that->vtable->SetIndex(that, i, other);
 		}
@@ -1160,7 +1170,7 @@ namespace libvariant {
 		void List::EraseIndex(Data *that, unsigned i) const
 		{
 			unsigned size = that->l->list.size();
-			if (i + 1 < size) {
+			if (i < size && i + 1 < size) {
 				that->l->list.at(i).Assign(Variant::NullType);
 			} else if (i < size) {
 				that->l->list.pop_back();
@@ -1171,6 +1181,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
+				CheckIndex(i);
 				that->l->list.resize(i + 1);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
@@ -1201,6 +1212,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
+				CheckIndex(i);
 				that->l->list.resize(i + 1);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
-- 
2.43.0


From fef34c82ef46f132ea049b37ec45f3718966dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:16 +0000
Subject: [PATCH 039/131] fix: allow a value to be assigned a list or map that
 it holds

---
 include/Variant/Variant.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Variant/Variant.h b/include/Variant/Variant.h
index a01d238..68a038a 100644
--- a/include/Variant/Variant.h
+++ b/include/Variant/Variant.h
@@ -393,14 +393,18 @@ namespace libvariant {
 
 		template<typename T>
 		void Assign(const std::vector<T> &v) {
+			// v may be part of what is about to be replaced
+			List tmp(v.begin(), v.end());
 			Assign(VariantDefines::ListType);
-			AsList().assign(v.begin(), v.end());
+			AsList().swap(tmp);
 		}
 
 		template<typename T>
 		void Assign(const std::map<std::string, T> &v) {
+			// v may be part of what is about to be replaced
+			Map tmp(v.begin(), v.end());
 			Assign(VariantDefines::MapType);
-			AsMap().insert(v.begin(), v.end());
+			AsMap().swap(tmp);
 		}
 
 	protected:
-- 
2.43.0


From c1cf80d7dfddc67e182d353a2704c5803f5aa034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:24 +0000
Subject: [PATCH 040/131] fix: clear a string without clearing its copies

---
 src/Variant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 620d962..93a8f84 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1074,7 +1074,8 @@ namespace libvariant {
 
 		bool String::Empty(const Data *that) const { return that->s->empty(); }
 
-		void String::Clear(Data *that) const { return that->s->clear(); }
+		// The text may be shared with other values, which must keep it
+		void String::Clear(Data *that) const { StringInit(that, ""); }
 
 		int String::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 453db8f359442e7d37ea6fa56177bfa0a71c9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:30 +0000
Subject: [PATCH 041/131] fix: assign an element to a new place in the same
 list without using freed memory

---
 src/Variant.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 93a8f84..42d875c 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -259,8 +259,13 @@ namespace libvariant {
 		// VTable 
 		//--------------------
 
-		void VTable::Assign(const Data *that, Data *other) const
-		{ that->vtable->Copy(that, VTable::GetData(other->vtable->Resolve(other))); }
+		void VTable::Assign(const Data *that, Data *other) const {
+			// Resolving other may create an element and thereby move that
+			Variant tmp;
+			Data *value = VTable::GetData(&tmp);
+			that->vtable->Copy(that, value);
+			value->vtable->Copy(value, VTable::GetData(other->vtable->Resolve(other)));
+		}
 
 		void VTable::MakeRef(const Data *that, Data *ref) const {
 			RefInit(ref, that);
-- 
2.43.0


From c467287ffd47d15d4f3e2497fe902e25d227fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:16 +0000
Subject: [PATCH 042/131] fix: allow a reference to a missing element to be
 re-aimed at itself

---
 src/Variant.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 42d875c..22e6e42 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1951,10 +1951,12 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			// The path may belong to that, so copy it before destroying that
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
-			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			that->ref_data = ref_data;
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From fd31ca6dde289a82b1bde4970f305a293f367461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:47 +0000
Subject: [PATCH 043/131] fix: refuse path indices that are not numbers, too
 large or not terminated

---
 src/Path.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Path.cc b/src/Path.cc
index beceffe..63874fe 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -21,8 +21,8 @@ namespace libvariant {
 			} else if (index) {
 				if (*c == ']') {
 					std::istringstream iss(frag);
-					unsigned long long i = 0;
-					if (!(iss >> i)) {
+					unsigned i = 0;
+					if (frag.find_first_not_of("0123456789") != std::string::npos || !(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
 					}
 					parsed_path.push_back(i);
@@ -69,6 +69,9 @@ namespace libvariant {
 			}
 			++c;
 		}
+		if (index) {
+			throw std::runtime_error("Error parsing Variant path: \"[" + frag + "\" is not terminated.");
+		}
 		if (!frag.empty()) { parsed_path.push_back(frag); }
 	}
 
-- 
2.43.0


From 23c803ee75fb8a7ef2be41a28f41be1eb344b1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:00 +0000
Subject: [PATCH 044/131] fix: honour an escape at the start of a path

---
 src/Path.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Path.cc b/src/Path.cc
index 63874fe..a9e344e 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -60,6 +60,11 @@ namespace libvariant {
 					frag.clear();
 					index = true;
 					break;
+				case '\\':
+					frag.clear();
+					key = true;
+					escape = true;
+					break;
 				default:
 					frag.clear();
 					key = true;
-- 
2.43.0


From 36ce7eb0c08f6c30c516031304e0248478e7194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:27 +0000
Subject: [PATCH 045/131] fix: erase only empty lists and maps along an erased
 path

---
 src/Variant.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 22e6e42..f7522ed 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -486,7 +486,11 @@ namespace libvariant {
 			if (!ref) { return; }
 			Data *ref_data = VTable::GetData(ref);
 			ref_data->vtable->ErasePath(ref_data, b + 1, e, remove_empty);
-			if (remove_empty && ref_data->vtable->Empty(ref_data)) {
+			VariantDefines::Type_t type = ref_data->vtable->GetType(ref_data);
+			if (remove_empty
+				&& (type == VariantDefines::ListType || type == VariantDefines::MapType)
+				&& ref_data->vtable->Empty(ref_data))
+			{
 				ErasePathElem(that, *b);
 			}
 		}
-- 
2.43.0


From 7b5fcb90ff9620d839721c5e128e5e12322fd6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:35 +0000
Subject: [PATCH 046/131] fix: order false before true

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index f7522ed..a9349b4 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -742,7 +742,7 @@ namespace libvariant {
 		int Bool::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
 				other = VTable::GetData(other->vtable->ResolveConst(other));
-				return (that->b == other->b ? 0 : 1);
+				return (that->b == other->b ? 0 : (that->b ? 1 : -1));
 			}
 			return 1;
 		}
-- 
2.43.0


From 79a5038f1cc9ad1e43eb7296bf2f3d7ba14b52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:38 +0000
Subject: [PATCH 047/131] fix: do not report NaN as equal to other numbers

---
 src/Variant.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index a9349b4..7ddcbf4 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -773,8 +773,8 @@ namespace libvariant {
 				long double us = that->vtable->AsLongDouble(that);
 				long double o = other->vtable->AsLongDouble(other);
 				if (us < o) { return -1; }
-				else if (us > o) { return 1; }
-				else { return 0; }
+				else if (us == o || (us != us && o != o)) { return 0; } // NaN equals only NaN
+				else { return 1; }
 			}
 			return 1;
 		}
-- 
2.43.0


From 62990e79d8f206d9a88d37ab9c5003b8be55f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:05 +0000
Subject: [PATCH 048/131] fix: make a default blob value an empty blob instead
 of a null pointer

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 7ddcbf4..4684d2a 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1995,7 +1995,7 @@ namespace libvariant {
 				MapInit(that, Variant::Map());
 				break;
 			case VariantDefines::BlobType:
-				BlobInit(that, BlobPtr());
+				BlobInit(that, libvariant::Blob::CreateCopy("", 0));
 				break;
 			}
 		}
-- 
2.43.0


From 1d39b7f41c8f24cf3dec53bfa93cddb97f8d2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:17 +0000
Subject: [PATCH 049/131] fix: raise an error for integer division by zero and
 overflow

---
 src/Variant.cc | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 4684d2a..cc45153 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -28,11 +28,41 @@
 #include <assert.h>
 #include <limits.h>
 #include <algorithm>
+#include <limits>
+
+// Integer division by zero and of the lowest integer by -1 are fatal, so
+// they must not reach the operators.
+static inline void CheckDivision(intmax_t lhs, intmax_t rhs) {
+	if (rhs == 0) { throw std::domain_error("Variant: integer division by zero."); }
+	if (rhs == -1 && lhs == std::numeric_limits<intmax_t>::min()) { throw std::overflow_error("Variant: integer division overflow."); }
+}
+
+static inline void CheckDivision(uintmax_t, uintmax_t rhs) {
+	if (rhs == 0) { throw std::domain_error("Variant: integer division by zero."); }
+}
+
+static inline void CheckDivision(long double, long double) {}
+
+template<typename T>
+class my_divides {
+public:
+	T operator()(const T &lhs, const T &rhs) { CheckDivision(lhs, rhs); return lhs / rhs; }
+};
 
 template<typename T>
 class my_modulus {
 public:
-	T operator()(const T &lhs, const T &rhs) { return lhs % rhs; }
+	T operator()(const T &lhs, const T &rhs) { CheckDivision(lhs, rhs); return lhs % rhs; }
+};
+
+template<>
+class my_modulus<intmax_t> {
+public:
+	intmax_t operator()(const intmax_t &lhs, const intmax_t &rhs) {
+		if (rhs == -1) { return 0; }
+		CheckDivision(lhs, rhs);
+		return lhs % rhs;
+	}
 };
 
 template<>
@@ -820,7 +850,7 @@ namespace libvariant {
 		{ NumericOperation<std::multiplies>(that, other); }
 
 		void Numeric::Div(Data *that, const Data *other) const
-		{ NumericOperation<std::divides>(that, other); }
+		{ NumericOperation<my_divides>(that, other); }
 
 		void Numeric::Rem(Data *that, const Data *other) const
 		{ NumericOperation<my_modulus>(that, other); }
-- 
2.43.0


From 12037aa8f25847372c0bac4eb0aa29d0bb185200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:48 +0000
Subject: [PATCH 050/131] fix: refuse invalid escapes in JSON pointers

---
 src/Extensions.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..f4efc08 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -286,17 +286,14 @@ namespace libvariant {
 			switch (*c) {
 			case '~':
 				++c;
-				if (c != e) {
-					if (*c == '0') {
-						ret.append("~");
-					} else if (*c == '1') {
-						ret.append("/");
-					} else {
-						ret.append("~");
-						ret.append(c, 1);
-					}
-					++c;
+				if (c != e && *c == '0') {
+					ret.append("~");
+				} else if (c != e && *c == '1') {
+					ret.append("/");
+				} else {
+					throw std::runtime_error("Invalid escape in JSON Pointer");
 				}
+				++c;
 				break;
 			default:
 				ret.append(c, 1);
-- 
2.43.0


From e1ef485e2fa36aa8d4e8907af00de680a133d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:54 +0000
Subject: [PATCH 051/131] fix: check array indices in JSON pointers

---
 src/Extensions.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index f4efc08..4d9ec5d 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -25,7 +25,7 @@
 #include <Variant/Extensions.h>
 #include <Variant/Path.h>
 #include <stdlib.h>
-#include <ctype.h>
+#include <errno.h>
 #include <set>
 
 using namespace std;
@@ -327,12 +327,12 @@ namespace libvariant {
 	};
 
 	static bool IsIndex(const std::string &str, uintmax_t &index) {
-		const char *b = str.c_str();
-		char *e = 0;
-		unsigned long long v = strtoull(b, &e, 10);
-		if (e == b) { return false; }
-		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
-		if (e == 0 || *e != '\0') { return false; }
+		// RFC 6901: 0, or digits without a leading zero
+		if (str.empty() || str.find_first_not_of("0123456789") != std::string::npos) { return false; }
+		if (str.size() > 1 && str[0] == '0') { return false; }
+		errno = 0;
+		unsigned long long v = strtoull(str.c_str(), 0, 10);
+		if (errno == ERANGE) { return false; }
 		index = v;
 		return true;
 	}
@@ -428,6 +428,9 @@ namespace libvariant {
 			if (!IsIndex(component, index)) {
 				throw std::runtime_error("Attempting to index an array with a string");
 			}
+			if (index > v.Size() || (index == v.Size() && !(is_last && op.op == OP_ADD))) {
+				throw std::runtime_error("Attempting to reference past the end of an array");
+			}
 			op.path.push_back(index);
 			if (is_last) {
 				switch (op.op) {
-- 
2.43.0


From b76652b13692bd2dfb55a9e017e51c6b8fe3b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:00 +0000
Subject: [PATCH 052/131] fix: remove array elements by JSON pointer

---
 src/Extensions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 4d9ec5d..5c37dba 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -443,8 +443,8 @@ namespace libvariant {
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(index);
+					op.value = v.At(index);
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
-- 
2.43.0


From 3401b36607b4a642c2b0f279b58f3fd677f41230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:23 +0000
Subject: [PATCH 053/131] fix: put a value back in place when moving it by JSON
 pointer fails

---
 src/Extensions.cc | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 5c37dba..05ae024 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -515,9 +515,33 @@ namespace libvariant {
 		}
 	}
 
+	// Put back a value that was removed from path
+	static void Reinsert(VariantRef v, Path path, const Variant &value) {
+		if (path.empty()) {
+			v = value;
+			return;
+		}
+		PathElement elem = path.back();
+		path.pop_back();
+		VariantRef r = v.AtPath(path);
+		if (r.IsList()) {
+			r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), value);
+		} else {
+			r.Set(elem.AsString(), value);
+		}
+	}
+
+	// RFC 6902: a value cannot be moved into one of its children
+	static void CheckMove(const std::string &src, const std::string &dst) {
+		if (dst.size() > src.size() && dst[src.size()] == '/' && dst.compare(0, src.size(), src) == 0) {
+			throw std::runtime_error("Attempting to move a value into itself");
+		}
+	}
+
 	void JSONPointerMove(const std::string &src, const std::string &dst, VariantRef v) {
 		Operation_t op(OP_REMOVE, src);
 		try {
+			CheckMove(src, dst);
 			JSONPointerOp(op.pointer, v, op);
 			Variant data = op.value;
 			Path path = op.path;
@@ -525,9 +549,9 @@ namespace libvariant {
 				op = Operation_t(OP_ADD, dst);
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
+			} catch (const std::exception &) {
+				Reinsert(v, path, data);
+				throw;
 			}
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
@@ -596,21 +620,7 @@ namespace libvariant {
 			const Patch_t &p = undo->back();
 			switch (p.op) {
 			case OP_ADD:
-				{
-					Path path = p.path;
-					if (path.size() > 0) {
-						PathElement elem = path.back();
-						path.pop_back();
-						VariantRef r = v.AtPath(path);
-						if (r.IsList()) {
-							r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), p.value);
-						} else {
-							r.Set(elem.AsString(), p.value);
-						}
-					} else {
-						v = p.value;
-					}
-				}
+				Reinsert(v, p.path, p.value);
 				break;
 			case OP_REMOVE:
 				v.ErasePath(p.path);
-- 
2.43.0


From 32a34ce8247cd7f6cab3a3da3463fe44bd9005e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:30 +0000
Subject: [PATCH 054/131] fix: escape keys when forming JSON pointers

---
 src/Extensions.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 05ae024..a03ca2c 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -595,13 +595,31 @@ namespace libvariant {
 		}
 	}
 
+	static std::string JSONPointerEscape(const std::string &fragment) {
+		std::string ret;
+		for (std::string::const_iterator i(fragment.begin()), e(fragment.end()); i != e; ++i) {
+			switch (*i) {
+			case '~':
+				ret.append("~0");
+				break;
+			case '/':
+				ret.append("~1");
+				break;
+			default:
+				ret.append(1, *i);
+				break;
+			}
+		}
+		return ret;
+	}
+
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				ret << "/" << JSONPointerEscape(i->AsString());
 			}
 		}
 		return ret.str();
-- 
2.43.0


From 405bbec32f51776e07eef5cf3cac41f718ddb10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:32 +0000
Subject: [PATCH 055/131] fix: undo array operations of a failed JSON patch by
 position

---
 src/Extensions.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index a03ca2c..25f3c5a 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -435,10 +435,6 @@ namespace libvariant {
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
-					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
 					op.success = true;
 					return v.At(index);
@@ -625,6 +621,22 @@ namespace libvariant {
 		return ret.str();
 	}
 
+	// Take away a value that was added at path
+	static void TakeAway(VariantRef v, Path path) {
+		if (path.empty()) {
+			v = Variant::NullType;
+			return;
+		}
+		PathElement elem = path.back();
+		path.pop_back();
+		VariantRef r = v.AtPath(path);
+		if (r.IsList()) {
+			r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
+		} else {
+			r.Erase(elem.AsString());
+		}
+	}
+
 	struct Patch_t {
 		Patch_t(Operations_e o, Path p, Variant v) : op(o), path(p), value(v) {}
 		Patch_t(Operations_e o, Path p) : op(o), path(p) {}
@@ -641,7 +653,7 @@ namespace libvariant {
 				Reinsert(v, p.path, p.value);
 				break;
 			case OP_REMOVE:
-				v.ErasePath(p.path);
+				TakeAway(v, p.path);
 				break;
 			case OP_TEST:
 			case OP_GET:
@@ -680,6 +692,7 @@ namespace libvariant {
 					return false;
 				}
 				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				undo->push_back(Patch_t(OP_REMOVE, op.path));
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-- 
2.43.0


From dba4f56f3b2f02f74bac36a5a5854b95d76f52bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:51 +0000
Subject: [PATCH 056/131] fix: do not share values between a JSON patch and the
 patched document

---
 src/Extensions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 25f3c5a..3a84ad4 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -670,7 +670,7 @@ namespace libvariant {
 		try {
 			if (oper == "add") {
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
 					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
@@ -687,7 +687,7 @@ namespace libvariant {
 				op = Operation_t(OP_GET, diff.Get("path").AsString());
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
-					r = diff.Get("value");
+					r = diff.Get("value").Copy();
 				} else {
 					return false;
 				}
@@ -711,7 +711,7 @@ namespace libvariant {
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
+				Variant data = op.value.Copy();
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-- 
2.43.0


From 0c020b548eca8f9a1897ff8d0334155faeb9240e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:59 +0000
Subject: [PATCH 057/131] fix: refuse JSON patches moving a value into its own
 child

---
 src/Extensions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 3a84ad4..3dd6f01 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -696,6 +696,7 @@ namespace libvariant {
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
+				CheckMove(op.pointer, diff.Get("path").AsString());
 				JSONPointerOp(op.pointer, v, op);
 				Variant data = op.value;
 				undo->push_back(Patch_t(OP_ADD, op.path, data));
-- 
2.43.0


From cc3dc131f8106f69c83f7602708fe0e9822ea959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:46 +0000
Subject: [PATCH 058/131] fix: refuse JSON patches whose pointers are not
 strings

---
 src/Extensions.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 3dd6f01..b04fea1 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -664,12 +664,21 @@ namespace libvariant {
 	}
 
 
+	// The pointers of a patch have to be strings, a null would convert to the whole document
+	static std::string PatchPointer(const Variant &diff, const char *name) {
+		Variant pointer = diff.Get(name);
+		if (!pointer.IsString()) {
+			throw std::runtime_error(std::string("The JSON Patch member is not a string: ") + name);
+		}
+		return pointer.AsString();
+	}
+
 	bool JSONPatchOp(VariantRef v, const Variant &diff, std::deque<Patch_t> *undo) {
 		std::string oper = diff.Get("op").AsString();
 		Operation_t op;
 		try {
 			if (oper == "add") {
-				op = Operation_t(OP_ADD, diff.Get("path").AsString());
+				op = Operation_t(OP_ADD, PatchPointer(diff, "path"));
 				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
@@ -679,12 +688,12 @@ namespace libvariant {
 				}
 				return op.success;
 			} else if (oper == "remove") {
-				op = Operation_t(OP_REMOVE, diff.Get("path").AsString());
+				op = Operation_t(OP_REMOVE, PatchPointer(diff, "path"));
 				JSONPointerOp(op.pointer, v, op);
 				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
 				return op.success;
 			} else if (oper == "replace") {
-				op = Operation_t(OP_GET, diff.Get("path").AsString());
+				op = Operation_t(OP_GET, PatchPointer(diff, "path"));
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
 					r = diff.Get("value").Copy();
@@ -695,12 +704,12 @@ namespace libvariant {
 				undo->push_back(Patch_t(OP_REMOVE, op.path));
 				return op.success;
 			} else if (oper == "move") {
-				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-				CheckMove(op.pointer, diff.Get("path").AsString());
+				op = Operation_t(OP_REMOVE, PatchPointer(diff, "from"));
+				CheckMove(op.pointer, PatchPointer(diff, "path"));
 				JSONPointerOp(op.pointer, v, op);
 				Variant data = op.value;
 				undo->push_back(Patch_t(OP_ADD, op.path, data));
-				op = Operation_t(OP_ADD, diff.Get("path").AsString());
+				op = Operation_t(OP_ADD, PatchPointer(diff, "path"));
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
@@ -710,10 +719,10 @@ namespace libvariant {
 				}
 				return op.success;
 			} else if (oper == "copy") {
-				op = Operation_t(OP_GET, diff.Get("from").AsString());
+				op = Operation_t(OP_GET, PatchPointer(diff, "from"));
 				JSONPointerOp(op.pointer, v, op);
 				Variant data = op.value.Copy();
-				op = Operation_t(OP_ADD, diff.Get("path").AsString());
+				op = Operation_t(OP_ADD, PatchPointer(diff, "path"));
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
@@ -723,7 +732,7 @@ namespace libvariant {
 				}
 				return op.success;
 			} else if (oper == "test") {
-				op = Operation_t(OP_TEST, diff.Get("path").AsString());
+				op = Operation_t(OP_TEST, PatchPointer(diff, "path"));
 				op.value = diff.Get("value");
 				JSONPointerOp(op.pointer, v, op);
 				return op.success;
-- 
2.43.0


From 6b459bc147ac022213f954c1098045487a34daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:11 +0000
Subject: [PATCH 059/131] fix: remove trailing array elements from the end in
 JSON differences

---
 src/Extensions.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index b04fea1..f8a6f8e 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -803,8 +803,10 @@ namespace libvariant {
 				{
 					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
 					for (uintmax_t i = 0; i < len; ++i) {
-						path.push_back(PathElement(i));
-							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+						// each removal shifts the elements after it, so remove from the end
+						uintmax_t index = (i < dst.Size()) ? i : len - 1 - (i - dst.Size());
+						path.push_back(PathElement(index));
+							JSONDiffRef(src.At(index), dst.At(index), diff, path);
 						path.pop_back();
 					}
 				}
-- 
2.43.0


From d0bdb2ef072f8d38d881ddfaa5d21c625adea267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:45 +0000
Subject: [PATCH 060/131] fix: keep nulls of new members in RUpdate

---
 src/Extensions.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index f8a6f8e..8e50616 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -268,7 +268,11 @@ namespace libvariant {
 		case Variant::MapType:
 			if ( !base.Exists() || base.IsMap() ) {
 				for ( Variant::ConstMapIterator i(update.MapBegin()), e(update.MapEnd()); i != e; ++i ) {
-					RUpdate(base.At( i->first, Variant::MapType ), update[ i->first ]);
+					if ( base.Exists() && base.Contains( i->first ) ) {
+						RUpdate(base.At( i->first ), i->second);
+					} else {
+						base.Set( i->first, i->second.Copy() );
+					}
 				}
 				break;
 			}
-- 
2.43.0


From 105a4fca8313d3cabe5d752ed853e80e3e95f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:23 +0000
Subject: [PATCH 061/131] fix: check multipleOf for negative numbers and refuse
 a multipleOf of zero

---
 src/Schema.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..fb6c857 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -699,7 +699,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || multipleof <= 0) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
@@ -710,7 +710,7 @@ namespace libvariant {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
 			// So, we need to check if it is within epsilon of 0
-			long double m = mod.AsLongDouble();
+			long double m = std::abs(mod.AsLongDouble());
 			long double divisor = multipleof.AsLongDouble();
 			long double tolerance = FLOAT_TOLERANCE;
 
-- 
2.43.0


From ebd10936cb9353a8bbd39d68ac954c97d6e2fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:47 +0000
Subject: [PATCH 062/131] fix: check multipleOf of negative integers against an
 unsigned divisor

---
 src/Schema.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index fb6c857..93e23c8 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -705,7 +705,12 @@ namespace libvariant {
 			ctx.AddSchemaError(oss.str());
 			return;
 		}
-		Variant mod = data % multipleof;
+		Variant value = data;
+		if (data.IsInt() && data.AsInt() < 0) {
+			// The sign does not matter, but would be lost if multipleof is unsigned
+			value = uintmax_t(0) - uintmax_t(data.AsInt());
+		}
+		Variant mod = value % multipleof;
 		if (data.IsFloat() || multipleof.IsFloat()) {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
-- 
2.43.0


From 7318abf4636f1d4b83de0aa890d41e70400abdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:38:18 +0000
Subject: [PATCH 063/131] fix: count characters rather than bytes for minLength
 and maxLength

---
 src/Schema.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 93e23c8..80e56e5 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -603,14 +603,23 @@ namespace libvariant {
 		regfree(&pattern);
 	}
 
+	// The number of characters in a UTF-8 string
+	static uintmax_t StringLength(const std::string &str) {
+		uintmax_t length = 0;
+		for (std::string::const_iterator i(str.begin()), e(str.end()); i != e; ++i) {
+			if ((*i & 0xC0) != 0x80) { ++length; }
+		}
+		return length;
+	}
+
 	void ValidateStringLength(SchemaContext &ctx, Variant schema, Variant data) {
+		uintmax_t length = StringLength(data.AsString());
 		if (schema.Contains("minLength")) {
 			AutoSchemaPath spath(ctx, "minLength");
 			if (schema["minLength"].IsNumber()) {
-				// TODO: Get encoded length rather than byte length?
-				if (data.Size() < schema["minLength"].AsUnsigned()) {
+				if (length < schema["minLength"].AsUnsigned()) {
 					std::ostringstream oss;
-					oss << "String is too short (" << data.Size() << " chars), minimum "
+					oss << "String is too short (" << length << " chars), minimum "
 						<< schema["minLength"].AsUnsigned();
 					ctx.AddError(oss.str());
 				}
@@ -621,10 +630,9 @@ namespace libvariant {
 		if (schema.Contains("maxLength")) {
 			AutoSchemaPath spath(ctx, "maxLength");
 			if (schema["maxLength"].IsNumber()) {
-				// TODO: Get encoded length rather than byte length?
-				if (data.Size() > schema["maxLength"].AsUnsigned()) {
+				if (length > schema["maxLength"].AsUnsigned()) {
 					std::ostringstream oss;
-					oss << "String is too long (" << data.Size() << " chars), maximum "
+					oss << "String is too long (" << length << " chars), maximum "
 						<< schema["maxLength"].AsUnsigned();
 					ctx.AddError(oss.str());
 				}
-- 
2.43.0


From 9e975f5f895ad78c76820ae4eb0b0f054e5cd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:39 +0000
Subject: [PATCH 064/131] fix: allow for the rounding of larger decimal
 fractions in multipleOf

---
 src/Schema.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 80e56e5..f877f0a 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -34,7 +34,7 @@
 #include <cmath>
 #include <stdlib.h>
 
-#define FLOAT_TOLERANCE 100*std::numeric_limits<long double>::epsilon()
+#define FLOAT_TOLERANCE std::numeric_limits<double>::epsilon()
 #define RECURSION_LIMIT 100
 
 namespace libvariant {
@@ -722,10 +722,11 @@ namespace libvariant {
 		if (data.IsFloat() || multipleof.IsFloat()) {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
-			// So, we need to check if it is within epsilon of 0
+			// So, we need to check if it is within the error that leaves in the
+			// remainder, which is relative to the value
 			long double m = std::abs(mod.AsLongDouble());
 			long double divisor = multipleof.AsLongDouble();
-			long double tolerance = FLOAT_TOLERANCE;
+			long double tolerance = std::abs(value.AsLongDouble()) * FLOAT_TOLERANCE;
 
 			if (m > tolerance && std::abs(m - divisor) > tolerance) {
 				std::ostringstream oss;
-- 
2.43.0


From 4f11f05f1cbb6c11622959d6b10920bc3058797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:22 +0000
Subject: [PATCH 065/131] fix: accept fractions of seconds and offsets in the
 date-time format

---
 src/Schema.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index f877f0a..7dc0c70 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -522,7 +522,8 @@ namespace libvariant {
 				// From V4 spec
 				// RFC 3339, section 5.6
 				patternstr = "^[0-9][0-9][0-9][0-9](-[0-1][0-9](-[0-3][0-9]"
-					"(T[0-9][0-9](:[0-9][0-9](:[0-9][0-9])?)?)?)?)?Z?$";
+					"(T[0-9][0-9](:[0-9][0-9](:[0-9][0-9](\\.[0-9]+)?)?)?)?)?)?"
+					"(Z|[-+][0-9][0-9]:[0-9][0-9])?$";
 			} else if (format == "date") {
 				// From V3 spec: should be format of YYYY-MM-DD
 				patternstr = "^[0-9][0-9][0-9][0-9]-[0-1][0-9]-[0-3][0-9]$";
-- 
2.43.0


From d038cf92f89f812a1443fac7412c71a7c81b10b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:31 +0000
Subject: [PATCH 066/131] fix: split URIs whose fragment contains spaces

---
 src/SchemaLoader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..2a7b0d5 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -195,7 +195,7 @@ namespace libvariant {
 "(//([^:@]*(:[^:@]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
 "([^?#]*)" // PATHNAME
 "(\\?[^#]*)?" // SEARCH
-"(#[^[:space:]]*)?[[:space:]]*$" // HASH
+"(#(.*[^[:space:]])?)?[[:space:]]*$" // HASH
 					, REG_EXTENDED);
 			if (ret) {
 				std::vector<char> buffer(8192);
-- 
2.43.0


From f4781bfea0879df832da0ca354079bd5a3bf5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:36 +0000
Subject: [PATCH 067/131] fix: end the authority of a URI at the first slash

---
 src/SchemaLoader.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 2a7b0d5..71d9843 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -184,15 +184,14 @@ namespace libvariant {
 
 	bool SchemaLoader::ParseURI(URIInfo &info, const std::string &uri) {
 		enum {
-		HREF=0, PROTOCOL, AUTHORITY, USERHOST, HOST,
-		HOSTNAME, PORT, PATHNAME, SEARCH, HASH, MATCHLEN
+		HREF=0, PROTOCOL, AUTHORITY, PATHNAME, SEARCH, HASH, MATCHLEN
 		};
 		static const struct RegexHelper {
 		RegexHelper() {
 			memset(&regex, 0, sizeof(regex_t));
 			int ret = regcomp(&regex,
 "^[[:space:]]*([^:\\/?#]+:)?" // PROTOCOL
-"(//([^:@]*(:[^:@]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
+"(//[^/?#]*)?" // AUTHORITY
 "([^?#]*)" // PATHNAME
 "(\\?[^#]*)?" // SEARCH
 "(#(.*[^[:space:]])?)?[[:space:]]*$" // HASH
-- 
2.43.0


From 0200d29ca6c6f9b464a7b86ea2e8b82ff06c6739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:55 +0000
Subject: [PATCH 068/131] fix: resolve references within a schema that has an
 id

---
 src/Schema.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 7dc0c70..88c4762 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -838,6 +838,14 @@ namespace libvariant {
 		ValidateCombinations(ctx, schema, data);
 	}
 
+	// Make schema available to its own references, which are relative to its id if it has one
+	static void AddLocalSchema(SchemaLoader &loader, Variant schema) {
+		loader.AddSchema("", schema);
+		if (schema.IsMap() && schema.Contains("id") && schema["id"].IsString()) {
+			loader.AddSchema(schema["id"].AsString(), schema);
+		}
+	}
+
 	SchemaResult SchemaValidate(Variant schema, Variant data, SchemaLoader *loader)
 	{
 		SchemaLoader lloader(loader);
@@ -847,7 +855,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
-		lloader.AddSchema("", schema);
+		AddLocalSchema(lloader, schema);
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
@@ -904,7 +912,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
-		lloader.AddSchema("", schema);
+		AddLocalSchema(lloader, schema);
 		AddSchemaDefaultsImpl(schema, data, &lloader);
 	}
 
-- 
2.43.0


From 38439479b5d21b01c8429cb5adea084100a0e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:17 +0000
Subject: [PATCH 069/131] fix: leave the schema given for validation or
 defaults unchanged

---
 src/Schema.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index 88c4762..9813d3c 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -855,6 +855,8 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
+		// The references in it are going to be normalized
+		schema = schema.Copy();
 		AddLocalSchema(lloader, schema);
 		SchemaContext ctx(&lloader);
 		try {
@@ -912,6 +914,8 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
+		// The references in it are going to be normalized
+		schema = schema.Copy();
 		AddLocalSchema(lloader, schema);
 		AddSchemaDefaultsImpl(schema, data, &lloader);
 	}
-- 
2.43.0


From f6a1bb9b3c883451d2a1a88bdf0c6eef2cfa9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:13 +0000
Subject: [PATCH 070/131] fix: find schema ids in lists of schemas and in
 properties named enum

---
 src/SchemaLoader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 71d9843..3b3770c 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -399,10 +399,14 @@ namespace libvariant {
 			}
 
 			for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-				if (i->first != "enum" && i->second.IsMap()) {
+				if (i->first != "enum" || i->second.IsMap()) {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
+		} else if (schema.IsList()) {
+			for (Variant::ListIterator i(schema.ListBegin()), e(schema.ListEnd()); i != e; ++i) {
+				SearchForTrustedSchemas(m, *i, uri);
+			}
 		}
 	}
 
-- 
2.43.0


From 9be4d0fa727d68233f2a831f864822934f61b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:33 +0000
Subject: [PATCH 071/131] fix: resolve references in properties named enum

---
 src/SchemaLoader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 3b3770c..8b53d91 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -367,7 +367,7 @@ namespace libvariant {
 				schema["$ref"] = ResolveURI(baseuri, schema["$ref"].AsString());
 			} else {
 				for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-					if (i->first != "enum") {
+					if (i->first != "enum" || i->second.IsMap()) {
 						NormSchema(i->second, baseuri);
 					}
 				}
-- 
2.43.0


From 4b099bf5e1f313d7c5baaad398b7ce65ce9351fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:12 +0000
Subject: [PATCH 072/131] fix: find ids in schemas loaded on demand

---
 src/SchemaLoader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 8b53d91..2c2a202 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -138,6 +138,11 @@ namespace libvariant {
 			if (!HandleMissing(baseuri, err)) {
 				throw std::runtime_error(err.GetErrorMessage());
 			}
+			// The fragment may be an id in what was loaded
+			iter = schemas.find(uri);
+			if (iter != schemas.end()) {
+				return iter->second;
+			}
 			iter = schemas.find(baseuri);
 		}
 		if (iter == schemas.end()) {
-- 
2.43.0


From ff10792888ba2aaaa5b46e699d033e19e1f10040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:56 +0000
Subject: [PATCH 073/131] fix: end when adding the defaults of a recursive
 schema

References back to a schema that is already being applied were followed
without end where the data does not exist.
---
 src/Schema.cc | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 9813d3c..3add003 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -26,6 +26,7 @@
 #include <Variant/Path.h>
 #include <vector>
 #include <stdexcept>
+#include <set>
 #include <sstream>
 #include <regex.h>
 #include <string.h>
@@ -865,45 +866,68 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	// The schemas being applied on the way down from the last data that exists
+	typedef std::set<const Variant::Map*> OpenSchemas;
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	class AutoOpenSchema {
+	public:
+		AutoOpenSchema(OpenSchemas &o, const Variant &schema)
+			: open(o), key(&schema.AsMap()), first(open.insert(key).second) {}
+		~AutoOpenSchema() { if (first) { open.erase(key); } }
+		bool First() const { return first; }
+	private:
+		OpenSchemas &open;
+		const Variant::Map *key;
+		bool first;
+	};
+
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, OpenSchemas &open);
+
+	void AddSchemaMemberDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, OpenSchemas &open) {
+		OpenSchemas none;
+		AddSchemaDefaultsImpl(schema, data, loader, data.Exists() ? none : open);
+	}
+
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader, OpenSchemas &open) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, loader, open);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, OpenSchemas &open) {
 		if (!schema.IsMap()) { return; }
-		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+		AutoOpenSchema opened(open, schema);
+		if (opened.First() && schema.Contains("$ref") && schema["$ref"].IsString()) {
+			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader, open);
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
 			return;
 		}
+		// A recursive schema is not applied to data that does not exist without end
+		if (!opened.First()) { return; }
 		if (schema.Contains("properties") && (!data.Exists() || data.IsMap())) {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				AddSchemaMemberDefaultsImpl(i->second, data.At(i->first), loader, open);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaMemberDefaultsImpl(schema["items"][i], data[i], loader, open);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaMemberDefaultsImpl(schema["items"], data[0], loader, open);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, open);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, open);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, open);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -917,7 +941,8 @@ namespace libvariant {
 		// The references in it are going to be normalized
 		schema = schema.Copy();
 		AddLocalSchema(lloader, schema);
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		OpenSchemas open;
+		AddSchemaDefaultsImpl(schema, data, &lloader, open);
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From 6d4c16d720735c3dee29a7c1c905a370130f409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:03 +0000
Subject: [PATCH 074/131] fix: add the defaults of list items to every element

Only the first element of a list got the defaults of its items schema.
---
 src/Schema.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 3add003..0bc3695 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -922,7 +922,10 @@ namespace libvariant {
 					AddSchemaMemberDefaultsImpl(schema["items"][i], data[i], loader, open);
 				}
 			} else {
-				AddSchemaMemberDefaultsImpl(schema["items"], data[0], loader, open);
+				unsigned i = 0;
+				do {
+					AddSchemaMemberDefaultsImpl(schema["items"], data[i], loader, open);
+				} while (data.Exists() && ++i < data.Size());
 			}
 		}
 		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, open);
-- 
2.43.0


From b711db36aadc02f50128431abc20cf41c14e7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:06 +0000
Subject: [PATCH 075/131] fix: leave ids and references in default values alone

A default value with members named id or $ref was taken for a schema, and
those members were rewritten as URIs.
---
 src/SchemaLoader.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 2c2a202..ea353e5 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -361,6 +361,17 @@ namespace libvariant {
 		return ret;
 	}
 
+	// Is the value of this member of a schema data, rather than something that contains schemas?
+	static bool IsSchemaData(const std::string &key, const Variant &value) {
+		return key == "default" || (key == "enum" && !value.IsMap());
+	}
+
+	// Does the value of this member of a schema have schemas under names of any kind?
+	static bool HasNamedSchemas(const std::string &key, const Variant &value) {
+		return value.IsMap() && (key == "properties" || key == "patternProperties"
+				|| key == "definitions" || key == "dependencies");
+	}
+
 	void SchemaLoader::NormSchema(Variant &schema, const std::string &uri) {
 		std::string baseuri = uri;
 		if (schema.IsMap()) {
@@ -372,7 +383,11 @@ namespace libvariant {
 				schema["$ref"] = ResolveURI(baseuri, schema["$ref"].AsString());
 			} else {
 				for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-					if (i->first != "enum" || i->second.IsMap()) {
+					if (HasNamedSchemas(i->first, i->second)) {
+						for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+							NormSchema(j->second, baseuri);
+						}
+					} else if (!IsSchemaData(i->first, i->second)) {
 						NormSchema(i->second, baseuri);
 					}
 				}
@@ -404,7 +419,11 @@ namespace libvariant {
 			}
 
 			for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-				if (i->first != "enum" || i->second.IsMap()) {
+				if (HasNamedSchemas(i->first, i->second)) {
+					for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+						SearchForTrustedSchemas(m, j->second, uri);
+					}
+				} else if (!IsSchemaData(i->first, i->second)) {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
-- 
2.43.0


From cb56425ef64dee34c766bbef2793ac3b7f2ee82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:33 +0000
Subject: [PATCH 076/131] fix: start every parse of arguments afresh

A second Parse added to the results of the first, and changing a result
changed the declared default or constant.
---
 src/ArgParse.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1b8235a..3af581a 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -959,6 +959,12 @@ namespace libvariant {
 			resolve_conflicts = old_conflict;
 		}
 
+		// Forget the outcome of any previous parse
+		print_help = print_adv_help = print_config = false;
+		for (optmap_iter i(option_map.begin()), e(option_map.end()); i != e; ++i) {
+			i->second.result = Variant::NullType;
+		}
+
 		try {
 			std::string shortOpts;
 			std::vector<struct option> longOpts;
@@ -1329,7 +1335,7 @@ namespace libvariant {
 			result = arg;
 			break;
 		case ARGACTION_STORE_CONST:
-			result = opt["const"];
+			result = opt["const"].Copy();
 			break;
 		case ARGACTION_STORE_TRUE:
 			if (arg.IsBool()) {
@@ -1629,10 +1635,10 @@ namespace libvariant {
 				case ARGACTION_STORE_CONST:
 				case ARGACTION_STORE_TRUE:
 				case ARGACTION_STORE_FALSE:
-					result = opt["default"];
+					result = opt["default"].Copy();
 					break;
 				case ARGACTION_APPEND:
-					result.Append(opt["default"]);
+					result.Append(opt["default"].Copy());
 				case ARGACTION_COUNT:
 				case ARGACTION_HELP:
 				case ARGACTION_ADVHELP:
-- 
2.43.0


From 8bdc42754dce3da19078af406c1c64b867590789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:00 +0000
Subject: [PATCH 077/131] fix: do not count an unused counter as a member of an
 exclusive group

A counting option that was not given had the value 0, which conflicted
with every other option of a mutually exclusive group.
---
 src/ArgParse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 3af581a..293cb9a 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -980,7 +980,6 @@ namespace libvariant {
 					{ o.longOpt.c_str(), (o.HasArg() ? 1 : 0), 0, id };
 					longOpts.push_back(tmp_option);
 				}
-				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
 				// Handle environment variables
 				if (o.opt.Contains("env")) {
 					const char *env = getenv(o.opt["env"].AsString().c_str());
@@ -1363,6 +1362,7 @@ namespace libvariant {
 			}
 			break;
 		case ARGACTION_COUNT:
+			if (result.IsNull()) { result = 0u; }
 			if (arg.IsNumber()) {
 				result += arg.AsInt();
 			} else {
@@ -1683,6 +1683,7 @@ namespace libvariant {
 
 	void ArgParseOptImpl::FormResult(VariantRef res) {
 		if (!HasResult()) { return; }
+		if (result.IsNull() && action == ARGACTION_COUNT) { result = 0u; }
 		if (result.IsNull()) { return; }
 		res.SetPath(path, result);
 	}
-- 
2.43.0


From 67d6e5ff451d031ef874a9bbce648121008c92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:09 +0000
Subject: [PATCH 078/131] fix: report a missing positional argument

A positional argument that must occur at least once could be left out.
---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 293cb9a..c519437 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1673,7 +1673,7 @@ namespace libvariant {
 					}
 				}
 			}
-		} else if (required) {
+		} else if (required || (opt.Contains("minArgs") && opt["minArgs"] > 0)) {
 			std::ostringstream oss;
 			oss << "Error parsing arguments\n";
 			oss << "Required " << OptName(this) << " missing.";
-- 
2.43.0


From a2302fc4743d6952d914003b7c219334d943cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:17 +0000
Subject: [PATCH 079/131] fix: report values in configuration files that break
 a constraint

They were skipped without notice, as if the option did not exist.
---
 src/ArgParse.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index c519437..2549a77 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1241,14 +1241,12 @@ namespace libvariant {
 		case Variant::UnsignedType:
 		case Variant::FloatType:
 		case Variant::StringType:
-			try {
-				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {}
+			if (paths.find(PathString(path)) != paths.end()) { At(path)->Handle(opt); }
 			break;
 		case Variant::ListType:
-			try {
+			if (paths.find(PathString(path)) != paths.end()) {
 				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {
+			} else {
 				unsigned index = 0;
 				for (Variant::ListIterator i(opt.ListBegin()), e(opt.ListEnd());
 						i != e; ++i, ++index) {
-- 
2.43.0


From a170556052aa6e91f341230b976735bb4ee35242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:19 +0000
Subject: [PATCH 080/131] fix: count characters in the length of arguments

Minimum and maximum length counted the bytes of UTF-8 text, unlike the
generated schema.
---
 src/ArgParse.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 2549a77..27fe249 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1393,19 +1393,28 @@ namespace libvariant {
 		}
 	}
 
-	void ArgParseOptImpl::CheckRequirements(Variant val) {
+	static unsigned CountChars(const std::string &str) {
+		unsigned n = 0;
+		for (std::string::size_type i = 0; i < str.size(); ++i) {
+			// Not a UTF-8 continuation byte
+			if ((str[i] & 0xC0) != 0x80) { ++n; }
+		}
+		return n;
+	}
 
+	void ArgParseOptImpl::CheckRequirements(Variant val) {
+		unsigned len = val.IsString() ? CountChars(val.AsString()) : 0;
 		switch (val.GetType()) {
 		case Variant::StringType:
-			if (opt.Contains("minLength") && val.Size() < opt["minLength"]) {
+			if (opt.Contains("minLength") && len < opt["minLength"]) {
 				std::ostringstream oss;
-				oss << "Error parsing arguments\n" << OptName(this) << " is too short: " << val.Size()
+				oss << "Error parsing arguments\n" << OptName(this) << " is too short: " << len
 					<< " chars, minimum " << opt["minLength"].AsUnsigned();
 				throw std::runtime_error(oss.str());
 			}
-			if (opt.Contains("maxLength") && val.Size() > opt["maxLength"]) {
+			if (opt.Contains("maxLength") && len > opt["maxLength"]) {
 				std::ostringstream oss;
-				oss << "Error parsing arguments\n" << OptName(this) << " is too long: " << val.Size()
+				oss << "Error parsing arguments\n" << OptName(this) << " is too long: " << len
 					<< " chars, maximum " << opt["maxLength"].AsUnsigned();
 				throw std::runtime_error(oss.str());
 			}
-- 
2.43.0


From b63255b75da7e3db26ddb8c83a1d50830483a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:08 +0000
Subject: [PATCH 081/131] fix: let an environment variable act like a default

Its value conflicted with other options of a mutually exclusive group, was
kept in front of values from the command line, and was an error for options
without an argument.
---
 src/ArgParse.cc | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 27fe249..cc623f2 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -205,6 +205,7 @@ namespace libvariant {
 		void Handle(Variant arg);
 		void CheckRequirements(Variant val);
 		Variant ParseArg(const char *arg);
+		Variant ParseValue(const char *arg);
 		void Init(Variant o);
 
 		void FinalizeResult();
@@ -980,8 +981,8 @@ namespace libvariant {
 					{ o.longOpt.c_str(), (o.HasArg() ? 1 : 0), 0, id };
 					longOpts.push_back(tmp_option);
 				}
-				// Handle environment variables
-				if (o.opt.Contains("env")) {
+				// Handle environment variables that name files to load
+				if (o.opt.Contains("env") && o.HasArg() && !o.HasResult()) {
 					const char *env = getenv(o.opt["env"].AsString().c_str());
 					if (env) { o.HandleOption(env); }
 				}
@@ -1496,7 +1497,20 @@ namespace libvariant {
 	}
 
 	Variant ArgParseOptImpl::ParseArg(const char *arg) {
+		if (!HasArg()) {
+			if (arg) {
+				std::ostringstream oss;
+				oss << "Error parsing arguments\n"
+				   	<< OptName(this) << " does not take an argument, but argument \"" 
+					<< arg << "\" given.";
+				throw std::runtime_error(oss.str());
+			}
+			return Variant::NullType;
+		}
+		return ParseValue(arg);
+	}
 
+	Variant ArgParseOptImpl::ParseValue(const char *arg) {
 		class PAction : public ParserActions {
 		public:
 			virtual void Scalar(ParserImpl *p, double v, const char *anchor, const char *tag)
@@ -1514,17 +1528,6 @@ namespace libvariant {
 			Variant val;
 		};
 
-		if (!HasArg()) {
-			if (arg) {
-				std::ostringstream oss;
-				oss << "Error parsing arguments\n"
-				   	<< OptName(this) << " does not take an argument, but argument \"" 
-					<< arg << "\" given.";
-				throw std::runtime_error(oss.str());
-			}
-			return Variant::NullType;
-		}
-
 		// Was type specified?
 		unsigned len = strlen(arg);
 		switch (type) {
@@ -1619,7 +1622,9 @@ namespace libvariant {
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
-		if (opt.Contains("default") && result.IsNull()) {
+		const char *env = 0;
+		if (HasResult() && opt.Contains("env")) { env = getenv(opt["env"].AsString().c_str()); }
+		if ((env || opt.Contains("default")) && result.IsNull()) {
 			bool add_default = true;
 			for (std::set<std::string>::iterator i(groups.begin()), e(groups.end());
 				i != e; ++i)
@@ -1637,15 +1642,23 @@ namespace libvariant {
 				}
 			}
 			if (add_default) {
+				// The environment overrides the default
+				Variant def;
+				if (env) {
+					def = ParseValue(env);
+					if (HasArg()) { CheckRequirements(def); }
+				} else {
+					def = opt["default"].Copy();
+				}
 				switch (action) {
 				case ARGACTION_STORE:
 				case ARGACTION_STORE_CONST:
 				case ARGACTION_STORE_TRUE:
 				case ARGACTION_STORE_FALSE:
-					result = opt["default"].Copy();
+					result = def;
 					break;
 				case ARGACTION_APPEND:
-					result.Append(opt["default"].Copy());
+					result.Append(def);
 				case ARGACTION_COUNT:
 				case ARGACTION_HELP:
 				case ARGACTION_ADVHELP:
-- 
2.43.0


From 8bf73f945d3b7e6d87eeb42849f65a2bfb79e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:16 +0000
Subject: [PATCH 082/131] fix: let an option be declared as not required

Required(false) made it required.
---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index cc623f2..5311070 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -554,7 +554,7 @@ namespace libvariant {
 	}
 
 	ArgParseOption &ArgParseOption::Required(bool req) {
-		impl->required = true;
+		impl->required = req;
 		return *this;
 	}
 
-- 
2.43.0


From 03d9309bdd328eeb4ed84d1eb7446bb2252b2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:26 +0000
Subject: [PATCH 083/131] fix: refuse integer arguments that are out of range

They were replaced by the nearest integer, and a negative number for an
unsigned option by a large positive one.
---
 src/ArgParse.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 5311070..c5b57d9 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1537,10 +1537,11 @@ namespace libvariant {
 		{
 			long long val;
 			char *end = 0;
+			errno = 0;
 			val = strtoll(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
-			if (!(val == LLONG_MAX && errno == ERANGE)) {
+			if (errno != ERANGE) {
 				return Variant(val);
 			}
 		} // Fall through
@@ -1548,9 +1549,12 @@ namespace libvariant {
 		{
 			char *end = 0;
 			unsigned long long val;
+			errno = 0;
 			val = strtoull(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			// strtoull also takes negative numbers
+			if (errno == ERANGE || (val != 0 && strchr(arg, '-'))) { ParseArgIntError(arg); }
 			return Variant(val);
 		}
 		case Variant::FloatType:
-- 
2.43.0


From a293b737d5e9dfb2b6f03e2fcf39595b1f2cde5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:27 +0000
Subject: [PATCH 084/131] fix: describe unsigned options with a minimum of zero

---
 src/ArgParse.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index c5b57d9..ca677d7 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -214,6 +214,7 @@ namespace libvariant {
 		std::ostream &MakeArgString(std::ostream &os) const;
 		void HelpLine(std::ostream &os, bool is_arg, bool adv, unsigned indent) const;
 		Variant GetDescription() const;
+		Variant GetMinimum() const;
 		void GenerateSchema(VariantRef schema) const;
 		void GenerateSchema(VariantRef schema, Path::const_iterator i, Path::const_iterator e) const;
 		void GenerateObjectSchema(VariantRef schema, Path::const_iterator i, Path::const_iterator e) const;
@@ -1749,9 +1750,20 @@ namespace libvariant {
 		os << "\n";
 	}
 
+	// An unsigned option is an integer with a minimum of at least zero
+	Variant ArgParseOptImpl::GetMinimum() const {
+		Variant minimum = opt.Get("minimum", Variant::NullType);
+		if (type == Variant::UnsignedType && (minimum.IsNull() || minimum < 0)) {
+			minimum = 0;
+		}
+		return minimum;
+	}
+
 	Variant ArgParseOptImpl::GetDescription() const {
 		Variant desc;
 		desc.Merge(opt);
+		Variant minimum = GetMinimum();
+		if (!minimum.IsNull()) { desc.Set("minimum", minimum); }
 		if (type == Variant::NullType) {
 			desc.Set("type", type);
 		} else {
@@ -1829,7 +1841,7 @@ namespace libvariant {
 		switch (action) {
 		case ARGACTION_STORE:
 			if (type != Variant::NullType) { s["type"] = TypeString(type); }
-			if (opt.Contains("minimum")) { s["minimum"] = opt["minimum"]; }
+			if (!GetMinimum().IsNull()) { s["minimum"] = GetMinimum(); }
 			if (opt.Contains("maximum")) { s["maximum"] = opt["maximum"]; }
 			if (opt.Contains("minLength")) { s["minLength"] = opt["minLength"]; }
 			if (opt.Contains("maxLength")) { s["maxLength"] = opt["maxLength"]; }
@@ -1849,7 +1861,7 @@ namespace libvariant {
 			{
 				Variant itemschema = Variant::MapType;
 				if (type != Variant::NullType) { itemschema["type"] = TypeString(type); }
-				if (opt.Contains("minimum")) { itemschema["minimum"] = opt["minimum"]; }
+				if (!GetMinimum().IsNull()) { itemschema["minimum"] = GetMinimum(); }
 				if (opt.Contains("maximum")) { itemschema["maximum"] = opt["maximum"]; }
 				if (opt.Contains("minLength")) { itemschema["minLength"] = opt["minLength"]; }
 				if (opt.Contains("maxLength")) { itemschema["maxLength"] = opt["maxLength"]; }
-- 
2.43.0


From a3f1ebbd3fdfccb8337d85a47a47320d27db3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:37 +0000
Subject: [PATCH 085/131] fix: keep merged option parsers and their
 descriptions independent

---
 src/ArgParse.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index ca677d7..d534455 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1623,7 +1623,8 @@ namespace libvariant {
 		o.GetInto(required, "required", required);
 		o.GetInto(advanced, "advanced", false);
 		if (advanced) { impl->have_advanced = true; }
-		opt.Merge(o);
+		// do not share lists and maps with the description
+		opt.Merge(o.Copy());
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
@@ -1761,7 +1762,7 @@ namespace libvariant {
 
 	Variant ArgParseOptImpl::GetDescription() const {
 		Variant desc;
-		desc.Merge(opt);
+		desc.Merge(opt.Copy());
 		Variant minimum = GetMinimum();
 		if (!minimum.IsNull()) { desc.Set("minimum", minimum); }
 		if (type == Variant::NullType) {
@@ -1847,15 +1848,15 @@ namespace libvariant {
 			if (opt.Contains("maxLength")) { s["maxLength"] = opt["maxLength"]; }
 			if (opt.Contains("pattern")) { s["pattern"] = opt["pattern"]; }
 			if (opt.Contains("enum")) { s["enum"] = opt["enum"].Copy(); }
-			if (opt.Contains("default")) { s["default"] = opt["default"]; }
+			if (opt.Contains("default")) { s["default"] = opt["default"].Copy(); }
 			break;
 		case ARGACTION_STORE_CONST:
-			s["enum"].Append(opt.Get("const"));
+			s["enum"].Append(opt.Get("const").Copy());
 			break;
 		case ARGACTION_STORE_TRUE:
 		case ARGACTION_STORE_FALSE:
 			s["type"] = "boolean";
-			if (opt.Contains("default")) { s["default"] = opt["default"]; }
+			if (opt.Contains("default")) { s["default"] = opt["default"].Copy(); }
 			break;
 		case ARGACTION_APPEND:
 			{
@@ -1869,7 +1870,7 @@ namespace libvariant {
 				if (opt.Contains("enum")) { itemschema["enum"] = opt["enum"].Copy(); }
 				if (opt.Contains("default")) {
 					s["default"] = Variant::ListType;
-					s["default"].Append(opt["default"]);
+					s["default"].Append(opt["default"].Copy());
 				}
 				s["items"] = itemschema;
 			}
-- 
2.43.0


From 8b36f4feba8a16f6d2c20cb4aecf307dff8b25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:46 +0000
Subject: [PATCH 086/131] fix: do not count unused counters in the schema of
 option groups

---
 src/ArgParse.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index d534455..e3d4960 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -886,6 +886,8 @@ namespace libvariant {
 			}
 		} else {
 			schema = Variant::MapType;
+			// Counters are always in the result, as zero when not used.
+			if (opt->action == ARGACTION_COUNT) { schema["minimum"] = 1; }
 		}
 	}
 
-- 
2.43.0


From 4389f6dd8e5efd58396c31f0c4533e1c113f800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:38 +0000
Subject: [PATCH 087/131] fix: merge arguments before the groups they are
 members of

---
 src/ArgParse.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index e3d4960..8f78419 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1206,16 +1206,6 @@ namespace libvariant {
 				AddOption(keypath, shortOpt, longOpt, helptxt, action)->Init(o);
 			}
 		}
-		if (desc.Contains("groups") && desc["groups"].IsMap()) {
-			Variant grps = desc["groups"];
-			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
-					i != e; ++i)
-			{
-				Variant g = i->second;
-				std::string name = i->first;
-				GetGroup(name)->Init(g);
-			}
-		}
 		if (desc.Contains("arguments") && desc["arguments"].IsList()) {
 			Variant args = desc["arguments"];
 			for (Variant::ListIterator i(args.ListBegin()), e(args.ListEnd());
@@ -1229,6 +1219,17 @@ namespace libvariant {
 				AddArgument(keypath, helptxt, action)->Init(o);
 			}
 		}
+		// The members of a group can be options or arguments
+		if (desc.Contains("groups") && desc["groups"].IsMap()) {
+			Variant grps = desc["groups"];
+			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
+					i != e; ++i)
+			{
+				Variant g = i->second;
+				std::string name = i->first;
+				GetGroup(name)->Init(g);
+			}
+		}
 	}
 
 	void ArgParseImpl::MergeOptions(Variant opts) {
-- 
2.43.0


From a60a22432733eb060fa5db1211861c7918c7ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:51:17 +0000
Subject: [PATCH 088/131] fix: allow the default of a constant option in the
 generated schema

---
 src/ArgParse.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 8f78419..f0cb53a 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1855,6 +1855,10 @@ namespace libvariant {
 			break;
 		case ARGACTION_STORE_CONST:
 			s["enum"].Append(opt.Get("const").Copy());
+			if (opt.Contains("default")) {
+				s["enum"].Append(opt["default"].Copy());
+				s["default"] = opt["default"].Copy();
+			}
 			break;
 		case ARGACTION_STORE_TRUE:
 		case ARGACTION_STORE_FALSE:
-- 
2.43.0


From 1febc22c1021c0a728f931fbc79ee1d6269bd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:23 +0000
Subject: [PATCH 089/131] fix: find no documents in a stream without documents

---
 src/VariantParsing.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index ba30b9c..91df3a3 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -346,6 +346,10 @@ namespace libvariant {
 		if (!value) {
 			if (!impl->parser.Done()) {
 				value = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
+				// a stream without documents
+				if (impl->parser.Done() && value->v.IsNull()) {
+					value.reset();
+				}
 			}
 		} else if (value->next) {
 			value = value->next;
-- 
2.43.0


From 6af89d9963160e59eeb71095a8813690f9f8d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:04 +0000
Subject: [PATCH 090/131] fix: quote empty strings in YAML

---
 src/YAMLEmitter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 45dd95e..e1231e1 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -331,7 +331,8 @@ namespace libvariant {
 		CheckInDocument();
 		yaml_event_t event;
 		// Not allowed to be plain if the parser would take it for another type
-		int plain = GuessIsNotString(v, length) ? 0 : 1;
+		// or nothing would be left to tell that there is a value
+		int plain = length == 0 || GuessIsNotString(v, length) ? 0 : 1;
 		if (yaml_scalar_event_initialize(&event, 0, 0, (yaml_char_t*)v, length, plain, 1,
 					(yaml_scalar_style_t)ANY_SCALAR_STYLE) == 0) {
 			throw std::runtime_error("Unable to initialize scalar event.");
-- 
2.43.0


From 8d99977d78490b197b94b4d8f69dd7b6f820801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:42 +0000
Subject: [PATCH 091/131] fix: do not read on in the middle of a YAML document
 after an error

---
 src/YAMLParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index e1f5236..80dfcc4 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -100,7 +100,7 @@ namespace libvariant {
 		while (loop && !eof && !action_stack.empty()) {
 			yaml_event_t event;
 			// After an error there are no more events
-			if (parser.error != YAML_NO_ERROR) {
+			if (err || parser.error != YAML_NO_ERROR) {
 				throw std::runtime_error(errorstr);
 			}
 			if (yaml_parser_parse(&parser, &event) == 0) {
-- 
2.43.0


From 1c37ba5a44053b9b3a87911bab145feda0aeb5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:19 +0000
Subject: [PATCH 092/131] fix: keep NUL characters of recorded and replayed
 strings

---
 src/EventBuffer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/EventBuffer.h b/src/EventBuffer.h
index b38a447..a06f9a9 100644
--- a/src/EventBuffer.h
+++ b/src/EventBuffer.h
@@ -8,6 +8,7 @@
 #include <Variant/Emitter.h>
 #include <Variant/Parser.h>
 #include <deque>
+#include <string.h>
 #include <iosfwd>
 namespace libvariant {
 
@@ -35,7 +36,7 @@ namespace libvariant {
 		virtual void Scalar(ParserImpl *p, const char *str, unsigned length, const char *anchor, const char *tag)
 		{
 			std::string v(str, length);
-		   	impl->Emit(v.c_str());
+		   	impl->Emit(v.c_str(), v.length());
 	   	}
 		virtual void Scalar(ParserImpl *p, bool v, const char *anchor, const char *tag) {
 		   	if (v) { impl->EmitTrue(); }
@@ -82,7 +83,7 @@ namespace libvariant {
 		struct Event {
 			Event(EventType_t t, Event *p) : type(t), parent(p), key(true) { val.len = 0; }
 
-			Event(Event *p, const char *str) : type(SCALAR_STRING), parent(p), s(str) {}
+			Event(Event *p, const char *str, unsigned len) : type(SCALAR_STRING), parent(p), s(str, len) {}
 			Event(Event *p, intmax_t v) : type(SCALAR_INT), parent(p) { val.i = v; }
 			Event(Event *p, uintmax_t v) : type(SCALAR_UINT), parent(p) { val.u = v; }
 			Event(Event *p, double v) : type(SCALAR_FLOAT), parent(p) { val.d = v; }
@@ -184,7 +185,8 @@ namespace libvariant {
 		virtual void EmitNull() { events.push_back(Event(SCALAR_NULL, ParentUpdate())); }
 		virtual void EmitTrue() { events.push_back(Event(ParentUpdate(), true)); }
 		virtual void EmitFalse() { events.push_back(Event(ParentUpdate(), false)); }
-		virtual void Emit(const char *v) { events.push_back(Event(ParentUpdate(), v)); }
+		virtual void Emit(const char *v) { Emit(v, strlen(v)); }
+		virtual void Emit(const char *v, unsigned len) { events.push_back(Event(ParentUpdate(), v, len)); }
 		virtual void Emit(intmax_t v) { events.push_back(Event(ParentUpdate(), v)); }
 		virtual void Emit(uintmax_t v) { events.push_back(Event(ParentUpdate(), v)); }
 		virtual void Emit(double v) { events.push_back(Event(ParentUpdate(), v)); }
-- 
2.43.0


From 03f6541569e63705787a57f45ee019ff95ab6406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:25 +0000
Subject: [PATCH 093/131] fix: initialize every member of recorded events

---
 src/EventBuffer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/EventBuffer.h b/src/EventBuffer.h
index a06f9a9..5dcb29f 100644
--- a/src/EventBuffer.h
+++ b/src/EventBuffer.h
@@ -83,12 +83,12 @@ namespace libvariant {
 		struct Event {
 			Event(EventType_t t, Event *p) : type(t), parent(p), key(true) { val.len = 0; }
 
-			Event(Event *p, const char *str, unsigned len) : type(SCALAR_STRING), parent(p), s(str, len) {}
-			Event(Event *p, intmax_t v) : type(SCALAR_INT), parent(p) { val.i = v; }
-			Event(Event *p, uintmax_t v) : type(SCALAR_UINT), parent(p) { val.u = v; }
-			Event(Event *p, double v) : type(SCALAR_FLOAT), parent(p) { val.d = v; }
-			Event(Event *p, bool v) : type(SCALAR_BOOL), parent(p) { val.b = v; }
-			Event(Event *p, ConstBlobPtr b) : type(SCALAR_BLOB), parent(p), blob(b) {}
+			Event(Event *p, const char *str, unsigned len) : type(SCALAR_STRING), parent(p), key(true), s(str, len) {}
+			Event(Event *p, intmax_t v) : type(SCALAR_INT), parent(p), key(true) { val.i = v; }
+			Event(Event *p, uintmax_t v) : type(SCALAR_UINT), parent(p), key(true) { val.u = v; }
+			Event(Event *p, double v) : type(SCALAR_FLOAT), parent(p), key(true) { val.d = v; }
+			Event(Event *p, bool v) : type(SCALAR_BOOL), parent(p), key(true) { val.b = v; }
+			Event(Event *p, ConstBlobPtr b) : type(SCALAR_BLOB), parent(p), key(true), blob(b) {}
 
 		private:
 			void Update() {
-- 
2.43.0


From de77c568276600726ab679c41f61156961710c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:19 +0000
Subject: [PATCH 094/131] fix: let copies of recorded events refer to their own
 containers

---
 src/EventBuffer.cc | 16 ++++++++++++++++
 src/EventBuffer.h  |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/EventBuffer.cc b/src/EventBuffer.cc
index 49503c1..d813d0f 100644
--- a/src/EventBuffer.cc
+++ b/src/EventBuffer.cc
@@ -8,6 +8,7 @@
 #include <ctype.h>
 #include <ostream>
 #include <limits>
+#include <map>
 
 namespace libvariant {
 
@@ -128,7 +129,22 @@ namespace libvariant {
 	EventBuffer::EventBuffer(const EventBuffer &eb)
 		: level(eb.level), events(eb.events)
 	{
+		// The parents are among our own events
+		std::map<const Event*, Event*> moved;
+		for (unsigned i = 0; i < events.size(); ++i) {
+			moved[&eb.events[i]] = &events[i];
+		}
+		for (unsigned i = 0; i < events.size(); ++i) {
+			std::map<const Event*, Event*>::const_iterator m(moved.find(events[i].parent));
+			events[i].parent = m == moved.end() ? 0 : m->second;
+		}
+	}
 
+	EventBuffer &EventBuffer::operator=(const EventBuffer &eb) {
+		EventBuffer copy(eb);
+		level = copy.level;
+		events.swap(copy.events);
+		return *this;
 	}
 
 	EventBuffer::~EventBuffer() {}
diff --git a/src/EventBuffer.h b/src/EventBuffer.h
index 5dcb29f..d16052b 100644
--- a/src/EventBuffer.h
+++ b/src/EventBuffer.h
@@ -150,6 +150,7 @@ namespace libvariant {
 
 		EventBuffer() : level(0) {}
 		EventBuffer(const EventBuffer &eb);
+		EventBuffer &operator=(const EventBuffer &eb);
 		virtual ~EventBuffer();
 
 		virtual void BeginDocument() {
-- 
2.43.0


From 1b69383abeec654279d511d98732c25b1c8a7219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:37 +0000
Subject: [PATCH 095/131] fix: compare the types of recorded events and the
 contents of blobs

---
 src/EventBuffer.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/EventBuffer.cc b/src/EventBuffer.cc
index d813d0f..872fd78 100644
--- a/src/EventBuffer.cc
+++ b/src/EventBuffer.cc
@@ -61,6 +61,12 @@ namespace libvariant {
 	}
 
 	bool EventBuffer::Event::operator==(const Event &o) const {
+		if (type != o.type) {
+			// Formats do not tell signed from unsigned integers
+			if (type == SCALAR_UINT && o.type == SCALAR_INT) { return o == *this; }
+			return type == SCALAR_INT && o.type == SCALAR_UINT &&
+				val.i >= 0 && uintmax_t(val.i) == o.val.u;
+		}
 		switch (type) {
 		case SCALAR_BOOL:
 			return  val.b == o.val.b;
@@ -72,8 +78,9 @@ namespace libvariant {
 			return val.i == o.val.i;
 		case SCALAR_UINT:
 			return val.u == o.val.u;
+		case SCALAR_BLOB:
+			return blob->Compare(o.blob) == 0;
 		default:
-			if (type != o.type) { return false; }
 			break;
 		}
 		return true;
-- 
2.43.0


From 754edb9106182dc98243830aa97b5c81e5bd05b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:33 +0000
Subject: [PATCH 096/131] fix: stop reading XML when the last action is removed
 at the document start

---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 6d7277d..6f0f115 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -144,7 +144,7 @@ namespace libvariant {
 		case RootNode:
 			statestack.push_back(nodetype);
 			action->BeginDocument(this);
-			return !empty_node;
+			return false;
 		case TrueNode:
 			if (!empty_node) { statestack.push_back(nodetype); }
 			else { action->Scalar(this, true, 0, 0); }
-- 
2.43.0


From fb773641e860d9b88f5c7b9796337be9be3bc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:20 +0000
Subject: [PATCH 097/131] fix: keep the old value when memory for a new one
 runs out

---
 src/Variant.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index cc45153..182ce4a 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1130,9 +1130,9 @@ namespace libvariant {
 		}
 
 		void StringInit(Data *that, const std::string &s) {
+			shared_ptr<StringStorage> storage(new StringStorage(s));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = StringVTable();
-			shared_ptr<StringStorage> storage(new StringStorage(s));
 			that->s = &storage->str;
 			that->storage = storage;
 		}
@@ -1272,9 +1272,9 @@ namespace libvariant {
 		}
 
 		void ListInit(Data *that, const Variant::List &l) {
+			shared_ptr<ListStorage> storage(new ListStorage(l));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = ListVTable();
-			shared_ptr<ListStorage> storage(new ListStorage(l));
 			that->l = storage.get();
 			that->storage = storage;
 		}
@@ -1398,9 +1398,9 @@ namespace libvariant {
 		}
 
 		void MapInit(Data *that, const Variant::Map &m) {
+			shared_ptr<MapStorage> storage(new MapStorage(m));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = MapVTable();
-			shared_ptr<MapStorage> storage(new MapStorage(m));
 			that->m = storage.get();
 			that->storage = storage;
 		}
@@ -1463,9 +1463,9 @@ namespace libvariant {
 		}
 
 		void BlobInit(Data *that, BlobPtr blob) {
+			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = BlobVTable();
-			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			that->blob = &storage->blob;
 			that->storage = storage;
 		}
-- 
2.43.0


From 1b11309722e2fde238734b688e07cea86baac654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:22 +0000
Subject: [PATCH 098/131] fix: release the data of a blob that could not be
 created

---
 src/Blob.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index c823296..5bfec12 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -17,11 +17,21 @@ namespace libvariant {
 	shared_ptr<Blob> Blob::Create(void *ptr, unsigned len, BlobFreeFunc ffunc, void *context)
 	{
 		struct iovec iov = { ptr, len };
-		return shared_ptr<Blob>(new Blob(&iov, 1, ffunc, context));
+		return Create(&iov, 1, ffunc, context);
 	}
 
 	BlobPtr Blob::Create(struct iovec *iov, unsigned iov_len, BlobFreeFunc ffunc, void *context) {
-		return BlobPtr(new Blob(iov, iov_len, ffunc, context));
+		Blob *blob = 0;
+		try {
+			blob = new Blob(iov, iov_len, ffunc, context);
+		} catch (...) {
+			// There is no blob to release the data later
+			if (ffunc) {
+				for (unsigned i = 0; i < iov_len; ++i) { ffunc(iov[i].iov_base, context); }
+			}
+			throw;
+		}
+		return BlobPtr(blob);
 	}
 
 	shared_ptr<Blob> Blob::CreateCopy(const void *ptr, unsigned len) {
@@ -48,7 +58,7 @@ namespace libvariant {
 			copied += iov[i].iov_len;
 		}
 		struct iovec v = { data, len };
-		return shared_ptr<Blob>(new Blob(&v, 1, MallocFree, 0));
+		return Create(&v, 1, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateFree(void *ptr, unsigned len) {
@@ -57,7 +67,7 @@ namespace libvariant {
 	}
 
 	BlobPtr Blob::CreateFree(struct iovec *iov, unsigned iov_len) {
-		return shared_ptr<Blob>(new Blob(iov, iov_len, MallocFree, 0));
+		return Create(iov, iov_len, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateReferenced(void *ptr, unsigned len) {
@@ -66,7 +76,7 @@ namespace libvariant {
 	}
 
 	BlobPtr Blob::CreateReferenced(struct iovec *iov, unsigned iov_len) {
-		return shared_ptr<Blob>(new Blob(iov, iov_len, 0, 0));
+		return Create(iov, iov_len, 0, 0);
 	}
 
 	Blob::Blob(struct iovec *v, unsigned l, BlobFreeFunc f, void *c)
-- 
2.43.0


From b069e2774c296bf9fb7ea020a230e36eabd746a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:24 +0000
Subject: [PATCH 099/131] fix: check the allocations of the JSON parser

---
 lib/json/JSON_parser.c | 50 ++++++++++++++++++++++++++++++------------
 src/JSONParser.cc      |  2 ++
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 30caa19..e08ff60 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -309,15 +309,22 @@ push(JSON_parser jc, int mode)
     jc->top += 1;
     if (jc->depth < 0) {
         if (jc->top >= jc->stack_capacity) {
-            size_t bytes_to_allocate;
-            jc->stack_capacity *= 2;
-            bytes_to_allocate = jc->stack_capacity * sizeof(jc->static_stack[0]);
+            size_t bytes_to_allocate = jc->stack_capacity * 2 * sizeof(jc->static_stack[0]);
+            signed char *stack;
             if (jc->stack == &jc->static_stack[0]) {
-                jc->stack = (signed char*)malloc(bytes_to_allocate);
-                memcpy(jc->stack, jc->static_stack, sizeof(jc->static_stack));
+                stack = (signed char*)malloc(bytes_to_allocate);
+                if (stack) {
+                    memcpy(stack, jc->static_stack, sizeof(jc->static_stack));
+                }
             } else {
-                jc->stack = (signed char*)realloc(jc->stack, bytes_to_allocate);
+                stack = (signed char*)realloc(jc->stack, bytes_to_allocate);
+            }
+            if (!stack) {
+                jc->top -= 1;
+                return false;
             }
+            jc->stack = stack;
+            jc->stack_capacity *= 2;
         }
     } else {
         if (jc->top >= jc->depth) {
@@ -390,6 +397,10 @@ new_JSON_parser(JSON_config* config)
     
     JSON_parser jc = malloc(sizeof(struct JSON_parser_struct));
     
+    if (!jc) {
+        return NULL;
+    }
+    
     memset(jc, 0, sizeof(*jc));
     
     
@@ -419,6 +430,10 @@ new_JSON_parser(JSON_config* config)
             jc->stack = &jc->static_stack[0];
         } else {
             jc->stack = (signed char*)malloc(jc->stack_capacity * sizeof(jc->static_stack[0]));
+            if (!jc->stack) {
+                free((void*)jc);
+                return NULL;
+            }
         }
     } else {
         jc->stack_capacity = COUNTOF(jc->static_stack);
@@ -446,22 +461,29 @@ new_JSON_parser(JSON_config* config)
     return jc;
 }
 
-static void grow_parse_buffer(JSON_parser jc)
+static int grow_parse_buffer(JSON_parser jc)
 {
-    size_t bytes_to_allocate;
-    jc->parse_buffer_capacity *= 2;
-    bytes_to_allocate = jc->parse_buffer_capacity * sizeof(jc->parse_buffer[0]);
+    size_t bytes_to_allocate = jc->parse_buffer_capacity * 2 * sizeof(jc->parse_buffer[0]);
+    char *parse_buffer;
     if (jc->parse_buffer == &jc->static_parse_buffer[0]) {
-        jc->parse_buffer = (char*)malloc(bytes_to_allocate);
-        memcpy(jc->parse_buffer, jc->static_parse_buffer, jc->parse_buffer_count);
+        parse_buffer = (char*)malloc(bytes_to_allocate);
+        if (parse_buffer) {
+            memcpy(parse_buffer, jc->static_parse_buffer, jc->parse_buffer_count);
+        }
     } else {
-        jc->parse_buffer = (char*)realloc(jc->parse_buffer, bytes_to_allocate);
+        parse_buffer = (char*)realloc(jc->parse_buffer, bytes_to_allocate);
     }
+    if (!parse_buffer) {
+        return false;
+    }
+    jc->parse_buffer = parse_buffer;
+    jc->parse_buffer_capacity *= 2;
+    return true;
 }
 
 #define parse_buffer_push_back_char(jc, c)\
     do {\
-        if (jc->parse_buffer_count + 1 >= jc->parse_buffer_capacity) grow_parse_buffer(jc);\
+        if (jc->parse_buffer_count + 1 >= jc->parse_buffer_capacity && !grow_parse_buffer(jc)) return false;\
         jc->parse_buffer[jc->parse_buffer_count++] = c;\
         jc->parse_buffer[jc->parse_buffer_count]   = 0;\
     } while (0)
diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 2e48a8b..e2b8a0e 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -18,6 +18,7 @@
  * \author John Bridgman
  */
 #include "JSONParser.h"
+#include <new>
 #include "BlobMagic.h"
 
 namespace libvariant {
@@ -129,6 +130,7 @@ namespace libvariant {
 		config.depth = -1;
 		config.allow_comments = 1;
 		parser = new_JSON_parser(&config);
+		if (!parser) { throw std::bad_alloc(); }
 	}
 
 	void JSONParserImpl::Parse() {
-- 
2.43.0


From acf8bc0eeb16488866f815165e2af4ce2008f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:37 +0000
Subject: [PATCH 100/131] fix: let building an exception run out of memory

---
 include/Variant/Exceptions.h | 22 +++++++++++-----------
 src/Exceptions.cc            | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/Variant/Exceptions.h b/include/Variant/Exceptions.h
index da59c28..45bb346 100644
--- a/include/Variant/Exceptions.h
+++ b/include/Variant/Exceptions.h
@@ -29,55 +29,55 @@ namespace libvariant {
 	/// \brief Exception thrown when a key does not exist.
 	class KeyError : public std::runtime_error {
 	public:
-		KeyError(const std::string &key) throw();
+		KeyError(const std::string &key);
 	};
 
 	/// \brief Exception thrown when internal state is corrupt.
 	class UnknownTypeError : public std::runtime_error {
 	public:
-		UnknownTypeError(VariantDefines::Type_t type) throw();
+		UnknownTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when a function expects a specific type but the action type conflicts.
 	class UnexpectedTypeError : public std::runtime_error {
 	public:
-		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw();
-		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value) throw();
+		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value);
+		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value);
 	};
 
 	/// \brief Exception thrown when a function cannot convert the Variant to an acceptable type for the routine.
 	class UnableToConvertError : public std::runtime_error {
 	public:
-		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype) throw();
+		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype);
 	};
 
 	/// \brief Exception thrown when trying to index a type other than map or list.
 	class TypeNotIndexableError : public std::runtime_error {
 	public:
-		TypeNotIndexableError(VariantDefines::Type_t type) throw();
+		TypeNotIndexableError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when attempting a numeric operation on a non numeric type.
 	class NotNumericTypeError : public std::runtime_error {
 	public:
-		NotNumericTypeError(VariantDefines::Type_t type) throw();
+		NotNumericTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown from path functions
 	class BadPathError : public std::runtime_error {
 	public:
-		BadPathError(VariantDefines::Type_t type) throw();
-		BadPathError(const std::string &msg) throw();
+		BadPathError(VariantDefines::Type_t type);
+		BadPathError(const std::string &msg);
 	};
 
 	class InvalidReferenceError : public std::runtime_error {
 	public:
-		InvalidReferenceError(const std::string &msg) throw();
+		InvalidReferenceError(const std::string &msg);
 	};
 
 	class InvalidOperationError : public std::runtime_error {
 	public:
-		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw();
+		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname);
 	};
 
 	std::ostream &operator <<(std::ostream &os, VariantDefines::Type_t type);
diff --git a/src/Exceptions.cc b/src/Exceptions.cc
index 2ffe4c2..061548f 100644
--- a/src/Exceptions.cc
+++ b/src/Exceptions.cc
@@ -73,7 +73,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type) throw()
+	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(UnknownTypeErrorMessage(type))
    	{}
 
@@ -96,12 +96,12 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw()
+	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
    	{}
 
 	UnexpectedTypeError::UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected,
-		   	VariantDefines::Type_t value) throw()
+		   	VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
 	{}
 
@@ -114,7 +114,7 @@ namespace libvariant {
 	}
 
 	UnableToConvertError::UnableToConvertError(VariantDefines::Type_t sourcetype,
-		   	const std::string &targettype) throw()
+		   	const std::string &targettype)
 		: std::runtime_error(UnableToConvertErrorMessage(sourcetype, targettype))
    	{}
 
@@ -125,7 +125,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type) throw()
+	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type)
 		: std::runtime_error(TypeNotIndexableErrorMessage(type))
    	{}
 
@@ -136,7 +136,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type) throw()
+	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(NotNumericTypeErrorMessage(type))
 	{}
 
@@ -147,7 +147,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	KeyError::KeyError(const std::string &key) throw()
+	KeyError::KeyError(const std::string &key)
 		: std::runtime_error(KeyErrorMessage(key))
 	{}
 
@@ -165,11 +165,11 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	BadPathError::BadPathError(VariantDefines::Type_t type) throw()
+	BadPathError::BadPathError(VariantDefines::Type_t type)
 		: std::runtime_error(BadPathErrorMessage(type))
 	{}
 
-	BadPathError::BadPathError(const std::string &msg) throw()
+	BadPathError::BadPathError(const std::string &msg)
 		: std::runtime_error(BadPathErrorMessage(msg))
 	{}
 
@@ -180,7 +180,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidReferenceError::InvalidReferenceError(const std::string &msg) throw()
+	InvalidReferenceError::InvalidReferenceError(const std::string &msg)
 		: std::runtime_error(InvalidReferenceErrorMessage(msg))
 	{}
 
@@ -192,7 +192,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw()
+	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname)
 		: std::runtime_error(InvalidOperationErrorMessage(type, opname))
 	{}
 }
-- 
2.43.0


From ccc8057b699520f0afa237212331d63eaa6aa28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:04 +0000
Subject: [PATCH 101/131] fix: do not drop the end of a text when memory runs
 out

---
 src/BundleHdrEmitter.cc | 3 +++
 src/Extensions.cc       | 4 ++++
 src/JSONEmitter.cc      | 3 +++
 src/Path.cc             | 1 +
 src/SchemaLoader.cc     | 1 +
 src/Variant.cc          | 3 +++
 src/XMLPLISTEmitter.cc  | 3 +++
 src/YAMLEmitter.cc      | 3 +++
 8 files changed, 21 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 995fe8a..68c1eda 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -95,18 +95,21 @@ namespace libvariant {
 
 	void BundleHdrEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
diff --git a/src/Extensions.cc b/src/Extensions.cc
index 8e50616..527c0f8 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -130,6 +130,7 @@ namespace libvariant {
 			} else {
 				for( unsigned i=0; i < var.Size(); ++i ) {
 					stringstream tmp;
+					tmp.exceptions(std::ios_base::badbit);
 					if ( prefix.size() ) {
 						tmp << prefix;
 					}
@@ -143,6 +144,7 @@ namespace libvariant {
 		case Variant::MapType:
 			for( Variant::ConstMapIterator i(var.MapBegin()), e(var.MapEnd()); i != e; ++i ) {
 				stringstream tmp;
+				tmp.exceptions(std::ios_base::badbit);
 				if ( prefix.size() ) {
 					tmp << prefix + params["pathDelimiter"].AsString();
 				} else {
@@ -191,6 +193,7 @@ namespace libvariant {
 
 		for ( Variant::MapIterator i(flat.MapBegin()), e(flat.MapEnd()); i != e; ++i ) {
 			stringstream tmp;
+			tmp.exceptions(std::ios_base::badbit);
 
 			switch (i->second.GetType()) {
 			case Variant::ListType:
@@ -615,6 +618,7 @@ namespace libvariant {
 
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
+		ret.exceptions(std::ios_base::badbit);
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index f302cae..06eaa88 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -115,6 +115,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(intmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -122,6 +123,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(uintmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -129,6 +131,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(double v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		if (strict && (std::isnan(v) || std::isinf(v))) {
 			throw std::runtime_error("JSONEmitter: The JSON specification does not permit"
 					" numeric types that cannot be represented as a series of digits.");
diff --git a/src/Path.cc b/src/Path.cc
index a9e344e..986fa88 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -89,6 +89,7 @@ namespace libvariant {
 	std::string PathString(const Path &path) {
 		if (path.empty()) { return "/"; }
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsString()) {
 				std::string fragment = i->AsString();
diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index ea353e5..ec5b33a 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -314,6 +314,7 @@ namespace libvariant {
 			}
 		}
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		for (std::vector<std::string>::iterator iv(output.begin()), ie(output.end()); iv != ie; ++iv) {
 			if (firstslash) {
 				oss << "/";
diff --git a/src/Variant.cc b/src/Variant.cc
index 182ce4a..adf5e6e 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -894,6 +894,7 @@ namespace libvariant {
 
 		std::string Integer::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.exceptions(std::ios_base::badbit);
 			oss << that->i;
 			return oss.str();
 		}
@@ -953,6 +954,7 @@ namespace libvariant {
 
 		std::string Unsigned::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.exceptions(std::ios_base::badbit);
 			oss << that->u;
 			return oss.str();
 		}
@@ -1014,6 +1016,7 @@ namespace libvariant {
 
 		std::string Float::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.exceptions(std::ios_base::badbit);
 			oss << that->f;
 			return oss.str();
 		}
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index ff60805..7d2772a 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -149,6 +149,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(intmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -157,6 +158,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(uintmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -165,6 +167,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(double v) {
 		StartElement(FLOAT_NAME);
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << std::setprecision(precision) << std::showpoint << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index e1231e1..94c45be 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -353,18 +353,21 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit);
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
-- 
2.43.0


From 643fbf8d0bf2ceebb9041aa56e81c58d40fd4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:14 +0000
Subject: [PATCH 102/131] fix: put back a value that could not be moved when
 memory runs out

---
 src/Extensions.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 527c0f8..329fbf8 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -545,15 +545,16 @@ namespace libvariant {
 		Operation_t op(OP_REMOVE, src);
 		try {
 			CheckMove(src, dst);
-			JSONPointerOp(op.pointer, v, op);
-			Variant data = op.value;
-			Path path = op.path;
+			Operation_t add(OP_ADD, dst);
 			try {
-				op = Operation_t(OP_ADD, dst);
-				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
+				add.value = op.value;
+				JSONPointerOp(add.pointer, v, add);
 			} catch (const std::exception &) {
-				Reinsert(v, path, data);
+				if (op.success && !add.success) {
+					Reinsert(v, op.path, op.value);
+					op = add;
+				}
 				throw;
 			}
 		} catch (const std::exception &e) {
-- 
2.43.0


From 311ce1bbdb7d5b32c67bfa02ab1687cc6230f9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:07 +0000
Subject: [PATCH 103/131] fix: release the YAML event when recording the error
 fails

---
 src/YAMLParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 80dfcc4..d780681 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -175,8 +175,8 @@ namespace libvariant {
 				}
 			} catch (...) {
 				err = true;
-				errorstr = "Exception from action...";
 				yaml_event_delete(&event);
+				errorstr = "Exception from action...";
 				throw;
 			}
 			yaml_event_delete(&event);
-- 
2.43.0


From 8c520dac07410c6bcb02d0490bd032a80274d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:49 +0000
Subject: [PATCH 104/131] fix: initialize the built-in schema once when several
 threads validate

Threads that created a SchemaLoader at the same time could each build the
built-in schema and destroy the one another thread was still using.
---
 src/SchemaLoader.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index ec5b33a..312f319 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -51,18 +51,11 @@ namespace libvariant {
 		Variant JSON_SCHEMA_SCHEMA;
 		std::string SCHEMA_URI;
 	};
-	shared_ptr<SchemaStaticData> schema_static_data;
 
 	SchemaStaticData *GetSchemaStaticData() {
-		// This is actually a race condition when multithreading is used, but
-		// every thread will write the same data, so this is "OK" as long as
-		// the CPU cache coherency is reasonable.
-		if (!schema_static_data.get()) {
-			shared_ptr<SchemaStaticData> new_schema_static_data;
-			new_schema_static_data.reset(new SchemaStaticData);
-			schema_static_data = new_schema_static_data;
-		}
-		return schema_static_data.get();
+		// Initialized by the first thread that gets here, others wait for it.
+		static SchemaStaticData schema_static_data;
+		return &schema_static_data;
 	}
 
 	SchemaLoader::SchemaLoader()
-- 
2.43.0


From 96e082922a6b275d4ac126c89a60723ce7ef539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:44 +0000
Subject: [PATCH 105/131] fix: let the strict parameter of the JSON emitter be
 set and read

---
 src/JSONEmitter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 06eaa88..bf18e59 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -179,6 +179,7 @@ namespace libvariant {
 
 	Variant JSONEmitterImpl::GetParam(const std::string &key) {
 		if (key == "pretty") { return pretty; }
+		if (key == "strict") { return strict; }
 		if (key == "indent") { return num_indent; }
 		if (key == "precision") { return numeric_precision; }
 		return Variant::NullType;
@@ -187,6 +188,7 @@ namespace libvariant {
 	Variant JSONEmitterImpl::GetParams() {
 		Variant ret;
 		ret["pretty"] = pretty;
+		ret["strict"] = strict;
 		ret["indent"] = num_indent;
 		ret["precision"] = numeric_precision;
 		return ret;
@@ -196,6 +198,9 @@ namespace libvariant {
 		if (key == "pretty") {
 			pretty = value.AsBool();
 		}
+		if (key == "strict") {
+			strict = value.AsBool();
+		}
 		if (key == "indent") {
 			num_indent = value.AsUnsigned();
 		}
-- 
2.43.0


From 239118526beb52e2ebb93733e8d9390fbfc0b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:06 +0000
Subject: [PATCH 106/131] fix: honour the precision given to a bundle header
 emitter when it is created

---
 src/BundleHdrEmitter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 68c1eda..07a4b62 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -19,6 +19,9 @@ namespace libvariant {
 		state(BHE_START),
 		numeric_precision(std::numeric_limits<double>::digits10+2)
    	{
+		if (params.IsMap()) {
+			params.GetInto(numeric_precision, "precision", numeric_precision);
+		}
 	}
 
 
-- 
2.43.0


From 79d4a104f98e0dd315c852a6557869d2837259fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:11 +0000
Subject: [PATCH 107/131] fix: report the styles a YAML emitter uses instead of
 fixed ones

---
 src/YAMLEmitter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 94c45be..75cfcfe 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -170,11 +170,11 @@ namespace libvariant {
 	Variant YAMLEmitterImpl::Config::GetParam(ConfigKeys index) {
 		switch (index) {
 		case SCALAR_STYLE:
-			return scalar_style_str[index];
+			return scalar_style_str[default_scalar_style];
 		case MAP_STYLE:
-			return style_str[index];
+			return style_str[default_map_style];
 		case LIST_STYLE:
-			return style_str[index];
+			return style_str[default_list_style];
 		case IMPLICIT_DOCUMENT_BEGIN:
 			return implicit_begin_document;
 		case IMPLICIT_DOCUMENT_END:
-- 
2.43.0


From ed0be8c99c3861fe131d93cb3d3c65468218382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:16 +0000
Subject: [PATCH 108/131] fix: write strings in the scalar_style given to a
 YAML emitter

---
 src/YAMLEmitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 75cfcfe..765ae13 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -334,7 +334,7 @@ namespace libvariant {
 		// or nothing would be left to tell that there is a value
 		int plain = length == 0 || GuessIsNotString(v, length) ? 0 : 1;
 		if (yaml_scalar_event_initialize(&event, 0, 0, (yaml_char_t*)v, length, plain, 1,
-					(yaml_scalar_style_t)ANY_SCALAR_STYLE) == 0) {
+					(yaml_scalar_style_t)conf.default_scalar_style) == 0) {
 			throw std::runtime_error("Unable to initialize scalar event.");
 		}
 		Emit(event);
-- 
2.43.0


From f18a34b2f09436607837c9a01964ed599103c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:21 +0000
Subject: [PATCH 109/131] fix: apply indent and width set on a YAML emitter
 after it was created

---
 src/YAMLEmitter.cc | 19 +++++++++++++------
 src/YAMLEmitter.h  |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 765ae13..c658d19 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -198,12 +198,7 @@ namespace libvariant {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
 		yaml_emitter_set_output(&emitter, &YAMLEmitterImpl::WriteHandler, this);
-		if (conf.indent > 0) {
-			yaml_emitter_set_indent(&emitter, conf.indent);
-		}
-		if (conf.width > 0) {
-			yaml_emitter_set_width(&emitter, conf.width);
-		}
+		UpdateParams();
 		try { EmitStreamStart(); }
 		catch (...) {
 			yaml_emitter_delete(&emitter);
@@ -424,10 +419,22 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::SetParam(const std::string &key, Variant value) {
 		conf.SetParam(key, value);
+		UpdateParams();
 	}
 
 	void YAMLEmitterImpl::SetParams(Variant params) {
 		conf.SetParams(params);
+		UpdateParams();
+	}
+
+	void YAMLEmitterImpl::UpdateParams() {
+		if (closed) return;
+		if (conf.indent > 0) {
+			yaml_emitter_set_indent(&emitter, conf.indent);
+		}
+		if (conf.width > 0) {
+			yaml_emitter_set_width(&emitter, conf.width);
+		}
 	}
 
 	void YAMLEmitterImpl::EmitStreamStart() {
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index 3de4a35..fa89078 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -140,6 +140,7 @@ namespace libvariant {
 	private:
 		static int WriteHandler(void *data, unsigned char *buffer, size_t size);
 		void HandleError();
+		void UpdateParams();
 		void EmitStreamStart();
 		void Emit(yaml_event_t &event);
 
-- 
2.43.0


From 6ed7149d51908a42cd29822caa3de0b43ea189bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:23 +0000
Subject: [PATCH 110/131] fix: indent pretty XML by the amount the indent
 parameter asks for

---
 src/XMLPLISTEmitter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 7d2772a..02f54c4 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -228,6 +228,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::UpdateParams() {
 		if (pretty) {
 			xmlTextWriterSetIndent(writer, indent);
+			xmlTextWriterSetIndentString(writer, BAD_CAST std::string(indent, ' ').c_str());
 		} else {
 			xmlTextWriterSetIndent(writer, 0);
 		}
-- 
2.43.0


From caba5149e1fa6fa23d9bd6029e4a0837f9d03677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:11 +0000
Subject: [PATCH 111/131] fix: report errors of varsh instead of ending with an
 uncaught exception

---
 src/varsh.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/varsh.cc b/src/varsh.cc
index 3595288..c4fe60d 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -98,7 +98,7 @@ void Process(State &state, ostream &out, istream &in) {
 	}
 }
 
-int main(int argc, char **argv) {
+int Main(int argc, char **argv) {
 	ArgParse opts(*argv);
 	opts.AddOption("schema_path", 0, "schema-path", "Add a search path for schemas.")
 		.Action(ARGACTION_APPEND).Type(ARGTYPE_STRING);
@@ -230,4 +230,12 @@ int main(int argc, char **argv) {
 	return 0;
 }
 
+int main(int argc, char **argv) {
+	try {
+		return Main(argc, argv);
+	} catch (const std::exception &e) {
+		cerr << *argv << ": " << e.what() << endl;
+	}
+	return 1;
+}
 
-- 
2.43.0


From b9462d9eb9ee7dae3ecdc7caf372619f24a90a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:17 +0000
Subject: [PATCH 112/131] fix: report input files varsh cannot open

---
 src/varsh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index c4fe60d..f5b6a6f 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -27,6 +27,7 @@
 #include <Variant/Extensions.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
 #include <unistd.h>
 #include <stdlib.h>
 
@@ -222,6 +223,9 @@ int Main(int argc, char **argv) {
 	if (state.conf.Contains("input")) {
 		for (Variant::ListIterator i(state.conf["input"].ListBegin()), e(state.conf["input"].ListEnd()); i != e; ++i) {
 			ifstream input(i->AsString().c_str());
+			if (!input) {
+				throw std::runtime_error("Unable to open " + i->AsString());
+			}
 			Process(state, *output, input);
 		}
 	} else {
-- 
2.43.0


From b0c3497299cf1c612788d0164bd516b28369e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:23 +0000
Subject: [PATCH 113/131] fix: report when varsh cannot write its output

---
 src/varsh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index f5b6a6f..fee6a54 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -231,6 +231,9 @@ int Main(int argc, char **argv) {
 	} else {
 		Process(state, *output, cin);
 	}
+	if (!output->flush()) {
+		throw std::runtime_error("Unable to write the output");
+	}
 	return 0;
 }
 
-- 
2.43.0


From cc29c6658587235713a499c86bb6844008bf61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:35 +0000
Subject: [PATCH 114/131] fix: end with a failure status after a command line
 that is not understood

---
 src/ArgParse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index f0cb53a..1f66825 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -414,7 +414,7 @@ namespace libvariant {
 		void Parse(int argc, char *const *argv);
 		Variant FormResult();
 
-		void PrintHelp(bool advanced) const;
+		void PrintHelp(bool advanced, int status = 0) const;
 		void PrintConfig();
 
 		void MergeDescription(Variant desc);
@@ -1000,9 +1000,9 @@ namespace libvariant {
 			while (true) {
 				int c = getopt_long(argc, argv, shortOpts.c_str(), &longOpts[0], 0);
 				if (c == -1) { break; }
-				if (c == '?') { PrintHelp(false); }
+				if (c == '?') { PrintHelp(false, 1); }
 				optmap_iter o = option_map.find(c);
-				if (o == option_map.end()) { PrintHelp(false); }
+				if (o == option_map.end()) { PrintHelp(false, 1); }
 				ArgParseOptImpl &opt = o->second;
 				opt.HandleOption(optarg);
 			}
@@ -1077,7 +1077,7 @@ namespace libvariant {
 		std::vector<const ArgParseOptImpl*> members;
 	};
 
-	void ArgParseImpl::PrintHelp(bool advanced) const {
+	void ArgParseImpl::PrintHelp(bool advanced, int status) const {
 		std::cerr << title << ": [options]";
 		for (const_arg_iter i(arguments.begin()), e(arguments.end()); i != e; ++i) {
 			const ArgParseOptImpl &arg = *GetOpt(*i);
@@ -1177,7 +1177,7 @@ namespace libvariant {
 		if (!epilog.empty()) {
 			std::cerr << "\n" << epilog << "\n" << std::endl;
 		}
-		exit(0);
+		exit(status);
 	}
 
 	void ArgParseImpl::PrintConfig() {
-- 
2.43.0


From 0784151c19a26c4fcc5224e9ff0e81ba9376fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:41 +0000
Subject: [PATCH 115/131] fix: let a YAML anchor be given again

An alias refers to the last node before it that has the anchor.
---
 src/VariantParsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 91df3a3..2e350f9 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -53,7 +53,7 @@ namespace libvariant {
 		{}
 
 		void Anchor(const char *anchor, Variant v) {
-			if (anchor) { anchors.insert(std::make_pair(std::string(anchor), v)); }
+			if (anchor) { anchors[anchor] = v; }
 		}
 
 		Variant Anchor(const char *anchor) {
-- 
2.43.0


From d3bdea1a196a6a357a699f4ee4403db6dd6e9eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:47 +0000
Subject: [PATCH 116/131] fix: keep the anchors of YAML keys

An alias to the anchor of a key was refused.
---
 src/VariantParsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 2e350f9..0c15ccb 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -172,6 +172,7 @@ namespace libvariant {
 
 		virtual void SetValue(ParserImpl *p, Variant v, const char *anchor) {
 			if (expect_key) {
+				state->Anchor(anchor, v);
 				key = v.AsString();
 				expect_key = false;
 			} else {
-- 
2.43.0


From 09d71f08dcd8e370eb7f4e985c4472ef0255aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:42:33 +0000
Subject: [PATCH 117/131] fix: name "properties" in the path of the error about
 it

An error about a wrong "properties" keyword carried the path of the
schema around it instead of the path of the keyword.
---
 src/Schema.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index 0bc3695..67cc796 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -305,6 +305,7 @@ namespace libvariant {
 		}
 		Variant properties = schema.Get("properties", Variant::MapType);
 		if (!properties.IsMap()) {
+			AutoSchemaPath spath(ctx, "properties");
 			ctx.AddSchemaError("\"properties\" must be an object");
 			properties = Variant::MapType;
 		}
-- 
2.43.0


From 610e5d0fcde4983b5700d1a1af8e0d6e62e67e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:07 +0000
Subject: [PATCH 118/131] fix: name "maxProperties" in the error about it

The error about a "maxProperties" that is not a number named
"minProperties".
---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 67cc796..54bdd95 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -398,7 +398,7 @@ namespace libvariant {
 					ctx.AddError(oss.str());
 				}
 			} else {
-				ctx.AddSchemaError("\"minProperties\" must be a number");
+				ctx.AddSchemaError("\"maxProperties\" must be a number");
 			}
 		}
 	}
-- 
2.43.0


From 078ca7c310b69945c39a534798eda68d44d00e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:33 +0000
Subject: [PATCH 119/131] fix: JSON parser reports Ok before its first step and
 between steps

---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index e2b8a0e..e37a4ef 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -205,7 +205,7 @@ namespace libvariant {
 	JSONParserImpl::Status_t JSONParserImpl::GetStatus() const { return status; }
 	bool JSONParserImpl::Done() const { return status == S_DONE; }
 	bool JSONParserImpl::Error() const { return status == S_ERROR; }
-	bool JSONParserImpl::Ok() const { return status == S_OK; }
+	bool JSONParserImpl::Ok() const { return status != S_ERROR && status != S_DONE; }
 
 	std::string JSONParserImpl::ErrorStr() const { return errorstr; }
 
-- 
2.43.0


From 6d03e13d06936ad394dcf40095022df5a9b283ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:37 +0000
Subject: [PATCH 120/131] fix: write numbers the same way in every locale

---
 src/BundleHdrEmitter.cc | 4 ++++
 src/JSONEmitter.cc      | 4 ++++
 src/XMLPLISTEmitter.cc  | 4 ++++
 src/YAMLEmitter.cc      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 07a4b62..30c32fe 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -3,6 +3,7 @@
  * \brief 
  */
 #include "BundleHdrEmitter.h"
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <stdexcept>
@@ -99,6 +100,7 @@ namespace libvariant {
 	void BundleHdrEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
@@ -106,6 +108,7 @@ namespace libvariant {
 	void BundleHdrEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
@@ -113,6 +116,7 @@ namespace libvariant {
 	void BundleHdrEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index bf18e59..2f77319 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -20,6 +20,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdexcept>
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <algorithm>
@@ -116,6 +117,7 @@ namespace libvariant {
 		CheckSeparator();
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -124,6 +126,7 @@ namespace libvariant {
 		CheckSeparator();
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -132,6 +135,7 @@ namespace libvariant {
 		CheckSeparator();
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		if (strict && (std::isnan(v) || std::isinf(v))) {
 			throw std::runtime_error("JSONEmitter: The JSON specification does not permit"
 					" numeric types that cannot be represented as a series of digits.");
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 02f54c4..02a1b74 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -21,6 +21,7 @@
 
 #include "XMLPLISTEmitter.h"
 #include <Variant/EmitterOutput.h>
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <limits>
@@ -150,6 +151,7 @@ namespace libvariant {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -159,6 +161,7 @@ namespace libvariant {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -168,6 +171,7 @@ namespace libvariant {
 		StartElement(FLOAT_NAME);
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << std::setprecision(precision) << std::showpoint << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index c658d19..f7c712b 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -21,6 +21,7 @@
  */
 #include "YAMLEmitter.h"
 #include <Variant/EmitterOutput.h>
+#include <locale>
 #include <sstream>
 #include <iomanip>
 #include <limits>
@@ -349,6 +350,7 @@ namespace libvariant {
 	void YAMLEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
@@ -356,6 +358,7 @@ namespace libvariant {
 	void YAMLEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
@@ -363,6 +366,7 @@ namespace libvariant {
 	void YAMLEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
-- 
2.43.0


From bd672abcb813e2ffe4c4ca368b9083b1cd3b3442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:44 +0000
Subject: [PATCH 121/131] fix: convert between numbers and strings the same way
 in every locale

---
 src/Variant.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Variant.cc b/src/Variant.cc
index adf5e6e..5c50a20 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -21,6 +21,7 @@
  */
 #include <Variant/Variant.h>
 #include "ParseBool.h"
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <string.h>
@@ -895,6 +896,7 @@ namespace libvariant {
 		std::string Integer::AsString(const Data *that) const {
 			std::ostringstream oss;
 			oss.exceptions(std::ios_base::badbit);
+			oss.imbue(std::locale::classic());
 			oss << that->i;
 			return oss.str();
 		}
@@ -955,6 +957,7 @@ namespace libvariant {
 		std::string Unsigned::AsString(const Data *that) const {
 			std::ostringstream oss;
 			oss.exceptions(std::ios_base::badbit);
+			oss.imbue(std::locale::classic());
 			oss << that->u;
 			return oss.str();
 		}
@@ -1017,6 +1020,7 @@ namespace libvariant {
 		std::string Float::AsString(const Data *that) const {
 			std::ostringstream oss;
 			oss.exceptions(std::ios_base::badbit);
+			oss.imbue(std::locale::classic());
 			oss << that->f;
 			return oss.str();
 		}
@@ -1087,6 +1091,7 @@ namespace libvariant {
 
 		long double String::AsLongDouble(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			long double val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "a float"); }
@@ -1095,6 +1100,7 @@ namespace libvariant {
 
 		uintmax_t String::AsUnsigned(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			uintmax_t val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "an unsigned"); }
@@ -1103,6 +1109,7 @@ namespace libvariant {
 
 		intmax_t String::AsInt(const Data *that) const {
 			std::istringstream iss(*that->s);
+			iss.imbue(std::locale::classic());
 			intmax_t val = 0;
 			iss >> val;
 			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "an int"); }
-- 
2.43.0


From a440228d0dd65049d9f06dd10d661c8f29a81c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:51 +0000
Subject: [PATCH 122/131] fix: write indices in paths and pointers the same way
 in every locale

---
 src/Extensions.cc | 3 +++
 src/Path.cc       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 329fbf8..c3435e7 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -19,6 +19,7 @@
  * \brief Useful extension functions for Variants
  */
 
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <Variant/Variant.h>
@@ -131,6 +132,7 @@ namespace libvariant {
 				for( unsigned i=0; i < var.Size(); ++i ) {
 					stringstream tmp;
 					tmp.exceptions(std::ios_base::badbit);
+					tmp.imbue(std::locale::classic());
 					if ( prefix.size() ) {
 						tmp << prefix;
 					}
@@ -620,6 +622,7 @@ namespace libvariant {
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
 		ret.exceptions(std::ios_base::badbit);
+		ret.imbue(std::locale::classic());
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
diff --git a/src/Path.cc b/src/Path.cc
index 986fa88..3e48323 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -3,6 +3,7 @@
  * \brief 
  */
 #include <Variant/Path.h>
+#include <locale>
 #include <sstream>
 
 namespace libvariant {
@@ -90,6 +91,7 @@ namespace libvariant {
 		if (path.empty()) { return "/"; }
 		std::ostringstream oss;
 		oss.exceptions(std::ios_base::badbit);
+		oss.imbue(std::locale::classic());
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsString()) {
 				std::string fragment = i->AsString();
-- 
2.43.0


From 55814fd22d919f0ae8d5d61564d96c71e5409f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:55 +0000
Subject: [PATCH 123/131] fix: read real numbers the same way in every locale

---
 src/GuessScalar.cc    |  3 ++-
 src/StringToDouble.h  | 21 +++++++++++++++++++++
 src/XMLPLISTParser.cc |  3 ++-
 3 files changed, 25 insertions(+), 2 deletions(-)
 create mode 100644 src/StringToDouble.h

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 647d7cf..56a8a57 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -3,6 +3,7 @@
  * \brief 
  */
 #include "GuessScalar.h"
+#include "StringToDouble.h"
 #include <stdlib.h>
 #include <regex.h>
 #include <errno.h>
@@ -97,7 +98,7 @@ namespace libvariant {
 				val = strtoull(&value[match[MATCH_INT16].rm_so], 0, 16);
 				action->Scalar(p, uintmax_t(val), anchor, tag);
 			} else if (match[MATCH_FLOAT].rm_so != -1) {
-				double val = strtod(&value[match[MATCH_FLOAT].rm_so], 0);
+				double val = StringToDouble(&value[match[MATCH_FLOAT].rm_so]);
 				action->Scalar(p, val, anchor, tag);
 			} else if (match[MATCH_INF].rm_so != -1) {
 				double val = std::numeric_limits<double>::infinity();
diff --git a/src/StringToDouble.h b/src/StringToDouble.h
new file mode 100644
index 0000000..bf8954a
--- /dev/null
+++ b/src/StringToDouble.h
@@ -0,0 +1,21 @@
+/** \file
+ * \brief Conversion of text to a double whatever the locale.
+ */
+#ifndef VARIANT_STRINGTODOUBLE_H
+#define VARIANT_STRINGTODOUBLE_H
+#pragma once
+#include <locale.h>
+#include <stdlib.h>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
+
+namespace libvariant {
+
+	/// strtod as in the "C" locale, in all formats the decimal point is a "."
+	inline double StringToDouble(const char *str) {
+		static const locale_t c_locale = newlocale(LC_NUMERIC_MASK, "C", (locale_t)0);
+		return strtod_l(str, 0, c_locale);
+	}
+}
+#endif
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 6f0f115..a6bc532 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -26,6 +26,7 @@
 #include <string.h>
 #include "XMLPLISTDefs.h"
 #include "Base64.h"
+#include "StringToDouble.h"
 
 namespace libvariant {
 
@@ -254,7 +255,7 @@ namespace libvariant {
 			}
 			break;
 		case FloatNode:
-			action->Scalar(this, strtod(value, 0), 0, 0);
+			action->Scalar(this, StringToDouble(value), 0, 0);
 			break;
 		case BlobNode:
 			{
-- 
2.43.0


From 4c6885815427333c8cfb98058f7e3a49751d1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:29 +0000
Subject: [PATCH 124/131] fix: reset getopt fully before a command line is read

A command line that was left in the middle of a word of short options made the
next one start there.
---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1f66825..6d025fa 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -996,7 +996,7 @@ namespace libvariant {
 				longOpts.push_back(tmp_option);
 			}
 
-			optind = 1; // Make sure getopt is in initial state
+			optind = 0; // Make sure getopt is in initial state
 			while (true) {
 				int c = getopt_long(argc, argv, shortOpts.c_str(), &longOpts[0], 0);
 				if (c == -1) { break; }
-- 
2.43.0


From b2455177d03caa4ab0c5923ac902d3a6beb86726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:34 +0000
Subject: [PATCH 125/131] fix: release a long chain of held documents without
 recursion

Holding the first iterator of a stream kept every later document in a chain
whose destructor recursed once for each.
---
 src/VariantParsing.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 0c15ccb..085f945 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -325,6 +325,16 @@ namespace libvariant {
 
 	struct LoadAllIterator::Value {
 		Value(Variant v_) :v(v_) {}
+		~Value() {
+			// release the documents that follow one after the other, however many they are
+			shared_ptr<Value> following;
+			following.swap(next);
+			while (following && following.use_count() == 1) {
+				shared_ptr<Value> rest;
+				rest.swap(following->next);
+				following.swap(rest);
+			}
+		}
 		Variant v;
 		shared_ptr<Value> next;
 	};
-- 
2.43.0


From cb475737ed2f215cb4151eab3d92447e528d6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:45 +0000
Subject: [PATCH 126/131] fix: find the program name through /proc/self/exe

readlink gives the length on success, not zero.
---
 src/ArgParse.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 6d025fa..2f237cd 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -918,8 +918,8 @@ namespace libvariant {
 
 			#if __linux__
 			if (!progname || !strlen(progname)) {
-				size_t bufsize = sizeof(buf);
-				if (0 == readlink("/proc/self/exe", buf, bufsize)) {
+				size_t bufsize = sizeof(buf) - 1;
+				if (0 < readlink("/proc/self/exe", buf, bufsize)) {
 					progname = buf;
 				}
 			}
-- 
2.43.0


From ad6e8f89fd9f8a2fa5f1a4a5d72aef13005e2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:32:57 +0000
Subject: [PATCH 127/131] fix: describe option keys that index into a list

The generated schema refused lists the parser itself produces, and exclusive
groups of such keys threw.
---
 src/ArgParse.cc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 2f237cd..3318170 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -878,11 +878,14 @@ namespace libvariant {
 				schema["required"].Append(i->AsString());
 				GroupSchema(schema["properties"][i->AsString()], opt, i+1, e);
 			} else if (i->IsNumber()) {
-				if (!schema.Contains("items")) { schema["items"] = Variant::ListType; }
-				if (schema["items"].Size() < i->AsUnsigned()) {
-					schema["items"].AsList().resize(i->AsUnsigned(), Variant::MapType);
-				}
-				GroupSchema(schema["items"][unsigned(i->AsUnsigned())], opt, i+1, e);
+				unsigned index = i->AsUnsigned();
+				Variant items = Variant::ListType;
+				while (items.Size() <= index) { items.Append(Variant::MapType); }
+				GroupSchema(items[index], opt, i+1, e);
+				// Elements that were passed over are null.
+				items[index]["not"] = Variant().Set("type", "null");
+				schema["items"] = items;
+				schema["minItems"] = index + 1;
 			}
 		} else {
 			schema = Variant::MapType;
@@ -1835,7 +1838,24 @@ namespace libvariant {
 		unsigned index = i->AsUnsigned();
 		if (!schema.Contains("type")) { schema["type"] = "array"; }
 		if (!schema.Contains("items")) { schema["items"] = Variant::ListType; }
-		GenerateSchema(schema["items"].At(index, Variant::MapType), i+1, e);
+		while (schema["items"].Size() <= index) { schema["items"].Append(Variant::MapType); }
+		VariantRef item = schema["items"][index];
+		bool first = item.Empty();
+		GenerateSchema(item, i+1, e);
+		// An element that is not given is null when a later one is given.
+		if (required) {
+			if (schema.Get("minItems", 0u) <= index) { schema["minItems"] = index + 1; }
+			if (item.Contains("type") && item["type"].IsList()) {
+				item["type"] = Variant(item["type"][0u]);
+			}
+		} else if (first) {
+			if (item.Contains("type")) {
+				Variant types = Variant::ListType;
+				types.Append(item["type"]).Append("null");
+				item["type"] = types;
+			}
+			if (item.Contains("enum")) { item["enum"].Append(Variant::NullType); }
+		}
 	}
 
 	Variant ArgParseOptImpl::GenerateSchema() const {
-- 
2.43.0


From 4d082904d4f75ede49a821933a6d792050daff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:02 +0000
Subject: [PATCH 128/131] fix: recognise plist element names in every locale

strcasecmp follows the locale, where the upper case of i need not be I.
---
 src/XMLPLISTParser.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index a6bc532..a1d5938 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -33,27 +33,27 @@ namespace libvariant {
 	XMLPLISTParserImpl::State_t XMLPLISTParserImpl::StringToNode(const char *name) {
 		if (!name) {
 			return StringNode;
-		} else if (strcasecmp(name, STRING_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST STRING_NAME) == 0) {
 			return StringNode;
-		} else if (strcasecmp(name, TRUE_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST TRUE_NAME) == 0) {
 			return TrueNode;
-		} else if (strcasecmp(name, ROOT_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST ROOT_NAME) == 0) {
 			return RootNode;
-		} else if (strcasecmp(name, LIST_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST LIST_NAME) == 0) {
 			return ListNode;
-		} else if (strcasecmp(name, FALSE_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST FALSE_NAME) == 0) {
 			return FalseNode;
-		} else if (strcasecmp(name, INTEGER_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST INTEGER_NAME) == 0) {
 			return IntegerNode;
-		} else if (strcasecmp(name, FLOAT_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST FLOAT_NAME) == 0) {
 			return FloatNode;
-		} else if (strcasecmp(name, NULL_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST NULL_NAME) == 0) {
 			return NullNode;
-		} else if (strcasecmp(name, MAP_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST MAP_NAME) == 0) {
 			return MapNode;
-		} else if (strcasecmp(name, KEY_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST KEY_NAME) == 0) {
 			return KeyNode;
-		} else if (strcasecmp(name, BLOB_NAME) == 0) {
+		} else if (xmlStrcasecmp(BAD_CAST name, BAD_CAST BLOB_NAME) == 0) {
 			return BlobNode;
 		} else {
 			return StringNode;
-- 
2.43.0


From fc01f2eb868cbed79cf503f00a72644337b8c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:59:18 +0000
Subject: [PATCH 129/131] fix: release the curl handle when one of its options
 is refused

---
 src/SchemaLoader.cc | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 312f319..1c2778e 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -528,15 +528,16 @@ namespace libvariant {
 				oss << "Unable to initialize curl to fetch uri: " << info.href;
 				throw std::runtime_error(oss.str());
 			}
-			CURLcode err = curl_easy_setopt(self, CURLOPT_NOSIGNAL, 1);
-			if (err != CURLE_OK) { Error(err); }
-			err = curl_easy_setopt(self, CURLOPT_WRITEFUNCTION, &CurlContextWrite);
-			if (err != CURLE_OK) { Error(err); }
-			err = curl_easy_setopt(self, CURLOPT_WRITEDATA, (void*)this);
-			if (err != CURLE_OK) { Error(err); }
 			uri = info.protocol + info.authority + info.pathname + info.search;
-			err = curl_easy_setopt(self, CURLOPT_URL, uri.c_str());
-			if (err != CURLE_OK) { Error(err); }
+			CURLcode err = curl_easy_setopt(self, CURLOPT_NOSIGNAL, 1);
+			if (err == CURLE_OK) { err = curl_easy_setopt(self, CURLOPT_WRITEFUNCTION, &CurlContextWrite); }
+			if (err == CURLE_OK) { err = curl_easy_setopt(self, CURLOPT_WRITEDATA, (void*)this); }
+			if (err == CURLE_OK) { err = curl_easy_setopt(self, CURLOPT_URL, uri.c_str()); }
+			if (err != CURLE_OK) {
+				// The destructor is not called
+				curl_easy_cleanup(self);
+				Error(err);
+			}
 		}
 
 		~CurlContext() {
-- 
2.43.0


From 3ab42343c10f11b30232e25b17c33f979b09a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:59:23 +0000
Subject: [PATCH 130/131] fix: do not touch the first byte of an empty answer

---
 src/SchemaLoader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 1c2778e..1b049ff 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -575,7 +575,8 @@ namespace libvariant {
 		try {
 			CurlContext ctx(info);
 			ctx.Perform();
-			AddSchema(ctx.uri, DeserializeGuess(&ctx.data_buff[0], ctx.data_buff.size()));
+			std::string data(ctx.data_buff.begin(), ctx.data_buff.end());
+			AddSchema(ctx.uri, DeserializeGuess(data));
 			return true;
 		} catch (const std::exception &e) {
 			error.AddError(info.href, e.what());
-- 
2.43.0


From 1fc44423d70fe265ce70239154d14bc8225d15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:59:31 +0000
Subject: [PATCH 131/131] fix: refuse to merge an option without a key

---
 src/ArgParse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 3318170..add1540 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -385,6 +385,9 @@ namespace libvariant {
 		}
 
 		int CheckExisting(const Path &path, int &shortOpt, const std::string &longOpt) {
+			if (path.empty()) {
+				throw std::runtime_error("ArgParse: Error attempting to add an option without a key.");
+			}
 			if (paths.find(PathString(path)) != paths.end()) {
 				std::ostringstream oss;
 				oss << "ArgParse option key \"" << PathString(path) << "\" already exists in options.";
-- 
2.43.0

