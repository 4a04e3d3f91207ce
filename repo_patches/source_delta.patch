From d7553d3b4282c32cf035d978a15e4cf40ddee68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 01/52] fix: concatenation with an operand matching the empty
 string dropped lhs matches

a += b, where the initial state of b is final (an empty group, x{0}, a
default Fsm, a canonized y*), did not accept the words of a itself.
---
 pire/fsm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d3dc599..dfd1209 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -485,7 +485,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 				outputs[final].insert(ymake_pair(toAndOutput.first + lhsSize, toAndOutput.second));
 		}
 
-	ClearFinal();
+	// If rhs matches an empty string, states that were final in lhs remain final
+	if (!rhs.IsFinal(rhs.initial))
+		ClearFinal();
 	for (auto&& letter : rhs.m_final)
 		SetFinal(letter + lhsSize, true);
 	determined = false;
-- 
2.43.0


From b24017570bb886c0ab335418c6fcee22fcb55856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 02/52] fix: RemoveDeadEnds/MakeSuffix/MakePrefix left a stale
 'determined' flag

Applied to a determined Fsm they make it incomplete or nondeterministic,
and the following Canonize()/Compile() failed an assertion or produced a
wrong automaton.
---
 pire/fsm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index dfd1209..d431114 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -597,6 +597,7 @@ void Fsm::MakeSuffix()
 	for (size_t i = 0; i < Size(); ++i)
 		if (i != initial)
 			Connect(initial, i);
+	determined = false;
 	ClearHints();
 }
 	
@@ -707,6 +708,9 @@ void Fsm::RemoveDeadEnds()
 			for (auto&& k : j)
 				k.second.erase(i);
 	}
+	// The transition table may be incomplete now
+	if (!dead.empty())
+		determined = false;
 	ClearHints();
 
 	PIRE_IFDEBUG(Cdbg << "Result:" << Endl << *this << Endl);
-- 
2.43.0


From 4728bda20f6eed3dd9ca1806f6410d26f3addbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 03/52] fix: Append*() on an Fsm with collapsed letter classes
 produced a wrong language

After Complement()/Canonize() transitions are stored for representatives of
letter classes only, so appending to such Fsm made every letter of the class
act as the appended one.
---
 pire/fsm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d431114..9931423 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -272,6 +272,8 @@ void Fsm::SetFinal(size_t state, bool final)
 
 Fsm& Fsm::AppendDot()
 {
+	if (m_sparsed)
+		Unsparse();
 	Resize(Size() + 1);
 	for (size_t letter = 0; letter != (1 << (sizeof(char)*8)); ++letter)
 		ConnectFinal(Size() - 1, letter);
@@ -283,6 +285,8 @@ Fsm& Fsm::AppendDot()
 
 Fsm& Fsm::Append(char c)
 {
+	if (m_sparsed)
+		Unsparse();
 	Resize(Size() + 1);
 	ConnectFinal(Size() - 1, static_cast<unsigned char>(c));
 	ClearFinal();
@@ -300,6 +304,8 @@ Fsm& Fsm::Append(const ystring& str)
 
 Fsm& Fsm::AppendSpecial(Char c)
 {
+	if (m_sparsed)
+		Unsparse();
 	Resize(Size() + 1);
 	ConnectFinal(Size() - 1, c);
 	ClearFinal();
@@ -314,6 +320,8 @@ Fsm& Fsm::AppendStrings(const TVector<ystring>& strings)
 		if (i.empty())
 			throw Error("None of strings passed to appendStrings() can be empty");
 
+	if (m_sparsed)
+		Unsparse();
 	Resize(Size() + 1);
 	size_t end = Size() - 1;
 
-- 
2.43.0


From 27e191c2870af90e985b5fbbec21123de7beba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 04/52] fix: Fsm::Import() left the Fsm marked as having
 collapsed letter classes

Import() unpacks the letters, but Destinations()/Connected() still tried to
translate letters through the now empty classes table.
---
 pire/fsm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 9931423..f6e5984 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -433,6 +433,7 @@ void Fsm::Import(const Fsm& rhs)
 		tags.insert(ymake_pair(tag.first + oldsize, tag.second));
 
 	letters = LettersTbl(LettersEquality(m_transitions));
+	m_sparsed = false; // all letters have been unpacked above
 }
 
 void Fsm::Connect(size_t from, size_t to, Char c /* = Epsilon */)
-- 
2.43.0


From daae8edc8ccdc0df24dfec6adb13eb6d17917834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 05/52] fix: Fsm::Swap() did not swap the state of the letter
 classes table

---
 pire/fsm.cpp            | 3 +++
 pire/half_final_fsm.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index f6e5984..9efc40f 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -256,6 +256,7 @@ void Fsm::Swap(Fsm& fsm)
 	DoSwap(initial, fsm.initial);
 	DoSwap(m_final, fsm.m_final);
 	DoSwap(letters, fsm.letters);
+	DoSwap(m_sparsed, fsm.m_sparsed);
 	DoSwap(determined, fsm.determined);
 	DoSwap(outputs, fsm.outputs);
 	DoSwap(tags, fsm.tags);
@@ -615,6 +616,7 @@ Fsm& Fsm::Reverse()
 	Fsm out;
 	out.Resize(Size() + 1);
 	out.letters = Letters();
+	out.m_sparsed = m_sparsed;
 
 	// Invert transitions
 	for (size_t from = 0; from < Size(); ++from)
@@ -934,6 +936,7 @@ public:
 		mNewFsm.initial = 0;
 		mNewFsm.determined = true;
 		mNewFsm.letters = Letters();
+		mNewFsm.m_sparsed = true;
 		mNewFsm.m_final.clear();
 		for (size_t ns = 0; ns < states.size(); ++ns) {
 			PIRE_IFDEBUG(Cdbg << "State " << ns << " = [" << Join(states[ns].begin(), states[ns].end(), ", ") << "]" << Endl);
diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e45d03b..aa1f05a 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -274,6 +274,7 @@ namespace Pire {
 				mNewFsm.SetInitial(0);
 				mNewFsm.SetIsDetermined(true);
 				mNewFsm.letters = Letters();
+				mNewFsm.m_sparsed = true;
 				mNewFsm.ClearFinal();
 				for (size_t i = 0; i < newStates.size(); i++) {
 					newStates[i].CopyData(mNewFsm, i);
-- 
2.43.0


From 7ba19da797784e90c8e077e6fd0f337c4d784283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 06/52] fix: f += f and f |= f read the operand while modifying
 it

---
 pire/fsm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 9efc40f..59e369e 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -479,6 +479,9 @@ unsigned long Fsm::Output(size_t from, size_t to) const
 
 Fsm& Fsm::operator += (const Fsm& rhs)
 {
+	if (this == &rhs)
+		return *this += Fsm(rhs);
+
 	size_t lhsSize = Size();
 	Import(rhs);
 
@@ -510,6 +513,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 
 Fsm& Fsm::operator |= (const Fsm& rhs)
 {
+	if (this == &rhs)
+		return *this |= Fsm(rhs);
+
 	size_t lhsSize = Size();
 
 	Import(rhs);
-- 
2.43.0


From c481c5fc83380c8cc46c5f87660ff29e465dba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 07/52] fix: ShortestSuffix() with throughBeginMark missed an
 already found suffix

The begin mark was fed to the scanner even when it had stopped in a final
state, unlike in ShortestPrefix().
---
 pire/run.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/run.h b/pire/run.h
index d359ed2..c8e5b8a 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -356,7 +356,7 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 		scanner.Next(state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
-	if (throughBeginMark)
+	if (throughBeginMark && !scanner.Final(state))
 		Step(scanner, state, BeginMark);
 	return scanner.Final(state) ? rbegin : 0;
 }
-- 
2.43.0


From fc2d3ca1c47c65d0552cf9b1981479532e5a628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 08/52] fix: LongestPrefix() was too short when shortcutting
 ended in the middle of text

Bytes skipped by exit masks were not reported to the predicate, so for a
final state the end position of the match was stale.
---
 pire/scanners/multi.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 417e580..58ad4a1 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -984,6 +984,11 @@ public:
 			// Do fast forwarding while it is possible
 			const Word* skipEnd = Shortcutting::Run(scanner, state, alignOffset, head, tail);
 			PIRE_IF_CHECKED(ValidateSkip(scanner, state, (const char*)head, (const char*)skipEnd));
+			// The state hasn't changed, but the predicate has to know the new position
+			if (skipEnd != head && pred(scanner, state, (const char*)skipEnd) == Stop) {
+				st = state;
+				return Stop;
+			}
 			head = skipEnd;
 			noShortcut = true;
 		}
-- 
2.43.0


From 8fddfc5f0398744557e59563204f795ed3ba705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 09/52] fix: Mmap() of an empty Simple/SlowScanner kept the
 previous contents

Also, Mmap() and Load() of an empty scanner made SlowScanner forget whether
it needs actions, which broke the following Mmap()/Load().
---
 pire/scanner_io.cpp    | 3 ++-
 pire/scanners/simple.h | 6 +++---
 pire/scanners/slow.h   | 3 ++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 4f4256d..b6d5e92 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -118,10 +118,11 @@ void SlowScanner::Load(yistream* s)
 	bool empty;
 	LoadPodType(s, empty);
 	Impl::AlignLoad(s, sizeof(empty));
-	sc.need_actions = need_actions;
 	if (empty) {
 		sc.Alias(Null());
+		sc.need_actions = need_actions;
 	} else {
+		sc.need_actions = need_actions;
 		sc.m_vec.resize(sc.m.lettersCount * sc.m.statesCount);
 		if (sc.need_actions)
 			sc.m_actionsvec.resize(sc.m.lettersCount * sc.m.statesCount);
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 9297ca5..ae502a4 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -144,10 +144,10 @@ public:
 				throw Error("EOF reached while mapping NPire::Scanner");
 			s.Markup(const_cast<size_t*>(p));
 			s.m.initial += reinterpret_cast<size_t>(s.m_transitions);
-
-			Swap(s);
-			Impl::AdvancePtr(p, size, BufSize());
+			Impl::AdvancePtr(p, size, s.BufSize());
 		}
+
+		Swap(s);
 		return Impl::AlignPtr(p, size);
 	}
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 1669389..299c493 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -195,8 +195,9 @@ public:
 			Impl::MapPtr(s.m_jumps, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
-			Swap(s);
 		}
+		s.need_actions = need_actions;
+		Swap(s);
 		return (const void*) p;
 	}
 
-- 
2.43.0


From b0bfae312360706e9bfbbe4eafe1347f0b91620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 10/52] fix: Save() of an mmapped scanner crashed

It relied on the buffer which only in-memory scanners own.
---
 pire/scanner_io.cpp   | 16 +++++++++++-----
 pire/scanners/multi.h |  2 +-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index b6d5e92..2c8bded 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -42,10 +42,8 @@ void SimpleScanner::Save(yostream* s) const
 	Impl::AlignSave(s, sizeof(mc));
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
-	if (!Empty()) {
-		Y_ASSERT(m_buffer);
-		Impl::AlignedSaveArray(s, m_buffer.get(), BufSize());
-	}
+	if (!Empty())
+		Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(m_transitions), BufSize());
 }
 
 void SimpleScanner::Load(yistream* s)
@@ -77,10 +75,18 @@ void SlowScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(!m_vec.empty());
 		Impl::AlignedSaveArray(s, m_letters, MaxChar);
 		Impl::AlignedSaveArray(s, m_finals, m.statesCount);
 
+		if (IsMmaped()) {
+			const size_t jumps = m_jumpPos[m.statesCount * m.lettersCount];
+			Impl::AlignedSaveArray(s, m_jumpPos, m.statesCount * m.lettersCount + 1);
+			Impl::AlignedSaveArray(s, m_jumps, jumps);
+			if (need_actions)
+				Impl::AlignedSaveArray(s, m_actions, jumps);
+			return;
+		}
+
 		size_t c = 0;
 		SavePodType<size_t>(s, 0);
 		for (auto&& i : m_vec) {
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 58ad4a1..7c428c3 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -569,7 +569,7 @@ struct ScannerSaver {
 		SavePodType(s, scanner.Empty());
 		Impl::AlignSave(s, sizeof(scanner.Empty()));
 		if (!scanner.Empty())
-			Impl::AlignedSaveArray(s, scanner.m_buffer.get(), scanner.BufSize());
+			Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(scanner.m_letters), scanner.BufSize());
 	}
 
 	template<class Shortcutting>
-- 
2.43.0


From 440b7fa597b9096a7de92a50de7b94920ca51585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 11/52] fix: a copy of an empty SlowScanner crashed when run

---
 pire/scanners/slow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 299c493..80987e9 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -236,7 +236,7 @@ public:
 			m_actions = s.m_actions;
 			m_jumpPos = s.m_jumpPos;
 			m_letters = s.m_letters;
-			m_vecptr = 0;
+			m_vecptr = s.m_vecptr;
 		} else {
 			// In-memory scanner, perform deep copy
 			alloc(m_letters, MaxChar);
-- 
2.43.0


From 289b8abc22db59abdbdb6ac47804de30f7383061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 12/52] fix: a Lexer could not be reused after a lexical error

Parse() of a new correct pattern reported the error of the previous one.
---
 pire/re_lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 33acf42..8e597db 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -378,6 +378,7 @@ void Lexer::InstallDefaultFeatures()
 
 Fsm Lexer::Parse()
 {
+	m_errmsg.clear();
 	if (!Impl::yre_parse(*this))
 		return m_retval.As<Fsm>();
 	else {
-- 
2.43.0


From 7abfe77adfba7b68aae6f6eaa98e41e72579b28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 13/52] fix: reversed or overflowing repetition counts are
 rejected

a{3,2} made the parser loop until memory was exhausted, and a{4294967295}
was silently taken for a{,Inf} due to an integer overflow.
---
 pire/re_lexer.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 8e597db..3899c99 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -25,6 +25,7 @@
 #include "stub/utf8.h"
 #include "stub/singleton.h"
 #include <stdexcept>
+#include <limits>
 #include "re_lexer.h"
 #include "re_parser.h"
 #include "read_unicode.h"
@@ -298,8 +299,7 @@ namespace {
 			if (!is_digit(ch))
 				Error("Wrong repetition count");
 
-			for (; is_digit(ch); ch = GetChar())
-				lower = lower * 10 + (ch - '0');
+			lower = ReadCount(ch);
 			if (ch == '}')
 				return Term::Repetition(lower, lower);
 			else if (ch != ',')
@@ -310,13 +310,25 @@ namespace {
 				return Term::Repetition(lower, Inf);
 			else if (!is_digit(ch))
 				Error("Wrong repetition count");
-			for (; is_digit(ch); ch = GetChar())
-				upper = upper * 10 + (ch - '0');
+			upper = ReadCount(ch);
 
-			if (ch != '}')
+			if (ch != '}' || upper < lower)
 				Error("Wrong repetition count");
 			return Term::Repetition(lower, upper);
 		}
+
+	private:
+		int ReadCount(wchar32& ch)
+		{
+			int count = 0;
+			for (; is_digit(ch); ch = GetChar()) {
+				int digit = ch - '0';
+				if (count > (std::numeric_limits<int>::max() - digit) / 10)
+					Error("Wrong repetition count");
+				count = count * 10 + digit;
+			}
+			return count;
+		}
 	};
 
 	class CaseInsensitiveImpl: public Feature {
-- 
2.43.0


From c24a5f782ad294b9a301b2fb03c463aecced2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 14/52] fix: Unsparse() of an already unpacked Fsm undid
 modifications made since

---
 pire/fsm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 59e369e..f86e8ee 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -872,6 +872,8 @@ void Fsm::Sparse(bool needEpsilons /* = false */)
 
 void Fsm::Unsparse()
 {
+	if (!m_sparsed)
+		return; // transitions of equivalent letters might have diverged since the previous call
 	for (auto&& letter : letters)
 		for (auto&& i : m_transitions)
 			for (auto&& j : letter.second.second)
-- 
2.43.0


From e9e8fc092574418d9d2c0555fdcc8660cf435f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:09 +0000
Subject: [PATCH 15/52] fix: Mmap() of a truncated buffer could read past its
 end

Skipped padding was not accounted for (it was counted in words), and
presence of the 'empty' flag was not checked at all.
---
 pire/align.h           | 5 +++--
 pire/scanners/common.h | 2 ++
 pire/scanners/multi.h  | 5 +++--
 pire/scanners/simple.h | 5 +++--
 pire/scanners/slow.h   | 5 +++--
 5 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pire/align.h b/pire/align.h
index 3c10b48..560c1f8 100644
--- a/pire/align.h
+++ b/pire/align.h
@@ -87,9 +87,10 @@ namespace Pire {
 		{
 			if (!IsAligned(p, sizeof(size_t))) {
 				const size_t* next = AlignUp(p, sizeof(size_t));
-				if (next > p+size)
+				size_t tail = (const char*) next - (const char*) p;
+				if (tail > size)
 					throw Error("EOF reached in NPire::Impl::align");
-				size -= (next - p);
+				size -= tail;
 				p = next;
 			}
 			return (const void*) p;
diff --git a/pire/scanners/common.h b/pire/scanners/common.h
index f01658d..feee2ab 100644
--- a/pire/scanners/common.h
+++ b/pire/scanners/common.h
@@ -80,6 +80,8 @@ namespace Pire {
 	namespace Impl {
 		inline const void* AdvancePtr(const size_t*& ptr, size_t& size, size_t delta)
 		{
+			if (size < delta)
+				throw Error("EOF reached while mapping Pire::Scanner");
 			ptr = (const size_t*) ((const char*) ptr + delta);
 			size -= delta;
 			return (const void*) ptr;
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 7c428c3..97831bd 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -260,8 +260,9 @@ public:
 		if (Shortcutting::Signature != s.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
+		const bool* emptyPtr = (const bool*) p;
+		Impl::AdvancePtr(p, size, sizeof(bool));
+		bool empty = *emptyPtr;
 		Impl::AlignPtr(p, size);
 		
 		if (empty)
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index ae502a4..0d2f44e 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -133,8 +133,9 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(s.m));
 		Impl::AlignPtr(p, size);
 
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
+		const bool* emptyPtr = (const bool*) p;
+		Impl::AdvancePtr(p, size, sizeof(bool));
+		bool empty = *emptyPtr;
 		Impl::AlignPtr(p, size);
 		
 		if (empty)
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 80987e9..98b44d5 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -181,8 +181,9 @@ public:
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
+		const bool* emptyPtr = (const bool*) p;
+		Impl::AdvancePtr(p, size, sizeof(bool));
+		bool empty = *emptyPtr;
 		Impl::AlignPtr(p, size);
 		
 		if (empty)
-- 
2.43.0


From 340e5f900febc2fefdb890b469fd21c0c4b668cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 16/52] fix: Load() from a truncated stream silently produced a
 broken scanner

Unless the stream itself throws on EOF, failed reads were ignored.
---
 pire/stub/saveload.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index eb9744f..cf6b91f 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -150,6 +150,8 @@ namespace Pire {
 	void LoadPodType(yistream* s, T& t)
 	{
 		s->read((char*) &t, sizeof(t));
+		if (!*s)
+			throw Error("EOF reached while loading Pire::Scanner");
 	}
 	template<class T>
 	void Save(yostream* s, const T& t) { t.Save(s);}
@@ -167,6 +169,8 @@ namespace Pire {
 	void LoadPodArray(yistream* s, T* t, size_t len)
 	{
 		s->read((char*) t, len * sizeof(*t));
+		if (!*s)
+			throw Error("EOF reached while loading Pire::Scanner");
 	}
 };
 
-- 
2.43.0


From 973e3583dbd0253a6d0f2c1a0d4c5dd358c49a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 17/52] fix: NoGlueLimitCountingScanner::Load() kept actions
 and compatibility mode of the previous contents

---
 pire/extra/count.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 270d9b3..c408339 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1021,7 +1021,8 @@ void NoGlueLimitCountingScanner::Load(yistream* s) {
 	ui32 type;
 	LoadedScanner::Load(s, &type);
 	ActionIndex actionsSize;
-	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
+	AdvancedScannerCompatibilityMode = (type != ScannerIOTypes::NoGlueLimitCountingScanner);
+	if (!AdvancedScannerCompatibilityMode) {
 		LoadPodType(s, actionsSize);
 
 		if (actionsSize == 0) {
@@ -1035,7 +1036,8 @@ void NoGlueLimitCountingScanner::Load(yistream* s) {
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-		AdvancedScannerCompatibilityMode = true;
+		ActionsBuffer.reset();
+		Actions = nullptr;
 	}
 }
 
-- 
2.43.0


From 7d0f373469d368a23de6f8078cc1eb748f2c6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 18/52] fix: NoGlueLimitCountingScanner::Mmap() did not check
 the size of the actions table

---
 pire/extra/count.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index c408339..5849877 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1047,7 +1047,10 @@ const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
 	auto p = static_cast<const size_t*> (scanner.LoadedScanner::Mmap(ptr, size, &type));
 
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
+		size -= reinterpret_cast<const char*>(p) - static_cast<const char*>(ptr);
 		scanner.Actions = reinterpret_cast<const ActionIndex*>(p);
+		if (size < sizeof(ActionIndex) || size / sizeof(ActionIndex) < *scanner.Actions)
+			throw Error("EOF reached while mapping Pire::NoGlueLimitCountingScanner");
 		if (*scanner.Actions == 0) {
 			scanner.Actions = nullptr;
 			Impl::AdvancePtr(p, size, sizeof(ActionIndex));
-- 
2.43.0


From e6d08342ec21235f00db58d651b338b6f4cd5ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 19/52] fix: UTF-8 AppendDot() on an Fsm with collapsed letter
 classes

---
 pire/encoding.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/encoding.cpp b/pire/encoding.cpp
index 5726096..6f9547d 100644
--- a/pire/encoding.cpp
+++ b/pire/encoding.cpp
@@ -98,6 +98,7 @@ namespace {
 
 		void AppendDot(Fsm& fsm) const
 		{
+			fsm.Unsparse();
 			size_t last = fsm.Resize(fsm.Size() + UtfRanges::MaxLen);
 			for (size_t i = 0; i < UtfRanges::MaxLen; ++i)
 				for (size_t letter = UtfRanges::First[i][0]; letter < UtfRanges::First[i][1]; ++letter)
-- 
2.43.0


From c0d4e8ecb84263420c31299bfe377879ac816255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 20/52] fix: pire_inline misparsed string escapes (octal/hex,
 strings ending in an escaped backslash)

---
 pire/inline.lpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 174d2e3..1e5cb8b 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -80,12 +80,12 @@ void eatComment(void (*action)(char));
 <INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
 <Regexp>"//".*\n         { ++line; }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"]|\\.)*"\""     { fprintf(yyout, "%s", yytext); }
+"\""([^\"\\]|\\(.|\n))*"\""   { fprintf(yyout, "%s", yytext); }
 \n                       { ++line; putc('\n', yyout); }
 
 
 <INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
-<Regexp>"\""([^\"]|\\.)*"\"" {
+<Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
 	ystring& s = args.back();
 	const char* p;
 	for (p = yytext + 1; *p && p[1]; ++p) {
@@ -101,14 +101,20 @@ void eatComment(void (*action)(char));
 				s.push_back('\t');
 			else if (isdigit(*p)) {
 				const char* beg = p;
-				while (isdigit(*p))
+				while (p != beg + 3 && *p >= '0' && *p <= '7')
 					++p;
+				if (p == beg)
+					Die() << "unknown escape sequence (\\" <<  *p << ")";
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 8));
+				--p;
 			} else if (*p == 'x') {
-				const char* beg = p;
-				while (isdigit(*p) || (*p > 'a' && *p <= 'f') || (*p > 'A' && *p < 'F'))
+				const char* beg = ++p;
+				while (isxdigit((unsigned char) *p))
 					++p;
+				if (p == beg)
+					Die() << "\\x used with no following hex digits";
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 16));
+				--p;
 			} else
 				Die() << "unknown escape sequence (\\" <<  *p << ")";
 		} else
-- 
2.43.0


From 6ac9b37825eeab2a038e4b97e2f2d4e50a287714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 21/52] fix: pire_inline parsed patterns with the 'u' flag as
 raw bytes

---
 pire/inline.lpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 1e5cb8b..b2d3391 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -143,9 +143,12 @@ void eatComment(void (*action)(char));
 		for (const char* option = (i+1)->c_str(); *option; ++option) {
 			if (*option == 'i')
 				lexer.AddFeature(Pire::Features::CaseInsensitive());
-			else if (*option == 'u')
+			else if (*option == 'u') {
+				TVector<wchar32> ucs4;
+				Pire::Encodings::Utf8().FromLocal(i->c_str(), i->c_str() + i->size(), std::back_inserter(ucs4));
+				lexer.Assign(ucs4.begin(), ucs4.end());
 				lexer.SetEncoding(Pire::Encodings::Utf8());
-			else if (*option == 's')
+			} else if (*option == 's')
 				surround = true;
 			else if (*option == 'a')
 				lexer.AddFeature(Pire::Features::AndNotSupport());
-- 
2.43.0


From 0f7454f5ab5794abea0793c2ad425ca08020aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 22/52] fix: pire_inline broke the generated code for patterns
 with line breaks or trailing backslashes

---
 pire/inline.lpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index b2d3391..6223e08 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -192,7 +192,11 @@ void eatComment(void (*action)(char));
 	AlignedOutput stream(&buf);
 	Save(&stream, sc);
 
-	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // %s \n    \"", pattern.c_str());
+	// Keep the pattern within a single-line comment
+	for (auto c = pattern.begin(), ce = pattern.end(); c != ce; ++c)
+		if (*c == '\n' || *c == '\r')
+			*c = ' ';
+	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // \"%s\"\n    \"", pattern.c_str());
 	size_t pos = 5;
 	for (auto i = buf.Buffer().Begin(), ie = buf.Buffer().End(); i != ie; ++i) {
 		pos += fprintf(yyout, "\\x%02X", static_cast<unsigned char>(*i));
-- 
2.43.0


From 3f9231e98fbb43322cf46e933ba345210daf0fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 23/52] fix: \x{...} codes above 32 bits were silently
 truncated

---
 pire/read_unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/read_unicode.cpp b/pire/read_unicode.cpp
index f29adae..62924dc 100644
--- a/pire/read_unicode.cpp
+++ b/pire/read_unicode.cpp
@@ -64,7 +64,7 @@ namespace Pire {
 	}
 
 	wchar32 UnicodeReader::HexToDec(const ystring &hexStr) {
-		wchar32 converted;
+		unsigned long converted;
 		try {
 			converted = std::stoul(hexStr, 0, 16);
 		} catch (std::out_of_range &) {
-- 
2.43.0


From 5f96480bff00b90ea7883fc5abcd0569f923f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 24/52] fix: characters like U+F024 were taken for control
 characters of the syntax

---
 pire/re_lexer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 6db4242..fd524b5 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -42,8 +42,9 @@ namespace Pire {
 namespace Consts {
 enum { Inf = -1 };
 
-static const wchar32 Control     = 0xF000;
-static const wchar32 ControlMask = 0xFF00;
+// Control characters must not intersect with Unicode ones
+static const wchar32 Control     = 0xF0000000;
+static const wchar32 ControlMask = 0xFFFFFF00;
 static const wchar32 End         = Control | 0xFF;
 };
 
-- 
2.43.0


From 5dad633dbf7752b21ffc55fafff3d1ef30be0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 25/52] fix: an escaped non-ASCII character silently changed
 its meaning

---
 pire/re_lexer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 3899c99..45ca3a2 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -55,6 +55,8 @@ wchar32 Lexer::GetChar()
 		if (m_input.empty())
 			Error("Regexp must not end with a backslash");
 		wchar32 ch = m_input.front();
+		if (ch >= 0x80)
+			Error("Only ASCII characters can be escaped");
 		m_input.pop_front();
 		return Control | ch;
 	} else {
-- 
2.43.0


From c5d0e41aaf7b7a8de3b7480e0b9c62417360c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 26/52] fix: a NUL character could not start a character range

---
 pire/re_lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 45ca3a2..bbf4f61 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -196,7 +196,7 @@ void Lexer::Parenthesized(Fsm& fsm)
 
 wchar32 Feature::CorrectChar(wchar32 c, const char* controls)
 {
-	bool ctrl = (strchr(controls, c & 0xFF) != 0);
+	bool ctrl = (c & 0xFF) && (strchr(controls, c & 0xFF) != 0);
 	if ((c & ControlMask) == Control && ctrl)
 		return c & ~ControlMask;
 	if (c <= 0xFF && ctrl)
-- 
2.43.0


From 008c4f4828b271f010bbcfbef4c04c1c938bafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 27/52] fix: non-ASCII digits were accepted in repetition
 counts and misread

---
 pire/re_lexer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index bbf4f61..83179a4 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -298,7 +298,7 @@ namespace {
 			ch = GetChar();
 			int lower = 0, upper = 0;
 
-			if (!is_digit(ch))
+			if (!IsCountDigit(ch))
 				Error("Wrong repetition count");
 
 			lower = ReadCount(ch);
@@ -310,7 +310,7 @@ namespace {
 			ch = GetChar();
 			if (ch == '}')
 				return Term::Repetition(lower, Inf);
-			else if (!is_digit(ch))
+			else if (!IsCountDigit(ch))
 				Error("Wrong repetition count");
 			upper = ReadCount(ch);
 
@@ -320,10 +320,13 @@ namespace {
 		}
 
 	private:
+		// Only ASCII digits are meaningful here
+		static bool IsCountDigit(wchar32 ch) { return ch >= '0' && ch <= '9'; }
+
 		int ReadCount(wchar32& ch)
 		{
 			int count = 0;
-			for (; is_digit(ch); ch = GetChar()) {
+			for (; IsCountDigit(ch); ch = GetChar()) {
 				int digit = ch - '0';
 				if (count > (std::numeric_limits<int>::max() - digit) / 10)
 					Error("Wrong repetition count");
-- 
2.43.0


From 4a620670659e862215d3983318d86e4c71cb5a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 28/52] fix: approximate matching missed insertions at the end
 of text and exchanges across empty transitions

---
 pire/approx_matching.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 23f74ca..b7ee820 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -23,8 +23,15 @@
 #include "approx_matching.h"
 
 namespace Pire {
-	Fsm CreateApproxFsm(const Fsm& regexp, size_t distance) {
+	Fsm CreateApproxFsm(const Fsm& source, size_t distance) {
+		// Edits are applied to letters, so the automaton must have nothing else on its transitions
+		Fsm regexp = source;
+		regexp.RemoveEpsilons();
+		regexp.Unsparse();
+
 		Fsm approxFsm = regexp;
+		if (distance > 0)
+			approxFsm.SetIsDetermined(false);
 
 		TVector<TSet<Char>> outgoingLettersTable(regexp.Size());
 		for (size_t state = 0; state < regexp.Size(); ++state) {
@@ -53,10 +60,10 @@ namespace Pire {
 
 						approxFsm.Connect(state + shift, to + shift + regexp.Size(), Epsilon);
 					}
+				}
 
-					for (Char ch = 0; ch < MaxChar; ++ch) {
-						approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
-					}
+				for (Char ch = 0; ch < MaxChar; ++ch) {
+					approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
 				}
 
 				if (regexp.IsFinal(state)) {
-- 
2.43.0


From d37fe4ce421799b368d21797cf076bb730616ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 29/52] fix: compiling for approximate matching changed the
 language of the automaton compiled

---
 pire/extra/capture.h   | 9 +++++----
 pire/scanners/loaded.h | 9 +++++----
 pire/scanners/multi.h  | 9 +++++----
 pire/scanners/simple.h | 9 +++++----
 pire/scanners/slow.h   | 9 +++++----
 5 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 213ee44..e952a9b 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -137,11 +137,12 @@ public:
 
 	CapturingScanner() {}
 	CapturingScanner(const CapturingScanner& s): LoadedScanner(s) {}
-	explicit CapturingScanner(Fsm& fsm, size_t distance = 0)
+	explicit CapturingScanner(Fsm& source, size_t distance = 0)
 	{
-		if (distance) {
-			fsm = CreateApproxFsm(fsm, distance);
-		}
+		Fsm approx;
+		if (distance)
+			approx = CreateApproxFsm(source, distance);
+		Fsm& fsm = distance ? approx : source;
 		fsm.Canonize();
 		Init(fsm.Size(), fsm.Letters(), fsm.Initial());
 		BuildScanner(fsm, *this);
diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index cc91742..e8930f7 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -243,11 +243,12 @@ protected:
 	virtual ~LoadedScanner();
 
 private:
-	explicit LoadedScanner(Fsm& fsm, size_t distance = 0)
+	explicit LoadedScanner(Fsm& source, size_t distance = 0)
 	{
-		if (distance) {
-			fsm = CreateApproxFsm(fsm, distance);
-		}
+		Fsm approx;
+		if (distance)
+			approx = CreateApproxFsm(source, distance);
+		Fsm& fsm = distance ? approx : source;
 		fsm.Canonize();
 		Init(fsm.Size(), fsm.Letters(), fsm.Initial());
 		BuildScanner(fsm, *this);
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 97831bd..9976f60 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -120,11 +120,12 @@ public:
 
 	Scanner() { Alias(Null()); }
 	
-	explicit Scanner(Fsm& fsm, size_t distance = 0)
+	explicit Scanner(Fsm& source, size_t distance = 0)
 	{
-		if (distance) {
-			fsm = CreateApproxFsm(fsm, distance);
-		}
+		Fsm approx;
+		if (distance)
+			approx = CreateApproxFsm(source, distance);
+		Fsm& fsm = distance ? approx : source;
 		fsm.Canonize();
 		Init(fsm.Size(), fsm.Letters(), fsm.Finals().size(), fsm.Initial(), 1);
 		BuildScanner(fsm, *this);
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 0d2f44e..dce3f1a 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -232,11 +232,12 @@ protected:
 	}
 
 };
-inline SimpleScanner::SimpleScanner(Fsm& fsm, size_t distance)
+inline SimpleScanner::SimpleScanner(Fsm& source, size_t distance)
 {
-	if (distance) {
-		fsm = CreateApproxFsm(fsm, distance);
-	}
+	Fsm approx;
+	if (distance)
+		approx = CreateApproxFsm(source, distance);
+	Fsm& fsm = distance ? approx : source;
 	fsm.Canonize();
 	
 	m.statesCount = fsm.Size();
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 98b44d5..56df709 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -251,12 +251,13 @@ public:
 		}
 	}
 
-	explicit SlowScanner(Fsm& fsm, bool needActions = false, bool removeEpsilons = true, size_t distance = 0)
+	explicit SlowScanner(Fsm& source, bool needActions = false, bool removeEpsilons = true, size_t distance = 0)
 		: need_actions(needActions)
 	{
-		if (distance) {
-			fsm = CreateApproxFsm(fsm, distance);
-		}
+		Fsm approx;
+		if (distance)
+			approx = CreateApproxFsm(source, distance);
+		Fsm& fsm = distance ? approx : source;
 		if (removeEpsilons)
 			fsm.RemoveEpsilons();
 		fsm.Sparse(!removeEpsilons);
-- 
2.43.0


From 9ef94283a04705609e21861c50dc44c230dc3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 30/52] fix: titlecase characters did not match themselves with
 case insensitivity

---
 pire/re_lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 83179a4..4a6933c 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -345,11 +345,11 @@ namespace {
 				const CharSet& old = t.Value().As<Term::CharacterRange>().first;
 				CharSet altered;
 				for (auto&& i : old) {
+					altered.insert(i);
 					if (i.size() == 1) {
 						altered.insert(Term::String(1, to_upper(i[0])));
 						altered.insert(Term::String(1, to_lower(i[0])));
-					} else
-						altered.insert(i);
+					}
 				}
 				t = Term(t.Type(), Term::CharacterRange(altered, t.Value().As<Term::CharacterRange>().second));
 			}
-- 
2.43.0


From a2793be3dbea32ec26bbe97a5e64b69b331b5d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:37 +0000
Subject: [PATCH 31/52] fix: overlong and out of range UTF-8 sequences were
 accepted in patterns

---
 pire/stub/codepage_h.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/stub/codepage_h.h b/pire/stub/codepage_h.h
index d43b8c8..45de9de 100644
--- a/pire/stub/codepage_h.h
+++ b/pire/stub/codepage_h.h
@@ -289,6 +289,11 @@ RECODE_RESULT utf8_read_rune(wchar32 &rune, size_t &rune_len, const unsigned cha
 			}
 		}
 	}
+	// Neither overlong forms nor codes beyond the Unicode range are allowed
+	static const wchar32 minRune[] = { 0, 0, 0x80, 0x800, 0x10000 };
+	if (_len > 4 || _rune < minRune[_len] || _rune > 0x10FFFF)
+		return RECODE_BROKENSYMBOL;
+
 	rune_len = _len;
 	rune = _rune;
 	return RECODE_OK;
-- 
2.43.0


From 78297b7633a23cfe21ca239c77f80a9e8cc05f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 32/52] fix: the micro sign was given an invalid code as its
 upper case

---
 pire/stub/unidata_h.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pire/stub/unidata_h.h b/pire/stub/unidata_h.h
index c8a8451..9376aed 100644
--- a/pire/stub/unidata_h.h
+++ b/pire/stub/unidata_h.h
@@ -373,11 +373,22 @@ bool is_canon_composed(wchar32 ch)
 
 wchar32 to_lower(wchar32 ch)
 {
+	// mappings which do not fit the packed table
+	switch (ch) {
+		case 0x2126: return 0x03C9; // OHM SIGN
+		case 0x212A: return 0x006B; // KELVIN SIGN
+		case 0x212B: return 0x00E5; // ANGSTROM SIGN
+	}
 	i32 i = wc_info(ch);
 	return (wchar32)(ch + ((i & TO_LOWER) ? (i >> SVAL_OFFSET) : 0));
 }
 wchar32 to_upper(wchar32 ch)
 {
+	// mappings which do not fit the packed table
+	switch (ch) {
+		case 0x00B5: return 0x039C; // MICRO SIGN
+		case 0x1FBE: return 0x0399; // GREEK PROSGEGRAMMENI
+	}
 	i32 i = wc_info(ch);
 	return (wchar32)(ch - ((i & TO_UPPER) ? (i >> SVAL_OFFSET) : 0));
 }
-- 
2.43.0


From 1496bd5d276ce95b16701721f59feb3bd20e7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 33/52] fix: collapsing the alphabet of an automaton twice lost
 transitions

---
 pire/fsm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index f86e8ee..1b47ea9 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -861,6 +861,7 @@ bool Fsm::LettersEquality::operator()(Char a, Char b) const
 
 void Fsm::Sparse(bool needEpsilons /* = false */)
 {
+	Unsparse(); // otherwise letters would be compared by the transitions of their representatives only
 	letters = LettersTbl(LettersEquality(m_transitions));
 	for (unsigned letter = 0; letter < MaxChar; ++letter)
 		if (letter != Epsilon || needEpsilons)
-- 
2.43.0


From 59fdcf1bddc8c0047ee56716d7eff8223341ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 34/52] fix: importing an automaton modified since its alphabet
 was unpacked brought stale transitions

---
 pire/fsm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 1b47ea9..b0a2615 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -392,7 +392,8 @@ void Fsm::Import(const Fsm& rhs)
 
 	size_t oldsize = Resize(Size() + rhs.Size());
 
-	for (auto&& outer : m_transitions) {
+	// Letters classes make sense only until the FSM is unsparsed (it might have been modified since)
+	if (m_sparsed) for (auto&& outer : m_transitions) {
 		for (auto&& letter : letters) {
 			auto targets = outer.find(letter.first);
 			if (targets == outer.end())
@@ -412,7 +413,7 @@ void Fsm::Import(const Fsm& rhs)
 			dest->insert(ymake_pair(inner.first, targets));
 		}
 
-		for (auto&& letter : rhs.letters) {
+		if (rhs.m_sparsed) for (auto&& letter : rhs.letters) {
 			auto targets = dest->find(letter.first);
 			if (targets == dest->end())
 				continue;
-- 
2.43.0


From 0d46e70835bc30fab92b0ab120c81585cb8ba073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 35/52] fix: MakeSuffix() accepted more than suffixes when
 something led back to the initial state or states were unreachable

---
 pire/fsm.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index b0a2615..9e741e8 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -611,9 +611,24 @@ void Fsm::MakePrefix()
 
 void Fsm::MakeSuffix()
 {
-	for (size_t i = 0; i < Size(); ++i)
-		if (i != initial)
-			Connect(initial, i);
+	// A suffix might start in any state the initial one leads to. The new initial state
+	// must be a separate one, since there might be transitions back to the former.
+	size_t start = Resize(Size() + 1);
+	TVector<bool> reachable(Size(), false);
+	TVector<size_t> queue(1, initial);
+	reachable[initial] = true;
+	while (!queue.empty()) {
+		size_t state = queue.back();
+		queue.pop_back();
+		Connect(start, state);
+		for (auto&& transition : m_transitions[state])
+			for (auto&& target : transition.second)
+				if (!reachable[target]) {
+					reachable[target] = true;
+					queue.push_back(target);
+				}
+	}
+	initial = start;
 	determined = false;
 	ClearHints();
 }
-- 
2.43.0


From 9d90f924eead21bc38e2ae4d9591bc2775a1eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 36/52] fix: greedy half-final counter keeps the count of a
 match prolonged after other matches have been counted

---
 pire/half_final_fsm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index aa1f05a..e424e4e 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -186,9 +186,11 @@ namespace Pire {
 
 			void AddState(size_t state, size_t count, bool reachedFinal, bool force = false) {
 				size_t newLastFinalCount = LastFinalCount;
-				if (mFsm.IsFinal(state) && !reachedFinal) {
-					++count;
-					reachedFinal = true;
+				if (mFsm.IsFinal(state)) {
+					if (!reachedFinal) {
+						++count;
+						reachedFinal = true;
+					}
 					newLastFinalCount = count;
 				}
 				for (const auto& addedState : States) {
-- 
2.43.0


From bd953f6ffd3b2a11141e67496976c6dd34c21cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 37/52] fix: greedy half-final counter counts matches which end
 with the end mark

---
 pire/half_final_fsm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e424e4e..8510376 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -237,6 +237,11 @@ namespace Pire {
 			{
 				size_t oldSize = mFsm.Size();
 				mFsm.Import(fsm);
+				for (size_t state = 0; state < oldSize; ++state) {
+					if (fsm.IsFinal(state)) {
+						mFsm.SetFinal(oldSize + state, true);
+					}
+				}
 				mFsm.Unsparse();
 				for (size_t state = 0; state < mFsm.Size(); ++state) {
 					for (Char letter = 0; letter < MaxChar; ++letter) {
-- 
2.43.0


From 86d8fa826bc9d4b5a44384f173fe307943792581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 38/52] fix: counters of a half-final automaton are not taken
 for flags of the scanner's states

---
 pire/scanners/half_final.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/scanners/half_final.h b/pire/scanners/half_final.h
index 5aca343..fe7433a 100644
--- a/pire/scanners/half_final.h
+++ b/pire/scanners/half_final.h
@@ -48,7 +48,11 @@ public:
 
 	explicit HalfFinalScanner(const HalfFinalFsm& fsm) {
 		Scanner::Init(fsm.GetFsm().Size(), fsm.GetFsm().Letters(), fsm.GetTotalCount(), fsm.GetFsm().Initial(), 1);
-		BuildScanner(fsm.GetFsm(), *this);
+		// Tags keep counters there, not flags of the scanner's states
+		Fsm untagged(fsm.GetFsm());
+		for (size_t state = 0; state < untagged.Size(); ++state)
+			untagged.SetTag(state, 0);
+		BuildScanner(untagged, *this);
 		BuildFinals(fsm);
 	}
 
-- 
2.43.0


From ba1854ce7ed40052f3e7f5c7ed478c316402e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:31 +0000
Subject: [PATCH 39/52] fix: greedy half-final counter keeps its states for
 letters which lead to no match

---
 pire/half_final_fsm.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 8510376..677ef9f 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -110,7 +110,6 @@ namespace Pire {
 		if (simplify) {
 			fsm.Minimize();
 		}
-		fsm.RemoveDeadEnds();
 	}
 
 	namespace Impl {
-- 
2.43.0


From e071d38ff806315dc825dba24253cc16f3a37947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 40/52] fix: glue of counting scanners loaded from data of
 advanced ones keeps their actions

---
 pire/extra/count.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pire/extra/count.h b/pire/extra/count.h
index 9dd9872..2d132a1 100644
--- a/pire/extra/count.h
+++ b/pire/extra/count.h
@@ -456,6 +456,17 @@ private:
 		if (!a) {
 			return;
 		}
+		if (AdvancedScannerCompatibilityMode) {
+			for (size_t i = 0; i < RegexpsCount(); ++i) {
+				if (a & (static_cast<Action>(1) << (MAX_RE_COUNT + i))) {
+					*output_resets++ = i + id_shift;
+				}
+				if (a & (static_cast<Action>(1) << i)) {
+					*output_increments++ = i + id_shift;
+				}
+			}
+			return;
+		}
 		if (!Actions) {
 			if (a & ResetAction) {
 				*output_resets++ = id_shift;
-- 
2.43.0


From d1f21f651996262990c7557de44828881667cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 41/52] fix: counting scanner loaded from data of an advanced
 one is saved in the form it has

---
 pire/extra/count.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 5849877..865264e 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1007,7 +1007,10 @@ NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCou
 // Should Save(), Load() and Mmap() functions return stream/pointer in aligned state?
 // Now they don't because tests don't require it.
 void NoGlueLimitCountingScanner::Save(yostream* s) const {
-	Y_ASSERT(!AdvancedScannerCompatibilityMode);
+	if (AdvancedScannerCompatibilityMode) {
+		LoadedScanner::Save(s, ScannerIOTypes::LoadedScanner);
+		return;
+	}
 	LoadedScanner::Save(s, ScannerIOTypes::NoGlueLimitCountingScanner);
 	if (Actions) {
 		SavePodArray(s, Actions, *Actions);
-- 
2.43.0


From 222e3349f938128f41e8e633f7bdf6c794477751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 42/52] fix: empty counting and capturing scanners can be saved
 and restored

---
 pire/extra/count.cpp   | 2 +-
 pire/scanner_io.cpp    | 3 +++
 pire/scanners/loaded.h | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 865264e..bfa6abd 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1007,7 +1007,7 @@ NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCou
 // Should Save(), Load() and Mmap() functions return stream/pointer in aligned state?
 // Now they don't because tests don't require it.
 void NoGlueLimitCountingScanner::Save(yostream* s) const {
-	if (AdvancedScannerCompatibilityMode) {
+	if (AdvancedScannerCompatibilityMode || Empty()) {
 		LoadedScanner::Save(s, ScannerIOTypes::LoadedScanner);
 		return;
 	}
diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 2c8bded..2a0c7c0 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -187,6 +187,7 @@ void LoadedScanner::Save(yostream* s, ui32 type) const
 	Impl::AlignSave(s, sizeof(Header));
 	Locals mc = m;
 	mc.initial -= reinterpret_cast<size_t>(m_jumps);
+	mc.regexpsCount = RegexpsCount();
 	SavePodType(s, mc);
 	Impl::AlignSave(s, sizeof(mc));
 
@@ -218,6 +219,8 @@ void LoadedScanner::Load(yistream* s, ui32* type)
 	}
 	Impl::AlignedLoadArray(s, sc.m_tags, sc.m.statesCount);
 	sc.m.initial += reinterpret_cast<size_t>(sc.m_jumps);
+	if (sc.m.regexpsCount == 0)
+		sc = LoadedScanner();
 	Swap(sc);
 }
 
diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index e8930f7..6f542a9 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -145,6 +145,8 @@ public:
 		Impl::MapPtr(s.m_tags, s.m.statesCount, p, size);
 
 		s.m.initial += reinterpret_cast<size_t>(s.m_jumps);
+		if (s.m.regexpsCount == 0)
+			s = LoadedScanner();
 		Swap(s);
 
 		return (const void*) p;
-- 
2.43.0


From e2dfcd2a3efa2170d457b3cbb5e5330daa8f2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:14 +0000
Subject: [PATCH 43/52] fix: counting and capturing scanners refuse data of
 scanners which keep actions elsewhere

---
 pire/scanner_io.cpp    | 2 ++
 pire/scanners/loaded.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 2a0c7c0..5c5c583 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -206,6 +206,8 @@ void LoadedScanner::Load(yistream* s, ui32* type)
 	Header header = Impl::ValidateHeader(s, ScannerIOTypes::LoadedScanner, sizeof(sc.m));
 	if (type) {
 		*type = header.Type;
+	} else if (header.Type != ScannerIOTypes::LoadedScanner) {
+		throw Error("Serialized regexp incompatible with your system");
 	}
 	LoadPodType(s, sc.m);
 	Impl::AlignLoad(s, sizeof(sc.m));
diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index 6f542a9..717bbd7 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -130,6 +130,8 @@ public:
 		Header header = Impl::ValidateHeader(p, size, ScannerIOTypes::LoadedScanner, sizeof(s.m));
 		if (type) {
 			*type = header.Type;
+		} else if (header.Type != ScannerIOTypes::LoadedScanner) {
+			throw Error("Serialized regexp incompatible with your system");
 		}
 
 		Locals* locals;
-- 
2.43.0


From e0a0a4fed52b5efd901f9722d1cb5383c4771adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 44/52] fix: a capture bound to the end of the text is reported
 at the end of the text only

SlowCapturingScanner took a state from which the end mark leads to a final
one for a match already at any position of the text: ^(a)$ was captured in
"ab", and the states that would have matched later were dropped.
---
 pire/extra/capture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index e952a9b..6089fce 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -515,7 +515,7 @@ public:
 	bool PushState(State& nlist, const SingleState& state) const
 	{
 		nlist.PushState(state);
-		if (Matched(state)) {
+		if (IsFinal(state.GetNum())) {
 			nlist.AddMatch(state);
 			return true;
 		}
-- 
2.43.0


From 587e9149bf1d30cb1d545b5456c420f82c23af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 45/52] fix: an empty slow capturing scanner can be run

---
 pire/extra/capture.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 6089fce..348fd68 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -390,6 +390,8 @@ public:
 
 	void NextStates(const SingleState& state, Char letter, TVector<Transition>& nextStates) const
 	{
+		if (Empty())
+			return; // there are no actions in an empty scanner
 		if (IsMmaped()) {
 			const size_t* pos = GetJumpPos() + GetPosition(state, letter);
 			size_t posBegin = pos[0];
-- 
2.43.0


From a9a9f68b74a558c06e1b570e0d7397649b87ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:08 +0000
Subject: [PATCH 46/52] fix: gluing counting scanners with empty ones gives the
 other one

---
 pire/extra/count.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index bfa6abd..bb1a9f9 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -979,6 +979,12 @@ private:
 	
 CountingScanner CountingScanner::Glue(const CountingScanner& lhs, const CountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (rhs.Empty()) {
+		return lhs;
+	}
+	if (lhs.Empty()) {
+		return rhs;
+	}
 	if (lhs.RegexpsCount() + rhs.RegexpsCount() > MAX_RE_COUNT) {
 		return CountingScanner();
 	}
@@ -989,6 +995,12 @@ CountingScanner CountingScanner::Glue(const CountingScanner& lhs, const Counting
 
 AdvancedCountingScanner AdvancedCountingScanner::Glue(const AdvancedCountingScanner& lhs, const AdvancedCountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (rhs.Empty()) {
+		return lhs;
+	}
+	if (lhs.Empty()) {
+		return rhs;
+	}
 	if (lhs.RegexpsCount() + rhs.RegexpsCount() > MAX_RE_COUNT) {
 		return AdvancedCountingScanner();
 	}
@@ -999,6 +1011,12 @@ AdvancedCountingScanner AdvancedCountingScanner::Glue(const AdvancedCountingScan
 
 NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCountingScanner& lhs, const NoGlueLimitCountingScanner& rhs, size_t maxSize /* = 0 */)
 {
+	if (rhs.Empty()) {
+		return lhs;
+	}
+	if (lhs.Empty()) {
+		return rhs;
+	}
 	static constexpr size_t DefMaxSize = 250000;
 	Impl::NoGlueLimitCountingScannerGlueTask task(lhs, rhs);
 	return Impl::Determine(task, maxSize ? maxSize : DefMaxSize);
-- 
2.43.0


From ba2cb6756704ba71696b62289441042215a988a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 47/52] fix: pire_inline lost characters of comments and never
 ended on an unterminated one

---
 pire/inline.lpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 6223e08..2ba8e62 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -218,25 +218,19 @@ void eatComment(void (*action)(char));
 
 void eatComment(void (*action)(char))
 {
-	int c;
+	int c, prev = 0;
 	action('/'); action('*');
 	for (;;) {
-		while ((c = yyinput()) != EOF && c != '*') {
-			if (c == '\n')
-				++line;
-			action(c);
-		}
-		if (c == '*') {
-			action(c);
-			while ((c = yyinput()) == '*')
-				action(c);
-			if (c == '/') {
-				action(c);
-				break;
-			}
-		}
-		if (c == EOF)
+		c = yyinput();
+		// depending on its version, flex reports the end of file as either of them
+		if (c == EOF || c == 0)
 			Die() << "EOF in comment";
+		if (c == '\n')
+			++line;
+		action(c);
+		if (prev == '*' && c == '/')
+			break;
+		prev = c;
 	}
 }
 
-- 
2.43.0


From 9f908673482f7ebc102ff3efcf0b0769dc651dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 48/52] fix: pire_inline takes PIRE_REGEXP followed by spaces
 for an expression, and parts of longer names not

---
 pire/inline.lpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 2ba8e62..dfe70e6 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -68,6 +68,7 @@ Die DieHelper() {
 void putChar(char c) { putc(c, yyout); }
 void suppressChar(char) {}
 void eatComment(void (*action)(char));
+void CountLines();
 
 #define YY_FATAL_ERROR(msg) DieHelper() << msg
 %}
@@ -84,7 +85,8 @@ void eatComment(void (*action)(char));
 \n                       { ++line; putc('\n', yyout); }
 
 
-<INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
+<INITIAL>[A-Za-z0-9_]+    { fprintf(yyout, "%s", yytext); }
+<INITIAL>"PIRE_REGEXP"[[:space:]]*"(" { CountLines(); BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
 <Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
 	ystring& s = args.back();
 	const char* p;
@@ -234,6 +236,13 @@ void eatComment(void (*action)(char))
 	}
 }
 
+void CountLines()
+{
+	for (const char* p = yytext; *p; ++p)
+		if (*p == '\n')
+			++line;
+}
+
 int yywrap() { return 1; }
 
 
-- 
2.43.0


From 2b6c0532df5f8ceb27d521b4b0086ffbc068f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 49/52] fix: pire_inline refuses expressions with anything but
 string literals in them and unterminated ones

---
 pire/inline.lpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index dfe70e6..2d9e7e2 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -125,7 +125,7 @@ void CountLines();
 	if (!*p)
 		Die() << "string ends with a backslash";
 }
-<Regexp>[ \t]            {}
+<Regexp>[ \t\r\f\v]      {}
 <Regexp>\n               { ++line; }
 <Regexp>","              { args.push_back(ystring()); }
 <Regexp>")" {
@@ -211,6 +211,8 @@ void CountLines();
 		(unsigned int) buf.Buffer().Size(), line, filename.c_str());
 	BEGIN(INITIAL);
 }
+<Regexp>.                { Die() << "string literal, comma or closing bracket expected in PIRE_REGEXP"; }
+<Regexp><<EOF>>          { Die() << "EOF in PIRE_REGEXP"; }
 <INITIAL>.               { putc(*yytext, yyout); }
 
 
-- 
2.43.0


From 19428073380a02d44563ecf1db53b644d87b34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 50/52] fix: pire_inline took quotes in character literals for
 the beginning of a string

---
 pire/inline.lpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 2d9e7e2..9fd1ff8 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -82,6 +82,7 @@ void CountLines();
 <Regexp>"//".*\n         { ++line; }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
 "\""([^\"\\]|\\(.|\n))*"\""   { fprintf(yyout, "%s", yytext); }
+<INITIAL>"'"([^'\\\n]|\\.[0-9a-fA-F]*|[\x80-\xff]+)"'"   { fprintf(yyout, "%s", yytext); }
 \n                       { ++line; putc('\n', yyout); }
 
 
-- 
2.43.0


From 54f65d654588a7ae3267ee3961e842ca65be84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 51/52] fix: pire_inline reads all simple escapes and line
 continuations in string literals and counts their lines

---
 pire/inline.lpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 9fd1ff8..4681395 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -81,7 +81,7 @@ void CountLines();
 <INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
 <Regexp>"//".*\n         { ++line; }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"\\]|\\(.|\n))*"\""   { fprintf(yyout, "%s", yytext); }
+"\""([^\"\\]|\\(.|\n))*"\""   { CountLines(); fprintf(yyout, "%s", yytext); }
 <INITIAL>"'"([^'\\\n]|\\.[0-9a-fA-F]*|[\x80-\xff]+)"'"   { fprintf(yyout, "%s", yytext); }
 \n                       { ++line; putc('\n', yyout); }
 
@@ -89,6 +89,8 @@ void CountLines();
 <INITIAL>[A-Za-z0-9_]+    { fprintf(yyout, "%s", yytext); }
 <INITIAL>"PIRE_REGEXP"[[:space:]]*"(" { CountLines(); BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
 <Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
+	static const char simple[] = "abfnrtv'\"\\?", meaning[] = "\a\b\f\n\r\t\v'\"\\?";
+	CountLines();
 	ystring& s = args.back();
 	const char* p;
 	for (p = yytext + 1; *p && p[1]; ++p) {
@@ -96,12 +98,10 @@ void CountLines();
 			++p;
 			if (!*p)
 				Die() << "string ends with a backslash";
-			else if (*p == '\'' || *p == '\"' || *p == '\\')
-				s.push_back(*p);
-			else if (*p == 'n')
-				s.push_back('\n');
-			else if (*p == 't')
-				s.push_back('\t');
+			else if (strchr(simple, *p))
+				s.push_back(meaning[strchr(simple, *p) - simple]);
+			else if (*p == '\n')
+				continue;
 			else if (isdigit(*p)) {
 				const char* beg = p;
 				while (p != beg + 3 && *p >= '0' && *p <= '7')
-- 
2.43.0


From 94df2afd336726064274b19788852d6e86271a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:42 +0000
Subject: [PATCH 52/52] fix: gluing with a limit above the size of the lookup
 table corrupted memory

---
 pire/glue.h | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/pire/glue.h b/pire/glue.h
index 456c30a..6165791 100644
--- a/pire/glue.h
+++ b/pire/glue.h
@@ -49,12 +49,11 @@ private:
 
 // This lookup table is used instead of std::map.
 // The key idea is to specify size which is a power of 2 in order to use >> and | instead of
-// divisions and remainders.
+// divisions and remainders. N is the initial size, the table grows as it is filled.
 // NB: it mimics limited std::map<> behaviour, hence stl-like method names and typedefs.
 template <size_t N, class State>
 class GluedStateLookupTable {
 public:
-	static const size_t MaxSize = N;
 	typedef ypair<State, State> key_type;
 	typedef size_t mapped_type;
 	typedef ypair<key_type, mapped_type> value_type;
@@ -62,12 +61,14 @@ public:
 	typedef const value_type* const_iterator;
 
 	GluedStateLookupTable()
-		: mMap(new value_type[N])
+		: mSize(N)
+		, mCount(0)
+		, mMap(new value_type[N])
 		, mFilled(N, false)
 	{}
 	
 	const_iterator end() const {
-		return mMap.get() + MaxSize;
+		return mMap.get() + mSize;
 	}
 	// Note that in fact mMap is sparsed and traditional [begin,end)
 	// traversal is unavailable; hence no begin() method here.
@@ -77,11 +78,15 @@ public:
 		return mFilled[ind] ? (mMap.get() + ind) : end();
 	}
 
+	// Invalidates all iterators, as the table might be moved.
 	ypair<iterator, bool> insert(const value_type& v) {
+		if (mCount >= mSize - mSize / 4)
+			Grow();
 		size_t ind = Search(v.first);
 		if (!mFilled[ind]) {
 			mMap[ind] = v;
 			mFilled[ind] = true;
+			++mCount;
 			return ymake_pair(mMap.get() + ind, true);
 		} else
 			return ymake_pair(mMap.get() + ind, false);
@@ -89,19 +94,33 @@ public:
 
 private:
 	size_t Search(const key_type& st) const {
-		size_t startInd = (Hash(st) % N);
-		for (size_t ind = startInd; ind != (startInd + N - 1) % N; ind = (ind + 1) % N) {
-			if (!mFilled[ind] || mMap[ind].first == st) {
-				return ind;
+		// There is always a free place in the table
+		size_t ind = Hash(st) & (mSize - 1);
+		while (mFilled[ind] && mMap[ind].first != st)
+			ind = (ind + 1) & (mSize - 1);
+		return ind;
+	}
+
+	void Grow() {
+		std::unique_ptr<value_type[]> map(new value_type[mSize * 2]);
+		TVector<bool> filled(mSize * 2, false);
+		map.swap(mMap);
+		filled.swap(mFilled);
+		mSize *= 2;
+		for (size_t i = 0; i != filled.size(); ++i)
+			if (filled[i]) {
+				size_t ind = Search(map[i].first);
+				mMap[ind] = map[i];
+				mFilled[ind] = true;
 			}
-		}
-		return -1;
 	}
 
 	static size_t Hash(const key_type& st) {
 		return size_t((st.first >> 2) ^ (st.second >> 4) ^ (st.second << 10));
 	}
 
+	size_t mSize;
+	size_t mCount;
 	std::unique_ptr<value_type[]> mMap;
 	TVector<bool> mFilled;
 
-- 
2.43.0

