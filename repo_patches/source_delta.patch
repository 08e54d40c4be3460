From 673c3b46bf3c6baa095f947c18e35451abe942aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 01/51] fix: do not break after Prepend characters (UAX#29
 GB9b)

The suppressing penalty of GB9b was weakened by the merit of GB999 at the
same position and dropped below the threshold.
---
 grapheme/grapheme.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 46e34eb..7e2d6e7 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -314,7 +314,16 @@ func rule_GB9a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_GB9b(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := GraphemeClass(cpClass)
 	tracer().P("class", c).Debugf("fire rule Preprend")
-	return uax.DoAccept(rec, GlueJOIN)
+	rec.MatchLen++
+	return rule_GB9b_Any
+}
+
+func rule_GB9b_Any(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	c := GraphemeClass(cpClass)
+	if c == CRClass || c == LFClass || c == ControlClass || c == eot {
+		return uax.DoAbort(rec)
+	}
+	return uax.DoAccept(rec, 0, GlueJOIN)
 }
 
 func rule_GB11(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From 3ad5e5d5fb5c9547e99860cdc2a8bbacd6e4e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 02/51] fix: apply UAX#29 WB3c to pictographs which are letters

U+2139 and others are ALetter and Extended_Pictographic.
---
 uax29/uax29.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index bca8c2e..2d5d269 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -262,7 +262,7 @@ func rule_WB3c(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func rule_Pictography(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX29Class(cpClass)
-	if c == emojiPictographic {
+	if c == emojiPictographic || unicode.Is(emoji.Extended_Pictographic, r) {
 		//tracer().Debugf("ACCEPT of Rule for Emoji")
 		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak)
 	}
-- 
2.43.0


From 9e50193489d4308fc786082ba231eea391439996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 03/51] fix: place penalties of UAX#29 WB7b/c correctly around
 ignored characters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Hebrew_Letter × Double_Quote was not joined if Extend, Format or ZWJ follow
the quote.
---
 uax29/uax29.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 2d5d269..e1a1451 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -385,6 +385,7 @@ func cont_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Double_QuoteClass {
 		rec.MatchLen++
+		rec.Expect = rec.MatchLen // misuse of expect field: mark position of double quote
 		return finish_WB7bc
 	}
 	return uax.DoAbort(rec)
@@ -397,7 +398,10 @@ func finish_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Hebrew_LetterClass {
 		//tracer().Debugf("ACCEPT of Rule WB 7b,c")
-		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		p := make([]int, rec.MatchLen-rec.Expect+1+2)
+		p[len(p)-1] = PenaltyToSuppressBreak
+		p[1] = PenaltyToSuppressBreak
+		return uax.DoAccept(rec, p...)
 	}
 	return uax.DoAbort(rec)
 }
-- 
2.43.0


From 6e4d11f6a176622c16378dcaf734cc6716381ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 04/51] fix: keep bounds of BoundedNext in runes and
 re-evaluate pending breaks per call

Positions mixed bytes and runes, ignored the end-of-text atom, and kept a
break at an old bound: BoundedNext missed fragments, or delivered a NUL
segment at the end of the text.
---
 segment/segment.go | 62 ++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index d7c44f4..3a30413 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -355,21 +355,23 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
+	// The Q may still hold break opportunities; which one is next depends on the bound.
+	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.searchLimit(), s.boundDistance(bound))
 	if !s.atEOF {
 		err := s.readEnoughInputAndFindBreak(bound)
 		if err != nil && err != io.EOF {
 			s.setErr(err)
-			s.runesBuf = s.runesBuf.Reset(nil)
-			return false
-		}
-		if s.pos-s.deque.Len() > bound {
-			tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
+			s.runesBuf = s.runesBuf.SetMark()
 			return false
 		}
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
-		s.runesBuf = s.runesBuf.Reset(nil)
+		if s.boundDistance(bound) < 0 {
+			tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
+			s.setErr(ErrBoundReached)
+		}
+		s.runesBuf = s.runesBuf.SetMark()
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
@@ -385,7 +387,8 @@ func (s *Segmenter) next(bound int) bool {
 // (EOF is not considered an error in itself in this context).
 // For all subsequent calls to readRune where s.atEOF is true, io.EOF is returned.
 //
-// s.pos is incremented according to the byte size of the input rune.
+// s.pos is incremented with every atom appended to the Q, i.e. positions (and bounds)
+// are counted in runes.
 //
 // readRune _must_ grow the Q or return an error or EOF.
 //
@@ -393,20 +396,22 @@ func (s *Segmenter) readRune() error {
 	if s.atEOF {
 		return io.EOF
 	}
-	r, sz, err := s.reader.ReadRune()
-	s.pos += sz
+	r, _, err := s.reader.ReadRune()
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
 		s.deque.PushBack(r, 0, 0)
+		s.pos++
 		return nil
 	}
 	if err == io.EOF {
 		s.deque.PushBack(eotAtom.r, eotAtom.penalty0, eotAtom.penalty1)
+		s.pos++
 		s.atEOF = true
 		err = nil
 	} else { // error case, err is non-nil
 		tracer().P("rune", r).Errorf("ReadRune() error: %s", err)
 		s.atEOF = true
+		s.deque.Clear() // no more segments after a failed read
 	}
 	return err
 }
@@ -469,13 +474,7 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 		// The Q is updated. The longest active match may have been changed and
 		// we have to scan from the start of the Q to the new position of active match.
 		// If we find a breaking opportunity, we're done.
-		boundDist := bound
-		if bound < math.MaxInt64 {
-			//boundDist = bound - s.pos + s.deque.Len()
-			boundDist = bound - s.pos + qlen
-		}
-		s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen-s.longestActiveMatch,
-			boundDist)
+		s.positionOfBreakOpportunity = s.findBreakOpportunity(s.searchLimit(), s.boundDistance(bound))
 		//s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen - 1 - s.longestActiveMatch)
 		// tracer().Debugf("segmenter: breakpos=%d, Q-len=%d, active match=%d",
 		// 	s.positionOfBreakOpportunity, s.deque.Len(), s.longestActiveMatch)
@@ -528,6 +527,26 @@ func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
 	return breakopp
 }
 
+// searchLimit returns the number of atoms at the front of the Q which are not part
+// of an active match, and may therefore be searched for break opportunities. The
+// atom for end-of-text is never part of a segment.
+func (s *Segmenter) searchLimit() int {
+	l := s.deque.Len()
+	if s.atEOF {
+		return l - 1
+	}
+	return l - s.longestActiveMatch
+}
+
+// boundDistance returns the distance (in runes) from the front of the Q to a bound.
+// It is negative if all the runes up to the bound have already been delivered.
+func (s *Segmenter) boundDistance(bound int) int {
+	if bound == math.MaxInt64 {
+		return bound
+	}
+	return bound - s.pos + s.deque.Len()
+}
+
 // find out if the UnicodeBreaker b is the primary breaker. If yes, return index 0,
 // 1 otherwise.
 func (s *Segmenter) inxForBreaker(b uax.UnicodeBreaker) int {
@@ -573,9 +592,6 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // Things get more complicated by having a possible `bound` position, after
 // which no runes are allowed to be cut off.
 //
-// After the cut-off getFrontSegments recursivley searches for another break
-// opportunity which may have been marked by breakers with acceptable penalties.
-//
 func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	seglen := 0
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
@@ -601,14 +617,6 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
-	// There may be further break opportunities between this break and the start of the
-	// current longest match. Advance the pointer to the next break opportunity, if any.
-	boundDist := bound
-	if bound < math.MaxInt64 {
-		boundDist = bound - s.pos + s.deque.Len()
-	}
-	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
-		boundDist)
 	//s.printQ()
 	return seglen, isCutOff
 }
-- 
2.43.0


From 5f7f9f515487b3fe043df22e4253136eaee56c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 05/51] fix: Next on a segmenter without input reports
 ErrNotInitialized instead of panicking

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index 3a30413..85074b8 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -352,6 +352,7 @@ func (s *Segmenter) setErr(err error) {
 func (s *Segmenter) next(bound int) bool {
 	if s.reader == nil {
 		s.setErr(ErrNotInitialized)
+		return false
 	}
 	//
 	s.inUse = true
-- 
2.43.0


From c3a7879cebbf8eb728f60ca5b3d3b27d7328ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 06/51] fix: do not report stale errors after a bound or a
 re-initialisation

ErrBoundReached hid the read errors of later calls, and errors of a previous
input survived Init.
---
 segment/segment.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 85074b8..3253fc8 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -157,6 +157,7 @@ func (s *Segmenter) init() {
 		s.pos = 0
 	}
 	s.positionOfBreakOpportunity = -1
+	s.err = nil
 }
 
 // Buffer sets the initial buffer to use when scanning and the maximum size of
@@ -354,6 +355,9 @@ func (s *Segmenter) next(bound int) bool {
 		s.setErr(ErrNotInitialized)
 		return false
 	}
+	if s.err == ErrBoundReached {
+		s.err = nil // a bound is valid for a single call only
+	}
 	//
 	s.inUse = true
 	// The Q may still hold break opportunities; which one is next depends on the bound.
-- 
2.43.0


From 389a6dd1d87c902f43ec8e3497a59a3658d315de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 07/51] fix: honour the documented limits of a segmenter's
 buffer

Without an explicit buffer, segments read from a reader were silently cut off
after 4096 runes; overflows are now reported as ErrTooLong. RuneBuffer accepts
empty buffers (of any capacity) and applies max to them.
---
 segment/segment.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 3253fc8..ea42673 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -117,6 +117,7 @@ func NewSegmenter(breakers ...uax.UnicodeBreaker) *Segmenter {
 		breakers = []uax.UnicodeBreaker{NewSimpleWordBreaker()}
 	}
 	s.breakers = breakers
+	s.runesBuf.maxSegLen = MaxSegmentSize
 	return s
 }
 
@@ -192,10 +193,8 @@ func (s *Segmenter) RuneBuffer(buf []rune, max int) {
 	if s.inUse {
 		panic("segment.Buffer: buffer already in use; cannot be re-set")
 	}
-	if len(buf) > 0 {
-		s.runesBuf.output = buf
-		s.runesBuf.maxSegLen = max
-	}
+	s.runesBuf.output = buf[:0]
+	s.runesBuf.maxSegLen = max
 }
 
 // Err returns the first non-EOF error that was encountered by the
@@ -380,7 +379,13 @@ func (s *Segmenter) next(bound int) bool {
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
-	s.getFrontSegment(bound)
+	if _, err := s.getFrontSegment(bound); err != nil {
+		s.setErr(err)
+		s.atEOF = true // no more segments, as with a failed read
+		s.deque.Clear()
+		s.runesBuf = s.runesBuf.SetMark()
+		return false
+	}
 	// tracer().Debugf("s.positionOfBreakOpp=%d", s.positionOfBreakOpportunity)
 	//tracer().P("length", strconv.Itoa(l)).Debugf("Next() = \"%s\"", s.runesBuf)
 	return true
@@ -597,7 +602,8 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // Things get more complicated by having a possible `bound` position, after
 // which no runes are allowed to be cut off.
 //
-func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
+// It returns an error if the segment does not fit into the output buffer.
+func (s *Segmenter) getFrontSegment(bound int) (int, error) {
 	seglen := 0
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 	s.runesBuf = s.runesBuf.SetMark()
@@ -606,24 +612,26 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		panic("l < 0")
 		//return 0, true
 	}
-	var isCutOff bool
 	start := s.pos - s.deque.Len()
 	if start+l >= bound { // front segment would extend bound
 		tracer().Debugf("segmenter: bound reached")
-		isCutOff = true // we truncate l to Q-start---->|bound
+		// we truncate l to Q-start---->|bound
 		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
-			return 0, true
+			return 0, nil
 		}
 	}
 	for i := 0; i <= l; i++ {
 		r, p0, p1 := s.deque.PopFront()
-		written, _ := (&s.runesBuf).WriteRune(r)
+		written, err := (&s.runesBuf).WriteRune(r)
+		if err != nil {
+			return seglen, err
+		}
 		seglen += written
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
 	//s.printQ()
-	return seglen, isCutOff
+	return seglen, nil
 }
 
 // ----------------------------------------------------------------------
@@ -747,7 +755,7 @@ func (rw runewrite) Reset(backingBuf []rune) runewrite {
 	if backingBuf == nil {
 		rw.isBacked = false
 		if rw.output == nil {
-			rw.output = make([]rune, 0, startBufSize)
+			rw.output = make([]rune, 0, max(0, min(startBufSize, rw.maxSegLen)))
 		}
 		rw.backing = nil
 	} else {
-- 
2.43.0


From 1780f2fc5114341250a30cd19b9849f0c2d35c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 08/51] fix: a re-initialised segmenter does not carry over the
 state of its breakers

Breakers kept the context of an abandoned input, and attributed it to the
first runes of the next one.
---
 segment/segment.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index ea42673..acca267 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -88,6 +88,7 @@ type Segmenter struct {
 	positionOfBreakOpportunity int                  // bookkeeping for matching
 	atEOF                      bool                 // at end of input buffer
 	inUse                      bool                 // Next() has been called; buffer is in use.
+	midText                    bool                 // breakers have seen runes, but not the end of text
 	err                        error                // collects the first error occured
 }
 
@@ -159,6 +160,14 @@ func (s *Segmenter) init() {
 	}
 	s.positionOfBreakOpportunity = -1
 	s.err = nil
+	if s.midText { // input has been abandoned: let the breakers finish with it
+		for _, breaker := range s.breakers {
+			cpClass := breaker.CodePointClassFor(eotAtom.r)
+			breaker.StartRulesFor(eotAtom.r, cpClass)
+			breaker.ProceedWithRune(eotAtom.r, cpClass)
+		}
+		s.midText = false
+	}
 }
 
 // Buffer sets the initial buffer to use when scanning and the maximum size of
@@ -468,6 +477,7 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 			// aggregates at the atoms in the Q.
 			qlen = s.deque.Len()
 			s.longestActiveMatch = 0
+			s.midText = !s.atEOF
 			r := s.deque.LastRune()
 			for _, breaker := range s.breakers {
 				cpClass := breaker.CodePointClassFor(r)
-- 
2.43.0


From 7ad6bab20f9a8b37e800e2189f68bb6c48dd809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 09/51] fix: PositionOfFirstLegalRune skips illegal bytes

It looped forever on a continuation byte, and gave up at an illegal first
byte instead of cutting it off.
---
 uax.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/uax.go b/uax.go
index f7656cd..38c2c70 100644
--- a/uax.go
+++ b/uax.go
@@ -7,13 +7,12 @@ import "unicode/utf8"
 func PositionOfFirstLegalRune(s string) (int, []byte) {
 	i, l, start := 0, len(s), -1
 	for i < l {
-		if utf8.RuneStart(s[i]) {
-			r, _ := utf8.DecodeRuneInString(s[i:])
-			if r != utf8.RuneError {
-				start = i
-			}
+		r, sz := utf8.DecodeRuneInString(s[i:])
+		if r != utf8.RuneError || sz > 1 { // an encoded U+FFFD is legal
+			start = i
 			break
 		}
+		i++ // skip illegal byte
 	}
 	//CT().Debugf("start index = %d", start)
 	return start, []byte(s[:i])
-- 
2.43.0


From 521dc1aa1ef158caddaa7859ba29935a63e8b6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 10/51] fix: grapheme strings from empty, partly illegal, or
 U+FFFD input

Empty and illegal input panicked, byte positions were off after a cut-off
prefix, and an encoded U+FFFD ended the string.
---
 grapheme/string.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/grapheme/string.go b/grapheme/string.go
index 6ba77dc..47a5158 100644
--- a/grapheme/string.go
+++ b/grapheme/string.go
@@ -75,10 +75,11 @@ type shortString struct {
 
 func makeShortString(s string) String {
 	gstr := &shortString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, start := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
+	gstr.content = s[start:]
 	gstr.breaks = make([]uint8, 1, len(s)/4+1)
 	gstr.breaks[0] = 0
 	br := 0
@@ -124,10 +125,11 @@ type midString struct {
 
 func makeMidString(s string) String {
 	gstr := &midString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, start := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
+	gstr.content = s[start:]
 	gstr.breaks = make([]uint16, 1, len(s)/4)
 	gstr.breaks[0] = 0
 	br := 0
@@ -166,14 +168,19 @@ func (gstr *midString) String() string {
 
 // ---------------------------------------------------------------------------
 
-func prepareBreaking(s string) *segment.Segmenter {
+// prepareBreaking returns a segmenter for s, together with the start position of
+// the first legal rune. If there is none, it returns nil.
+func prepareBreaking(s string) (*segment.Segmenter, int) {
 	breaker := makeGraphemeBreaker()
 	start, _ := uax.PositionOfFirstLegalRune(s)
 	if start < 0 {
-		tracer().Errorf("cannot create grapheme string from invalid rune input")
+		if len(s) > 0 {
+			tracer().Errorf("cannot create grapheme string from invalid rune input")
+		}
+		return nil, start
 	}
 	breaker.Init(&rr{input: s[start:], pos: 0})
-	return breaker
+	return breaker, start
 }
 
 func makeGraphemeBreaker() *segment.Segmenter {
@@ -190,7 +197,7 @@ type rr struct {
 func (reader *rr) ReadRune() (r rune, size int, err error) {
 	r, size = utf8.DecodeRuneInString(reader.input)
 	tracer().Debugf("read rune %v with size %d", r, size)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && size <= 1 { // an encoded U+FFFD is a legal rune
 		err = io.EOF
 		return
 	}
-- 
2.43.0


From 4a88553682f8ba9b90b38dd4ef7b9dc8dde73d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 11/51] fix: uax11 sets up the emoji classes it depends on

Width panicked unless a client had set up another package before.
---
 uax11/width.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uax11/width.go b/uax11/width.go
index 0dc55cc..1f9fd4a 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -67,6 +67,7 @@ func StringWidth(s grapheme.String, context *Context) int {
 func graphemeWidth(grphm []byte, context *Context) int {
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
+	emoji.SetupEmojisClasses()
 	if emoji.EmojisClassForRune(r) >= 0 {
 		//T().Debugf("%#U is emoji", r)
 		return 2
-- 
2.43.0


From d477bd5b28e7038a8fa41f0800487546bf67f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 12/51] fix: ASCII digits, '#' and '*' are narrow

---
 uax11/width.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uax11/width.go b/uax11/width.go
index 1f9fd4a..3ee2a6f 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -1,6 +1,8 @@
 package uax11
 
 import (
+	"bytes"
+	"unicode"
 	"unicode/utf8"
 
 	jj "github.com/cloudfoundry/jibber_jabber"
@@ -68,7 +70,7 @@ func graphemeWidth(grphm []byte, context *Context) int {
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
 	emoji.SetupEmojisClasses()
-	if emoji.EmojisClassForRune(r) >= 0 {
+	if emoji.EmojisClassForRune(r) >= 0 && (r > unicode.MaxASCII || isEmojiSequence(grphm)) {
 		//T().Debugf("%#U is emoji", r)
 		return 2
 	}
@@ -81,6 +83,12 @@ func graphemeWidth(grphm []byte, context *Context) int {
 	return 1
 }
 
+// ASCII digits, '#' and '*' are of class Emoji, but only start an emoji when
+// followed by an emoji variation selector.
+func isEmojiSequence(grphm []byte) bool {
+	return bytes.ContainsRune(grphm, '\uFE0F')
+}
+
 // --- Context ---------------------------------------------------------------
 
 // Context represents information about the typesetting environment.
-- 
2.43.0


From 2562b757658ae5e1657b807bab1a860683553836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 13/51] fix: graphemes of zero width runes have width 0, as
 documented

---
 uax11/width.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/uax11/width.go b/uax11/width.go
index 3ee2a6f..c307fe6 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -69,6 +69,9 @@ func StringWidth(s grapheme.String, context *Context) int {
 func graphemeWidth(grphm []byte, context *Context) int {
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
+	if isZeroWidth(grphm) {
+		return 0
+	}
 	emoji.SetupEmojisClasses()
 	if emoji.EmojisClassForRune(r) >= 0 && (r > unicode.MaxASCII || isEmojiSequence(grphm)) {
 		//T().Debugf("%#U is emoji", r)
@@ -83,6 +86,18 @@ func graphemeWidth(grphm []byte, context *Context) int {
 	return 1
 }
 
+// A grapheme has zero width if it consists of nothing but non-spacing marks and
+// invisible format characters.
+func isZeroWidth(grphm []byte) bool {
+	for _, r := range string(grphm) {
+		if !unicode.In(r, unicode.Mn, unicode.Me, unicode.Cf) ||
+			unicode.Is(unicode.Prepended_Concatenation_Mark, r) || r == 0x00AD { // soft hyphen
+			return false
+		}
+	}
+	return true
+}
+
 // ASCII digits, '#' and '*' are of class Emoji, but only start an emoji when
 // followed by an emoji variation selector.
 func isEmojiSequence(grphm []byte) bool {
-- 
2.43.0


From 10efc68f8768f44bf7b00ff99b5f51b04415b146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 14/51] fix: recognizers are handed out by the pool without
 stale user data

---
 automata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/automata.go b/automata.go
index f5e31a0..f61cce5 100644
--- a/automata.go
+++ b/automata.go
@@ -109,6 +109,7 @@ func (rec *Recognizer) releaseIntoPool() {
 	rec.penalties = nil
 	rec.Expect = 0
 	rec.MatchLen = 0
+	rec.UserData = nil
 	rec.nextStep = nil
 	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)
 }
-- 
2.43.0


From 5da53c8cfc7bfa8f4805a1e6d5cc2dca58c95a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 15/51] fix: generated range tables contain the last range and
 no spurious U+0000

---
 internal/ucdparse/gentables.go | 45 ++++++++++++++--------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/internal/ucdparse/gentables.go b/internal/ucdparse/gentables.go
index 6b2a0ea..aaddc65 100644
--- a/internal/ucdparse/gentables.go
+++ b/internal/ucdparse/gentables.go
@@ -3,6 +3,7 @@ package ucdparse
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"unicode"
 )
 
@@ -19,58 +20,50 @@ var rangeTables map[string]*RangeTableCollector // one for each range table to g
 // RangeTableCollector is a type to collect character ranges during iteration of
 // UCD files, and later output them to Go source code.
 type RangeTableCollector struct {
-	Cat              string // character category
-	cnt, latinOffset int    // range count and unicode.RangeTable.LatinOffset
-	switch32         int    // range item where to switch to int32 size
-	ranges           [][2]rune
-	lo, hi           rune // low and high bound of current range
+	Cat    string // character category
+	ranges [][2]rune
 }
 
 // Append a range of runes to a range table collector. A single
 // character is denoted by l == r.
 //
 func (rt *RangeTableCollector) Append(l, r rune) {
-	if l == rt.hi+1 {
-		rt.hi = r // range extends previous range
+	if n := len(rt.ranges); n > 0 && l == rt.ranges[n-1][1]+1 {
+		rt.ranges[n-1][1] = r // range extends previous range
 		return
 	}
-	// check for switch points in range list
-	if rt.latinOffset == 0 && rt.hi > unicode.MaxLatin1 {
-		rt.latinOffset = rt.cnt
-	}
-	if rt.switch32 == 0 && (rt.lo > (1<<16) || rt.hi > (1<<16)) {
-		// switch to range32
-		rt.switch32 = rt.cnt
-	}
-	// append current range lo…hi to ranges
-	rt.ranges = append(rt.ranges, [2]rune{rt.lo, rt.hi})
-	rt.cnt++
-	rt.lo, rt.hi = l, r
+	rt.ranges = append(rt.ranges, [2]rune{l, r})
 }
 
 // Output creates Go source code for a range table.
 func (rt *RangeTableCollector) Output(buf *bytes.Buffer) {
+	latinOffset := 0
+	in32 := false // have we switched to range32?
 	printRangePreamble(buf, rt)
-	for i, r := range rt.ranges {
-		if rt.switch32 > 0 && i == rt.switch32 {
+	for _, r := range rt.ranges {
+		if r[1] <= unicode.MaxLatin1 {
+			latinOffset++
+		}
+		if !in32 && r[1] > math.MaxUint16 {
+			in32 = true
 			fmt.Fprintf(buf, "\t},\n\tR32: []unicode.Range32{\n")
 		}
 		fmt.Fprintf(buf, "\t\t{%#04x, %#04x, 1},\n", r[0], r[1])
 	}
-	printRangePostamble(buf, rt)
+	printRangePostamble(buf, latinOffset)
 }
 
 func printRangePreamble(buf *bytes.Buffer, t *RangeTableCollector) {
 	fmt.Fprintf(buf, "var _%s = &unicode.RangeTable{ ", t.Cat)
-	fmt.Fprintf(buf, "// %d entries", t.cnt)
+	fmt.Fprintf(buf, "// %d entries", len(t.ranges))
 	fmt.Fprintf(buf, `
 	R16: []unicode.Range16{
 `)
 }
 
-func printRangePostamble(buf *bytes.Buffer, t *RangeTableCollector) {
-	if t.latinOffset > 0 {
-		fmt.Fprintf(buf, "\t},\n\tLatinOffset: %d,\n}\n\n", t.latinOffset)
+func printRangePostamble(buf *bytes.Buffer, latinOffset int) {
+	if latinOffset > 0 {
+		fmt.Fprintf(buf, "\t},\n\tLatinOffset: %d,\n}\n\n", latinOffset)
 	} else {
 		fmt.Fprintf(buf, "\t},\n}\n\n")
 	}
-- 
2.43.0


From cad318705772e782b89a697c380168376cba6ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 16/51] fix: shaping tables contain the last range of each
 class and not U+0000

---
 shaping/arabictables.go |  20 +++-----
 shaping/uipctables.go   |  51 +++++++++----------
 shaping/uisctables.go   | 108 +++++++++++++++++-----------------------
 3 files changed, 77 insertions(+), 102 deletions(-)

diff --git a/shaping/arabictables.go b/shaping/arabictables.go
index 320fc5a..1530022 100644
--- a/shaping/arabictables.go
+++ b/shaping/arabictables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _ARAB_D = &unicode.RangeTable{ // 72 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0620, 0x0620, 1},
 		{0x0626, 0x0626, 1},
 		{0x0628, 0x0628, 1},
@@ -80,13 +79,12 @@ var _ARAB_D = &unicode.RangeTable{ // 72 entries
 		{0x10fc1, 0x10fc1, 1},
 		{0x10fc4, 0x10fc4, 1},
 		{0x10fca, 0x10fca, 1},
+		{0x1e900, 0x1e943, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_R = &unicode.RangeTable{ // 62 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0622, 0x0625, 1},
 		{0x0627, 0x0627, 1},
 		{0x0629, 0x0629, 1},
@@ -150,45 +148,43 @@ var _ARAB_R = &unicode.RangeTable{ // 62 entries
 		{0x10fb9, 0x10fba, 1},
 		{0x10fbd, 0x10fbd, 1},
 		{0x10fc2, 0x10fc3, 1},
+		{0x10fc9, 0x10fc9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_C = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0640, 0x0640, 1},
 		{0x07fa, 0x07fa, 1},
 		{0x180a, 0x180a, 1},
+		{0x200d, 0x200d, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_T = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x070f, 0x070f, 1},
 		{0x1885, 0x1886, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1e94b, 0x1e94b, 1},
+	},
 }
 
 var _ARAB_L = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0xa872, 0xa872, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10acd, 0x10acd, 1},
 		{0x10ad7, 0x10ad7, 1},
 		{0x10d00, 0x10d00, 1},
+		{0x10fcb, 0x10fcb, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_U = &unicode.RangeTable{ // 29 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0600, 0x0605, 1},
 		{0x0608, 0x0608, 1},
 		{0x060b, 0x060b, 1},
@@ -219,8 +215,8 @@ var _ARAB_U = &unicode.RangeTable{ // 29 entries
 		{0x10fc0, 0x10fc0, 1},
 		{0x10fc5, 0x10fc8, 1},
 		{0x110bd, 0x110bd, 1},
+		{0x110cd, 0x110cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
diff --git a/shaping/uipctables.go b/shaping/uipctables.go
index 786df75..d403bb2 100644
--- a/shaping/uipctables.go
+++ b/shaping/uipctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x0941, 0x0944, 1},
 		{0x094d, 0x094d, 1},
@@ -151,55 +150,56 @@ var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 		{0x11d42, 0x11d42, 1},
 		{0x11d44, 0x11d44, 1},
 		{0x11d47, 0x11d47, 1},
+		{0x11ef4, 0x11ef4, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Bottom = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0c48, 0x0c48, 1},
 		{0x0f73, 0x0f73, 1},
 		{0x0f76, 0x0f79, 1},
 		{0x0f81, 0x0f81, 1},
 		{0x1b3c, 0x1b3c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1112e, 0x1112f, 1},
+	},
 }
 
 var _UIPC_Bottom_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1b3b, 0x1b3b, 1},
 		{0xa9be, 0xa9be, 1},
 		{0xa9c0, 0xa9c0, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11942, 0x11942, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Left = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x103c, 0x103c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1171e, 0x1171e, 1},
+	},
 }
 
 var _UIPC_Overstruck = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1cd4, 0x1cd4, 1},
 		{0x1ce2, 0x1ce8, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10a01, 0x10a01, 1},
+		{0x10a06, 0x10a06, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093f, 0x093f, 1},
 		{0x094e, 0x094e, 1},
 		{0x09bf, 0x09bf, 1},
@@ -248,13 +248,12 @@ var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 		{0x119d2, 0x119d2, 1},
 		{0x119e4, 0x119e4, 1},
 		{0x11cb1, 0x11cb1, 1},
+		{0x11ef5, 0x11ef5, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09cb, 0x09cc, 1},
 		{0x0b4b, 0x0b4b, 1},
 		{0x0bca, 0x0bcc, 1},
@@ -270,13 +269,12 @@ var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 		{0x114bc, 0x114bc, 1},
 		{0x114be, 0x114be, 1},
 		{0x115ba, 0x115ba, 1},
+		{0x11938, 0x11938, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x093a, 0x093a, 1},
 		{0x0945, 0x0948, 1},
@@ -471,13 +469,12 @@ var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 		{0x11d43, 0x11d43, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d95, 0x11d95, 1},
+		{0x11ef3, 0x11ef3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x093b, 0x093b, 1},
 		{0x093e, 0x093e, 1},
@@ -643,42 +640,41 @@ var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d93, 0x11d94, 1},
 		{0x11d96, 0x11d96, 1},
+		{0x11ef6, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b4c, 0x0b4c, 1},
 		{0x0ddd, 0x0ddd, 1},
 		{0x17bf, 0x17bf, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x115bb, 0x115bb, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Right = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1b3d, 0x1b3d, 1},
 	},
 }
 
 var _UIPC_Visual_Order_Left = &unicode.RangeTable{ // 7 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e40, 0x0e44, 1},
 		{0x0ec0, 0x0ec4, 1},
 		{0x19b5, 0x19b7, 1},
 		{0x19ba, 0x19ba, 1},
 		{0xaab5, 0xaab6, 1},
 		{0xaab9, 0xaab9, 1},
+		{0xaabb, 0xaabc, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0ac9, 0x0ac9, 1},
 		{0x0b57, 0x0b57, 1},
 		{0x0cc0, 0x0cc0, 1},
@@ -689,13 +685,12 @@ var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	},
 	R32: []unicode.Range32{
 		{0x111bf, 0x111bf, 1},
+		{0x11232, 0x11233, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b48, 0x0b48, 1},
 		{0x0dda, 0x0dda, 1},
 		{0x17be, 0x17be, 1},
@@ -703,13 +698,13 @@ var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	},
 	R32: []unicode.Range32{
 		{0x114bb, 0x114bb, 1},
+		{0x115b9, 0x115b9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Bottom_And_Left = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0xa9bf, 0xa9bf, 1},
 	},
 }
 
diff --git a/shaping/uisctables.go b/shaping/uisctables.go
index bb8ae4f..da55bb3 100644
--- a/shaping/uisctables.go
+++ b/shaping/uisctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x09bc, 0x09bc, 1},
 		{0x0a3c, 0x0a3c, 1},
@@ -34,31 +33,29 @@ var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 		{0x116b7, 0x116b7, 1},
 		{0x1183a, 0x1183a, 1},
 		{0x11943, 0x11943, 1},
+		{0x11d42, 0x11d42, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Prefixed = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 	},
 	R32: []unicode.Range32{
 		{0x111c2, 0x111c3, 1},
 		{0x1193f, 0x1193f, 1},
 		{0x11a3a, 0x11a3a, 1},
+		{0x11a84, 0x11a89, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Modifying_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0b83, 0x0b83, 1},
 	},
 }
 
 var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e48, 0x0e4b, 1},
 		{0x0ec8, 0x0ecb, 1},
 		{0x1037, 0x1037, 1},
@@ -73,24 +70,22 @@ var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 		{0xaa7b, 0xaa7d, 1},
 		{0xaabf, 0xaabf, 1},
 		{0xaac1, 0xaac1, 1},
+		{0xabec, 0xabec, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Gemination_Mark = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a71, 0x0a71, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11237, 0x11237, 1},
+		{0x11a98, 0x11a98, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x0983, 0x0983, 1},
 		{0x0a03, 0x0a03, 1},
@@ -127,13 +122,12 @@ var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 		{0x11a97, 0x11a97, 1},
 		{0x11c3e, 0x11c3e, 1},
 		{0x11d41, 0x11d41, 1},
+		{0x11d96, 0x11d96, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1930, 0x1931, 1},
 		{0x1933, 0x1939, 1},
 		{0x19c1, 0x19c7, 1},
@@ -145,12 +139,13 @@ var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 		{0xaa40, 0xaa4d, 1},
 		{0xabdb, 0xabe2, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11a8a, 0x11a95, 1},
+	},
 }
 
 var _UISC_Number = &unicode.RangeTable{ // 45 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0030, 0x0039, 1},
 		{0x0966, 0x096f, 1},
 		{0x09e6, 0x09ef, 1},
@@ -197,13 +192,13 @@ var _UISC_Number = &unicode.RangeTable{ // 45 entries
 		{0x11950, 0x11959, 1},
 		{0x11c50, 0x11c6c, 1},
 		{0x11d50, 0x11d59, 1},
+		{0x11da0, 0x11da9, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d3b, 0x0d3c, 1},
 		{0x0e3a, 0x0e3a, 1},
 		{0x0e4e, 0x0e4e, 1},
@@ -226,13 +221,12 @@ var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 		{0x1172b, 0x1172b, 1},
 		{0x1193d, 0x1193d, 1},
 		{0x11a34, 0x11a34, 1},
+		{0x11d44, 0x11d44, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0904, 0x0914, 1},
 		{0x0960, 0x0961, 1},
 		{0x0972, 0x0977, 1},
@@ -321,13 +315,12 @@ var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 		{0x11d0b, 0x11d0b, 1},
 		{0x11d60, 0x11d65, 1},
 		{0x11d67, 0x11d68, 1},
+		{0x11d6a, 0x11d6b, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x002d, 0x002d, 1},
 		{0x00a0, 0x00a0, 1},
 		{0x00d7, 0x00d7, 1},
@@ -344,25 +337,25 @@ var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R32: []unicode.Range32{
 		{0x11a3f, 0x11a3f, 1},
 		{0x11a45, 0x11a45, 1},
+		{0x11ef2, 0x11ef2, 1},
 	},
-	LatinOffset: 4,
+	LatinOffset: 3,
 }
 
 var _UISC_Consonant_Head_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0f88, 0x0f8c, 1},
 	},
 }
 
 var _UISC_Non_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200c, 0x200c, 1},
 	},
 }
 
 var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1039, 0x1039, 1},
 		{0x17d2, 0x17d2, 1},
 		{0x1a60, 0x1a60, 1},
@@ -376,25 +369,24 @@ var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 		{0x11a47, 0x11a47, 1},
 		{0x11a99, 0x11a99, 1},
 		{0x11d45, 0x11d45, 1},
+		{0x11d97, 0x11d97, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Initial_Postfixed = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1a5a, 0x1a5a, 1},
 	},
 }
 
 var _UISC_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200d, 0x200d, 1},
 	},
 }
 
 var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x0981, 0x0982, 1},
 		{0x09fc, 0x09fc, 1},
@@ -452,13 +444,12 @@ var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 		{0x11c3c, 0x11c3d, 1},
 		{0x11cb5, 0x11cb6, 1},
 		{0x11d40, 0x11d40, 1},
+		{0x11d95, 0x11d95, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x094d, 0x094d, 1},
 		{0x09cd, 0x09cd, 1},
 		{0x0a4d, 0x0a4d, 1},
@@ -487,13 +478,12 @@ var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 		{0x116b6, 0x116b6, 1},
 		{0x11839, 0x11839, 1},
 		{0x119e0, 0x119e0, 1},
+		{0x11c3f, 0x11c3f, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093a, 0x093b, 1},
 		{0x093e, 0x094c, 1},
 		{0x094e, 0x094f, 1},
@@ -627,13 +617,12 @@ var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d93, 0x11d94, 1},
+		{0x11ef3, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0915, 0x0939, 1},
 		{0x0958, 0x095f, 1},
 		{0x0978, 0x097f, 1},
@@ -788,24 +777,24 @@ var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 		{0x11c72, 0x11c8f, 1},
 		{0x11d0c, 0x11d30, 1},
 		{0x11d6c, 0x11d89, 1},
+		{0x11ee0, 0x11ef1, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1963, 0x196d, 1},
 		{0xa85e, 0xa861, 1},
 		{0xa866, 0xa866, 1},
 		{0xa922, 0xa92a, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11150, 0x11154, 1},
+	},
 }
 
 var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0f8d, 0x0f97, 1},
 		{0x0f99, 0x0fbc, 1},
 		{0x1929, 0x192b, 1},
@@ -819,13 +808,12 @@ var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	},
 	R32: []unicode.Range32{
 		{0x11c92, 0x11ca7, 1},
+		{0x11ca9, 0x11caf, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0951, 0x0952, 1},
 		{0x0a51, 0x0a51, 1},
 		{0x0afa, 0x0afc, 1},
@@ -839,19 +827,18 @@ var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R32: []unicode.Range32{
 		{0x1123e, 0x1123e, 1},
 		{0x11366, 0x1136c, 1},
+		{0x11370, 0x11374, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Register_Shifter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x17c9, 0x17ca, 1},
 	},
 }
 
 var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x00b2, 0x00b3, 1},
 		{0x09fe, 0x09fe, 1},
 		{0x0f35, 0x0f35, 1},
@@ -872,19 +859,21 @@ var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R32: []unicode.Range32{
 		{0x111c9, 0x111c9, 1},
 		{0x1145e, 0x1145e, 1},
+		{0x11a33, 0x11a33, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Number_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x1107f, 0x1107f, 1},
 	},
 }
 
 var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093d, 0x093d, 1},
 		{0x09bd, 0x09bd, 1},
 		{0x0abd, 0x0abd, 1},
@@ -903,34 +892,31 @@ var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 		{0x114c4, 0x114c4, 1},
 		{0x119e1, 0x119e1, 1},
 		{0x11a9d, 0x11a9d, 1},
+		{0x11c40, 0x11c40, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Dead = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09ce, 0x09ce, 1},
 		{0x0d54, 0x0d56, 1},
 		{0x0d7a, 0x0d7f, 1},
+		{0x1cf2, 0x1cf3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Preceding_Repha = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d4e, 0x0d4e, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11941, 0x11941, 1},
+		{0x11d46, 0x11d46, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a75, 0x0a75, 1},
 		{0x0ebc, 0x0ebd, 1},
 		{0x103b, 0x103e, 1},
@@ -946,53 +932,51 @@ var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 		{0x11940, 0x11940, 1},
 		{0x11942, 0x11942, 1},
 		{0x11a3b, 0x11a3e, 1},
+		{0x11d47, 0x11d47, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Killer = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e4c, 0x0e4c, 1},
+		{0x17cd, 0x17cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Brahmi_Joining_Number = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x11052, 0x11065, 1},
 	},
 }
 
 var _UISC_Consonant_With_Stacker = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0cf1, 0x0cf2, 1},
 		{0x1cf5, 0x1cf6, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11003, 0x11004, 1},
+		{0x11460, 0x11461, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Succeeding_Repha = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x17cc, 0x17cc, 1},
 		{0x1b03, 0x1b03, 1},
 		{0x1b81, 0x1b81, 1},
+		{0xa982, 0xa982, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Tone_Letter = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1970, 0x1974, 1},
 		{0xaac0, 0xaac0, 1},
+		{0xaac2, 0xaac2, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
-- 
2.43.0


From 2cc8a9a9aed11d3326554a87abb3810ee54c8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 17/51] fix: keep an empty first field of UCD items

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 7a616ab..7fba8de 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -192,7 +192,7 @@ func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 		fmt.Printf("@ comment = %q\n", token.Comment)
 	}
 	a[0] = strings.TrimSpace(a[0])
-	a[0] = strings.TrimLeft(a[0], ";")
+	a[0] = strings.TrimPrefix(a[0], ";")
 	token.Fields = strings.Split(a[0], ";")
 	return token, nil
 }
-- 
2.43.0


From 01e2b577613aff1a4ffb49815e594e91d9e5f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 18/51] fix: report errors of the reader of a UCD file instead
 of panicking or looping

---
 internal/ucdparse/linebuf.go | 2 ++
 internal/ucdparse/scan.go    | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index d4dc643..e290152 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -117,6 +117,8 @@ func (buf *lineBuffer) AdvanceLine() error {
 		//fmt.Printf("===> reading line #%d\n", buf.CurrentLine)
 		if !buf.Input.Scan() { // could not read a new line: either I/O-error or EOF
 			if err := buf.Input.Err(); err != nil {
+				buf.isEof = 2 // no more input to expect
+				buf.Line = strings.NewReader("")
 				return fmt.Errorf("I/O error (%w) while reading input", err)
 			}
 			//fmt.Println("===> EOF !")
diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 7fba8de..3435852 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -50,6 +50,9 @@ func Parse(r io.Reader, f func(token *Token)) error {
 	for sc.Next() {
 		f(sc.Token)
 	}
+	if sc.LastError == nil && sc.Buf.LastError != errAtEof {
+		return sc.Buf.LastError
+	}
 	return sc.LastError
 }
 
-- 
2.43.0


From 2eca1e2b02c90d8c5e643324fcd99e471f42887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 19/51] fix: remove data race when the first word breakers are
 created concurrently

NewWordBreaker looked at the class tables, for a log message, without
synchronizing with a set-up which may be under way in another goroutine.
---
 uax29/uax29.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index e1a1451..fff7e87 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -135,9 +135,6 @@ func NewWordBreaker(weight int) *WordBreaker {
 		KatakanaClass:           {rule_WB13, rule_WB13a},
 		Regional_IndicatorClass: {rule_WB15},
 	}
-	if rangeFromUAX29Class == nil {
-		tracer().Infof("UAX#29 classes not yet initialized -> initializing")
-	}
 	SetupUAX29Classes()
 	return gb
 }
-- 
2.43.0


From be9fb0e95df4ba8f8721d0e1e78a931dfbf193f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 20/51] fix: bidi rules W7, N1-3 to N1-10 must replace just the
 scraps they match, without losing text

---
 bidi/actions.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d22f252..6220fc3 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -142,7 +142,7 @@ func ruleW7() (*bidiRule, []byte) {
 				L[0].bidiclz = bidi.L
 				return L, 0, true // replace EN with L, start again with L
 			}
-			return match, 1, true // step over EN
+			return match[:1], 1, false // step over EN
 		},
 	}, lhs
 }
@@ -187,9 +187,8 @@ func ruleN1_3() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.AN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -202,9 +201,8 @@ func ruleN1_4() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.EN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -217,7 +215,7 @@ func ruleN1_5() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -240,7 +238,7 @@ func ruleN1_8() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -322,7 +320,7 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
 		action: func(match []scrap) ([]scrap, int, bool) {
 			match[1].bidiclz = c // change class of middle interval
-			return match, jmp, false
+			return match[:len(lhs)], jmp, false
 		},
 	}
 }
-- 
2.43.0


From a43fcc7ea2ecf4041d3400b4c428b2ce347588ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 21/51] fix: locate bidi rules after all left hand sides are
 stored, N1-5, N1-6, N1-8 and N1-9 had been lost

---
 bidi/resolver.go | 67 ++++++++++++------------------------------------
 1 file changed, 17 insertions(+), 50 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9bc664e..0df5616 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -499,59 +499,26 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 			tracer().Errorf(err.Error())
 			panic(err.Error())
 		}
-		var r *bidiRule
 		tracelevel := tracer().GetTraceLevel()
 		tracer().SetTraceLevel(tracing.LevelInfo)
-		var lhs []byte
 		// --- allocate all the rules ---
-		r, lhs = ruleW4_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW4_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW4_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW5_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW5_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW6x()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleW7()
-		allocRule(trie, r, lhs)
-		// r, lhs = ruleN1_0()
-		// allocRule(trie, r, lhs)
-		r, lhs = ruleN1_1()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_3()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_4()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_5()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_6()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_7()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_8()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_9()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN1_10()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleN2()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleL()
-		allocRule(trie, r, lhs)
-		r, lhs = ruleR()
-		allocRule(trie, r, lhs)
+		constructors := []func() (*bidiRule, []byte){
+			ruleW4_1, ruleW4_2, ruleW4_3, ruleW5_1, ruleW5_2,
+			ruleW6_1, ruleW6_2, ruleW6_3, ruleW6x, ruleW7,
+			ruleN1_1, ruleN1_2, ruleN1_3, ruleN1_4, ruleN1_5,
+			ruleN1_6, ruleN1_7, ruleN1_8, ruleN1_9, ruleN1_10,
+			ruleN2, ruleL, ruleR,
+		}
+		for _, construct := range constructors {
+			_, lhs := construct()
+			trie.AllocPositionForWord(lhs)
+		}
+		// Storing a word may move words stored before to another position. Therefore
+		// rules are located not before all of their left hand sides are in place.
+		for _, construct := range constructors {
+			rule, lhs := construct()
+			allocRule(trie, rule, lhs)
+		}
 		// ------------------------------
 		trie.Freeze()
 		tracer().SetTraceLevel(tracelevel)
-- 
2.43.0


From 3e863a81c47fad2f06fea9a18e8f752dd9b07544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 22/51] fix: bidi scanner keeps track of the strong context,
 including start-of-sequence and isolates

---
 bidi/scanner.go | 75 ++++++++++++++++++++++---------------------------
 bidi/scrap.go   |  4 ++-
 2 files changed, 36 insertions(+), 43 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca64101..d634fac 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -33,6 +33,7 @@ type bidiScanner struct {
 	lastMarkup    int                             // last / remaining markup
 	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
 	IRSStack      []charpos                       // start positions of IRSs
+	context       dirContext                      // context at the current position of the input
 	ctxstack      []dirContext                    // context stack for IRSs
 }
 
@@ -146,7 +147,7 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
-	lastAL := int64(-1) // position of last AL character-run in input
+	sc.context = current.context
 	for {
 		r, length, bidiclz, ok := sc.nextRune(current.r) // read the next input rune
 		if !ok {                                         // if EOF, drain lookahead and quit
@@ -166,10 +167,10 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				bidiclz = setTestingIRSDelimiter(r, bidiclz)
 			}
 		}
-		isAL := bidiclz == bidi.AL                     // AL will be changed by rule W3
-		bidiclz = applyRulesW1to3(r, bidiclz, current) // UAX#9 W1–3 handled by scanner
-		//lookahead = makeScrap(r, bidiclz, lapos, length)
+		isAL := bidiclz == bidi.AL                                 // AL will be changed by rule W3
+		bidiclz = applyRulesW1to3(r, bidiclz, current, sc.context) // UAX#9 W1–3 handled by scanner
 		lookahead = makeScrap(r, bidiclz, current.r, length)
+		lookahead.context = sc.context // strong context preceding the lookahead
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
@@ -181,21 +182,18 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				sc.post(current, pipe) // put current on channel
 			}
 			// proceed ahead, making lookahead the current scrap
-			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
-				sc.ctxstack = append(sc.ctxstack, current.context)
-			} else if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
-				current.context = sc.ctxstack[len(sc.ctxstack)-1]
-				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
-			}
-			lookahead = inheritStrongTypes(lookahead, current, lastAL)
+			lookahead = sc.switchContext(lookahead)
 			current = sc.prepareRuleBD16(r, lookahead)
-			if isAL {
-				lastAL = int64(current.l)
-			}
 		} else { // otherwise the current scrap grows
 			current = collapse(current, lookahead, current.bidiclz) // meld LA with current
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
 		}
+		// remember strong types, they are the context for everything to follow
+		if isAL {
+			sc.context.SetStrongType(bidi.AL, lookahead.l)
+		} else {
+			sc.context.SetStrongType(bidiclz, lookahead.l)
+		}
 	}
 	tracer().Infof("stopped bidi scanner")
 }
@@ -234,7 +232,7 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 // applyRulesW1to3 returns the Bidi_Class for a rune. It will apply certain UAX#9
 // rules immediately to relief the parser.
 //
-func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
+func applyRulesW1to3(r rune, clz bidi.Class, current scrap, context dirContext) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
 	case bidi.NSM: // rule W1, handle accents
@@ -248,8 +246,7 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 		}
 		return currclz
 	case bidi.EN: // rule W2
-		if current.context.IsAL() {
-			tracer().Errorf("========= context: %v", current.context)
+		if context.IsAL() {
 			return bidi.AN
 		}
 	case bidi.AL: // rule W3
@@ -284,34 +281,28 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 	return s
 }
 
-// lastAL is the position of the last AL character that has occured (before
-// UAX#9 rule W3 changed it)
-func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
-	tracer().Debugf("bidi scanner: inherit %s => %s     %v", src, dest, src.context)
-	dest.context = src.context
-	switch dest.bidiclz {
-	case bidi.LRI:
-		dest.context.embeddingDir = bidi.L
-	case bidi.RLI:
-		dest.context.embeddingDir = bidi.R
-		//panic("R2")
-	default:
-		if lastAL >= 0 {
-			dest.context.SetStrongType(bidi.AL, charpos(lastAL))
+// switchContext is called whenever the scanner starts a new scrap. Isolates start with a
+// fresh context, having the start-of-sequence (sos) as a strong type. The text following
+// an isolate continues with the context the isolate is embedded in.
+func (sc *bidiScanner) switchContext(s scrap) scrap {
+	switch s.bidiclz {
+	case bidi.LRI, bidi.RLI:
+		sc.ctxstack = append(sc.ctxstack, sc.context)
+		if s.bidiclz == bidi.LRI {
+			sc.context.SetEmbedding(bidi.LeftToRight)
+		} else {
+			sc.context.SetEmbedding(bidi.RightToLeft)
 		}
-		switch src.bidiclz {
-		case bidi.L, bidi.LRI:
-			dest.context.SetStrongType(bidi.L, src.l)
-			tracer().Debugf("bidi scanner LA has L context=%v from %v", dest.context, src.context)
-		case bidi.R, bidi.RLI:
-			dest.context.SetStrongType(bidi.R, src.l)
-			tracer().Debugf("bidi scanner LA has R context=%v from %v", dest.context, src.context)
-		case bidi.AL:
-			dest.context.SetStrongType(bidi.AL, src.l)
-			tracer().Debugf("bidi scanner lA has AL context=%v from %v", dest.context, src.context)
+		s.context = sc.context
+	case bidi.FSI:
+		sc.ctxstack = append(sc.ctxstack, sc.context)
+	case bidi.PDI:
+		if len(sc.ctxstack) > 0 {
+			sc.context = sc.ctxstack[len(sc.ctxstack)-1]
+			sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
 		}
 	}
-	return dest
+	return s
 }
 
 // --- Nesting isolating run sequences ---------------------------------------
diff --git a/bidi/scrap.go b/bidi/scrap.go
index 47095fa..9c4a01e 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -202,7 +202,7 @@ func (dc dirContext) EmbeddingDir() bidi.Class {
 // Set position of recent strong type. If it matches the embedding direction
 // and at > the previous matching position, the matching position is updated.
 func (dc *dirContext) SetStrongType(c bidi.Class, at charpos) dirContext {
-	if c != bidi.L && c != bidi.R && c != bidi.AL && c != cNI {
+	if c != bidi.L && c != bidi.R && c != bidi.AL { // not a strong type
 		return *dc
 	}
 	dc.strong = c
@@ -225,11 +225,13 @@ func (dc dirContext) IsAL() bool {
 	return dc.strong == bidi.AL
 }
 
+// Set the embedding direction, which acts as the first strong type (sos), too.
 func (dc *dirContext) SetEmbedding(dir bidi.Direction) dirContext {
 	if dir == bidi.LeftToRight {
 		dc.embeddingDir = bidi.L
 	} else if dir == bidi.RightToLeft {
 		dc.embeddingDir = bidi.R
 	}
+	dc.strong, dc.odist = dc.embeddingDir, 0
 	return *dc
 }
-- 
2.43.0


From 983130701bc3b1e6bd7247750906f2d82992b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 23/51] fix: neutral text next to separators, terminators and
 isolates has to be resolved as a single sequence

---
 bidi/actions.go  | 6 +++---
 bidi/resolver.go | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 6220fc3..663f18f 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -106,17 +106,17 @@ func ruleW5_2() (*bidiRule, []byte) {
 
 func ruleW6_1() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ET)
-	return makeSquashRule("W6-1", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-1", lhs, cNI, -1), lhs // may have to be melded with a preceding NI
 }
 
 func ruleW6_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ES)
-	return makeSquashRule("W6-2", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-2", lhs, cNI, -1), lhs // may have to be melded with a preceding NI
 }
 
 func ruleW6_3() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.CS)
-	return makeSquashRule("W6-3", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-3", lhs, cNI, -1), lhs // may have to be melded with a preceding NI
 }
 
 func ruleW6x() (*bidiRule, []byte) {
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 0df5616..d1dd68d 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -246,7 +246,7 @@ func (p *parser) applySubIRS(startIRS int) int {
 	p.sp = startSubIRS // jump back to start of “IRS match”
 	p.reduce(runlen, rhs, startIRS)
 	//return p.sp + 1 // walk over cNI just produced
-	return p.sp
+	return max(startIRS, p.sp-1) // cNI may have to be melded with a preceding NI
 }
 
 // pass 2 operates on the scraps laying on the stack, starting at the
@@ -329,6 +329,7 @@ func (p *parser) parseIRS(startIRS int) ([]scrap, int, int, bool) {
 			bidiclz:  cNI,
 			l:        p.stack[startIRS].l,
 			r:        p.stack[startIRS+runlen-1].r,
+			context:  p.stack[p.spIRS[len(p.spIRS)-2]].context, // outer embedding
 			children: [][]scrap{copyStackSegm(p.stack, startIRS, runlen)},
 		}
 		tracer().Debugf("bidi parser created NI-child %v", ni.children[0])
-- 
2.43.0


From a7abfc57eba2800d392e252733697760287603c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 24/51] fix: rule W4 is restricted to a single separator
 between numbers

---
 bidi/actions.go | 10 +++++++++-
 bidi/scanner.go |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 663f18f..92cb4b0 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -95,7 +95,15 @@ func ruleW5_1() (*bidiRule, []byte) { // W5-1 and W5-3
 
 func ruleW5_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.ET)
-	return makeSquashRule("W5-2", lhs, bidi.EN, -2), lhs
+	rule := makeSquashRule("W5-2", lhs, bidi.EN, -2)
+	melt := rule.action
+	rule.action = func(match []scrap) ([]scrap, int, bool) {
+		if len(match) > 2 && isseparator(match[2]) {
+			match[2].bidiclz = cNI // W4 is not applicable behind a terminator, thus W6
+		}
+		return melt(match)
+	}
+	return rule, lhs
 }
 
 // W6. Otherwise, separators and terminators change to Other Neutral.
diff --git a/bidi/scanner.go b/bidi/scanner.go
index d634fac..c7db8f3 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -174,7 +174,8 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) {
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz ||
+			isbracket(current) || isisolate(current) || isseparator(current) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -315,6 +316,12 @@ func isisolate(s scrap) bool {
 	return false
 }
 
+// isseparator returns true for number separators. They are never unified, as rule W4
+// is about single separators only.
+func isseparator(s scrap) bool {
+	return s.bidiclz == bidi.ES || s.bidiclz == bidi.CS
+}
+
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-- 
2.43.0


From dd7b51a8467194725108549b60b496a616281327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 25/51] fix: bidi keeps non-spacing marks at the start of a
 paragraph and ignores boundary neutrals

---
 bidi/scanner.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index c7db8f3..7b4cb35 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -168,14 +168,16 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 			}
 		}
 		isAL := bidiclz == bidi.AL                                 // AL will be changed by rule W3
+		isMark := bidiclz == bidi.NSM || bidiclz == bidi.BN        // belongs to the preceding character
+		attach := isattached(bidiclz, current)                     // extends current scrap in any case
 		bidiclz = applyRulesW1to3(r, bidiclz, current, sc.context) // UAX#9 W1–3 handled by scanner
 		lookahead = makeScrap(r, bidiclz, current.r, length)
-		lookahead.context = sc.context // strong context preceding the lookahead
+		lookahead.context = sc.context                            // strong context preceding the lookahead
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
 		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz ||
-			isbracket(current) || isisolate(current) || isseparator(current) {
+			!attach && (isbracket(current) || isisolate(current) || isseparator(current)) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -192,7 +194,7 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		// remember strong types, they are the context for everything to follow
 		if isAL {
 			sc.context.SetStrongType(bidi.AL, lookahead.l)
-		} else {
+		} else if !isMark {
 			sc.context.SetStrongType(bidiclz, lookahead.l)
 		}
 	}
@@ -236,8 +238,10 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 func applyRulesW1to3(r rune, clz bidi.Class, current scrap, context dirContext) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
-	case bidi.NSM: // rule W1, handle accents
+	case bidi.NSM, bidi.BN: // rule W1, handle accents; ignore boundary neutrals (X9)
 		switch currclz {
+		case cNULL: // start of sequence
+			return context.EmbeddingDir()
 		case bidi.LRI:
 			return bidi.L
 		case bidi.RLI:
@@ -316,6 +320,16 @@ func isisolate(s scrap) bool {
 	return false
 }
 
+// isattached returns true for a class c which always extends the scrap s: boundary
+// neutrals are to be ignored (X9), and non-spacing marks behind a bracket share the fate
+// of the bracket (N0).
+func isattached(c bidi.Class, s scrap) bool {
+	if s.bidiclz == cNULL || isisolate(s) {
+		return false
+	}
+	return c == bidi.BN || c == bidi.NSM && isbracket(s)
+}
+
 // isseparator returns true for number separators. They are never unified, as rule W4
 // is about single separators only.
 func isseparator(s scrap) bool {
-- 
2.43.0


From 0d94bdb05f2df164213ea46a9ee6e3a2db43f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 26/51] fix: a PDI without an isolate to close is neutral and
 does not end the paragraph

---
 bidi/resolver.go | 6 ++++++
 bidi/scanner.go  | 8 +++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index d1dd68d..5fcd98f 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -196,6 +196,12 @@ func (p *parser) pass1(startIRS int) bool {
 			if rule == nil || rule.pass > 1 {
 				tracer().Debugf("walking over %s", p.stack[p.sp])
 				if p.stack[p.sp].bidiclz == bidi.PDI {
+					if len(p.spIRS) == 1 { // PDI without an isolate to close
+						p.stack[p.sp].bidiclz = cNI
+						p.sp = max(startIRS, p.sp-1) // may be melded with a preceding NI
+						walk = false
+						continue
+					}
 					p.sp++ // walk over PDI
 					pdi = true
 					break
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 7b4cb35..2236940 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -339,16 +339,14 @@ func isseparator(s scrap) bool {
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-		if len(sc.IRSStack) == 0 {
+		if len(sc.IRSStack) <= 1 { // there is just the outermost run
 			tracer().Debugf("bidi scanner found non-paired PDI at position %d", s.l)
 			return
 		}
 		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		if len(sc.IRSStack) > 0 {
-			tos := sc.IRSStack[len(sc.IRSStack)-1]
-			sc.bd16 = sc.IRS[tos]
-		}
+		tos := sc.IRSStack[len(sc.IRSStack)-1]
+		sc.bd16 = sc.IRS[tos]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
-- 
2.43.0


From b3a1f24be2da4768265a67efb3d8fab61a6e93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 27/51] fix: keep adjacent numbers and nested isolates in order
 when reordering bidi text

---
 bidi/reordering.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f2f81c6..680916d 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -223,7 +223,7 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 			tracer().Debugf("reordered child = %v", ch)
 			if dir != embedded {
 				tracer().Debugf("reversing total child %v", ch)
-				reverseWithoutIsolates(ch, 0, len(ch))
+				reverseTree(ch)
 				tracer().Debugf("                child = %v", ch)
 			}
 		}
@@ -238,10 +238,12 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 				state = 0
 				tracer().Debugf("reverse(%d, %d)", startRunR, pos)
 				reverse(scraps, startRunR, pos)
+				reverseNumbers(scraps, startRunR, pos, embedded)
 				startRunR = 0
 			} else if pos == j {
 				tracer().Debugf("EOF reverse(%d, %d)", startRunR, pos+1)
 				reverse(scraps, startRunR, pos+1)
+				reverseNumbers(scraps, startRunR, pos+1, embedded)
 			}
 		}
 		if pos == j || s.bidiclz == cNULL {
@@ -274,6 +276,33 @@ func reverse(scraps []scrap, i, j int) []scrap {
 	return scraps
 }
 
+// reverseNumbers restores the left-to-right order of adjacent numbers after [i,j) has been
+// reversed. With a right-to-left embedding numbers are not nested deeper than L.
+func reverseNumbers(scraps []scrap, i, j int, embedded Direction) {
+	if embedded == RightToLeft {
+		return
+	}
+	for i < j {
+		k := i
+		for k < j && level(scraps[k], embedded) == 2 {
+			k++
+		}
+		reverse(scraps, i, k)
+		i = max(k, i+1)
+	}
+}
+
+// reverseTree reverses the scraps of a child-run and of all the child-runs contained
+// in them, switching them to the opposite direction of reading.
+func reverseTree(scraps []scrap) {
+	reverseWithoutIsolates(scraps, 0, len(scraps))
+	for _, s := range scraps {
+		for _, ch := range s.children {
+			reverseTree(ch)
+		}
+	}
+}
+
 func reverseWithoutIsolates(scraps []scrap, i, j int) []scrap {
 	if len(scraps) == 0 {
 		return scraps
-- 
2.43.0


From 0e705da3013ff555ec6f573cb895fe183f8f7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 28/51] fix: order the runs of isolates and numbers as seen
 when reading in paragraph direction

---
 bidi/reordering.go | 144 ++++++++++++++++++---------------------------
 1 file changed, 57 insertions(+), 87 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 680916d..60d3d8d 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -340,109 +340,79 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 	return inherited
 }
 
+// flatten transforms a tree of re-ordered scraps into a sequence of runs.
+// scraps have to be in visual order, as seen when reading in direction of embedding.
 func flatten(scraps []scrap, embedding Direction) []Run {
+	return flattenInto(nil, scraps, embedding, embedding)
+}
+
+// flattenInto appends the runs for a level of (nested) scraps. Parameter visual is the
+// direction of reading for the paragraph, regardless of the embedding of scraps.
+func flattenInto(runs []Run, scraps []scrap, embedding, visual Direction) []Run {
 	tracer().Debugf("will flatten( %v ), emb=%v", scraps, embedding)
-	var runs []Run
-	var last Run
 	if len(scraps) > 0 && isisolate(scraps[0]) {
 		embedding = directionFromBidiClass(scraps[0], embedding)
 	}
 	for _, s := range scraps {
-		tracer().Debugf("s=%v, |ch|=%d, last=%v", s, len(s.children), last)
-		if len(s.children) == 0 {
-			last, runs = extendRuns(s, last, runs, embedding)
-			tracer().Debugf("runs = %v", runs)
-			continue
-		}
-		var cut scrap
-		for _, ch := range s.children {
-			if len(ch) == 0 {
-				continue
+		if directionFromBidiClass(s, embedding) == visual {
+			for _, ch := range s.children {
+				if len(ch) == 0 {
+					continue
+				}
+				cut := s
+				cut.r, s.l = bounds(ch)
+				runs = extendRuns(runs, cut, embedding, visual)
+				runs = flattenInto(runs, ch, embedding, visual)
+			}
+		} else { // reading against the direction of s ⇒ last child comes first
+			for i := len(s.children) - 1; i >= 0; i-- {
+				ch := s.children[i]
+				if len(ch) == 0 {
+					continue
+				}
+				cut := s
+				s.r, cut.l = bounds(ch)
+				runs = extendRuns(runs, cut, embedding, visual)
+				runs = flattenInto(runs, ch, embedding, visual)
 			}
-			tracer().Debugf("scrap has child = %v ------------------", ch)
-			cut, s = cutScrapAt(s, ch)
-			last, runs = extendRuns(cut, last, runs, embedding)
-			//chrun := flatten(ch, embedding) // TODO embedding -> last.Dir ?
-			chruns := flatten(ch, last.Dir) // TODO embedding -> last.Dir ?
-			tracer().Debugf("flattened child = %v", chruns)
-			tracer().Debugf("----------------------------------------------------------------")
-			last, runs = appendRuns(chruns, last, runs)
-			tracer().Debugf("runs+child=%v, last=%v", runs, last)
 		}
-		tracer().Debugf("after children: s=%v, runs=%v", s, runs)
-		last, runs = extendRuns(s, last, runs, embedding)
+		runs = extendRuns(runs, s, embedding, visual)
 		tracer().Debugf("runs = %v", runs)
 	}
 	return runs
 }
 
-func extendRuns(s scrap, last Run, runs []Run, embedding Direction) (Run, []Run) {
-	tracer().Debugf("extendRuns(%v), last=%v, runs=%v", s, last, runs)
-	if s.len() == 0 { // important. must correlate to semantics of runappend()
-		return last, runs
-	}
-	dir := directionFromBidiClass(s, embedding)
-	if last.Length == 0 { // we are at the start of a sequence
-		// last.L = uint64(s.l)
-		// last.R = uint64(s.r)
-		last = run(s, embedding)
-		//last.concat(last)
-		//last.Length = int64(s.len())
-		runs = runappend(runs, last)
-	} else if last.Dir == dir { // just extend last with s
-		//last.R = uint64(s.r)
-		last.concat(run(s, embedding))
-		tracer().Debugf("extending %v with %v", runs, last)
-		runs[len(runs)-1] = last
-	} else { // have to switch directions
-		tracer().Debugf("switching dir")
-		last = run(s, embedding)
-		// last = Run{
-		// 	// L:   uint64(s.l),
-		// 	// R:   uint64(s.r),
-		// 	Dir:    dir,
-		// 	Length: int64(s.len()),
-		// }
-		runs = runappend(runs, last)
-	}
-	return last, runs
-}
-
-func cutScrapAt(s scrap, ch []scrap) (scrap, scrap) {
-	if len(ch) == 0 {
-		panic("internal inconsistency: ch may not be empty")
-	}
-	cut := scrap{
-		l:       s.l,
-		r:       ch[0].l,
-		bidiclz: s.bidiclz,
-	}
-	rest := scrap{
-		l:       ch[len(ch)-1].r,
-		r:       s.r,
-		bidiclz: s.bidiclz,
-	}
-	return cut, rest
-}
-
-func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
-	if len(childRuns) == 0 {
-		return last, runs
-	}
-	if childRuns[0].Dir == last.Dir {
-		//last.Length = childRuns[0].Length
-		last.concat(childRuns[0])
-		runs = append(runs, childRuns[1:]...)
-	} else {
-		runs = append(runs, childRuns...)
+// bounds returns the interval of text covered by scraps, which may be in any order.
+func bounds(scraps []scrap) (charpos, charpos) {
+	l, r := scraps[0].l, scraps[0].r
+	for _, s := range scraps[1:] {
+		if s.l < l {
+			l = s.l
+		}
+		if s.r > r {
+			r = s.r
+		}
 	}
-	last = runs[len(runs)-1]
-	return last, runs
+	return l, r
 }
 
-func runappend(runs []Run, r Run) []Run {
-	if r.Length > 0 {
-		runs = append(runs, r)
+// extendRuns appends a scrap to a sequence of runs in visual order. If the scrap has the
+// same direction as the last run, this run will grow. The scraps of a run
+// are always sorted according to the direction of the run.
+func extendRuns(runs []Run, s scrap, embedding, visual Direction) []Run {
+	if s.len() == 0 {
+		return runs
+	}
+	s.children = nil
+	r := run(s, embedding)
+	if len(runs) == 0 || runs[len(runs)-1].Dir != r.Dir {
+		return append(runs, r)
+	}
+	if r.Dir != visual {
+		r.concat(runs[len(runs)-1])
+		runs[len(runs)-1] = r
+	} else {
+		runs[len(runs)-1].concat(r)
 	}
 	return runs
 }
-- 
2.43.0


From f40b7743213388f9a9a94daadd2d8dfb3a6528de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 29/51] fix: bidi must resolve isolates even if the end of the
 input has been read already

---
 bidi/resolver.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 5fcd98f..9118ed3 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -170,11 +170,9 @@ func (p *parser) reduce(n int, rhs []scrap, startIRS int) {
 // reading a (premature) EOF.
 //
 func (p *parser) pass1(startIRS int) bool {
-	p.sp = startIRS              // start at beginning of isolating run sequence
-	la := 0                      // length of lookahead LA
-	if _, ok := p.read(3); !ok { // initially load 3 scraps
-		return false // no input to read
-	}
+	p.sp = startIRS // start at beginning of isolating run sequence
+	la := 0         // length of lookahead LA
+	p.read(3)       // initially load 3 scraps, if not at EOF already
 	var rule, shortrule *bidiRule
 	walk := false // if true, accept walking over 1 scrap
 	pdi := false
-- 
2.43.0


From 3dbf665c080538593be239b479ee7b9a1c7a4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 30/51] fix: find the isolate of a bracket, including isolates
 at the start of a text

---
 bidi/brackets.go | 26 +++++++++------------
 bidi/scanner.go  | 60 +++++++++++++++++++-----------------------------
 2 files changed, 34 insertions(+), 52 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 28bc499..14aea46 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -2,6 +2,7 @@ package bidi
 
 import (
 	"fmt"
+	"math"
 	"sync"
 )
 
@@ -65,12 +66,11 @@ func isbracket(s scrap) bool {
 
 // We use a special class to handle discovery of bracket pairs.
 type bracketPairHandler struct {
-	stack    bracketStack        // stack to trace bracket nesting
-	pairings pairingsList        // result list of matching bracket pairings
-	mx       sync.Mutex          // guards pairings, as parser will access them, too
-	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
-	firstpos charpos             // text position of first character in isolating run sequence
-	lastpos  charpos             // text position of PDI
+	stack    bracketStack // stack to trace bracket nesting
+	pairings pairingsList // result list of matching bracket pairings
+	mx       sync.Mutex   // guards pairings, as parser will access them, too
+	firstpos charpos      // text position of first character in isolating run sequence
+	lastpos  charpos      // text position of PDI
 }
 
 // This is the stack to perform the algorithm described above
@@ -88,14 +88,12 @@ type pairing struct {
 	closing scrap // closing bracket represented as a scrap
 }
 
-func makeBracketPairHandler(first charpos, previous *bracketPairHandler) *bracketPairHandler {
+func makeBracketPairHandler(first charpos) *bracketPairHandler {
 	h := &bracketPairHandler{
 		stack:    make(bracketStack, 0, BD16MaxNesting),
 		pairings: make(pairingsList, 0, 8),
 		firstpos: first,
-	}
-	if previous != nil {
-		previous.next = h
+		lastpos:  math.MaxUint32, // PDI not yet seen
 	}
 	return h
 }
@@ -120,13 +118,11 @@ func (bph *bracketPairHandler) findPair(r rune, s scrap) (found bool, pos charpo
 		brktpos: b,
 		closing: s,
 	}
-	inx := 0
 	bph.mx.Lock()
 	defer bph.mx.Unlock()
-	for i, pair := range bph.pairings {
-		if newPairing.opening.l < pair.opening.l {
-			inx = i
-		}
+	inx := len(bph.pairings)
+	for inx > 0 && newPairing.opening.l < bph.pairings[inx-1].opening.l {
+		inx--
 	}
 	bph.pairings = append(bph.pairings[:inx], append([]pairing{newPairing}, bph.pairings[inx:]...)...)
 	return
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 2236940..8268462 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -13,7 +13,6 @@ package bidi
 
 import (
 	"bufio"
-	"fmt"
 	"io"
 	"strconv"
 	"unicode"
@@ -25,16 +24,16 @@ import (
 // bidiScanner will read runs of text as a unit, as long as all runes therein have the
 // same Bidi class.
 type bidiScanner struct {
-	mode          uint8                           // scanner modes, set by scanner options
-	runeScanner   *bufio.Scanner                  // we're using an embedded rune reader
-	bd16          *bracketPairHandler             // support type for handling bracket pairings
-	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
-	lastMarkupPos int64                           // last position of out-of-line markup
-	lastMarkup    int                             // last / remaining markup
-	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
-	IRSStack      []charpos                       // start positions of IRSs
-	context       dirContext                      // context at the current position of the input
-	ctxstack      []dirContext                    // context stack for IRSs
+	mode          uint8                 // scanner modes, set by scanner options
+	runeScanner   *bufio.Scanner        // we're using an embedded rune reader
+	bd16          *bracketPairHandler   // support type for handling bracket pairings
+	markup        OutOfLineBidiMarkup   // markup for isolating run sequence delimiting
+	lastMarkupPos int64                 // last position of out-of-line markup
+	lastMarkup    int                   // last / remaining markup
+	IRS           []*bracketPairHandler // pair handlers of isolating run sequences, outermost first
+	IRSStack      []*bracketPairHandler // pair handlers of IRSs which are not yet closed
+	context       dirContext            // context at the current position of the input
+	ctxstack      []dirContext          // context stack for IRSs
 }
 
 // NewScanner creates a scanner for bidi formatting. It will read runs of text
@@ -49,11 +48,10 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
-	sc.bd16 = makeBracketPairHandler(0, nil)
-	sc.IRS = make(map[charpos]*bracketPairHandler)
-	sc.IRS[0] = sc.bd16
-	sc.IRSStack = make([]charpos, 0, 16)
-	sc.IRSStack = append(sc.IRSStack, 0)
+	sc.bd16 = makeBracketPairHandler(0)
+	sc.IRS = append(sc.IRS, sc.bd16)
+	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	for _, opt := range opts {
 		if opt != nil {
 			opt(sc)
@@ -345,38 +343,26 @@ func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 		}
 		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		tos := sc.IRSStack[len(sc.IRSStack)-1]
-		sc.bd16 = sc.IRS[tos]
+		sc.bd16 = sc.IRSStack[len(sc.IRSStack)-1]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
 	tracer().Debugf("bidi scanner handleIsolatingRunSwitch(%v | %v)", s, s.context)
 	// establish new BD16 handler
-	irs := sc.IRS[0]
-	for irs.next != nil { // find most rightward isolating run sequence
-		irs = irs.next
-	}
-	sc.bd16 = makeBracketPairHandler(s.l, irs)
-	sc.IRS[s.l] = sc.bd16
-	sc.IRSStack = append(sc.IRSStack, s.l)
+	sc.bd16 = makeBracketPairHandler(s.l)
+	sc.IRS = append(sc.IRS, sc.bd16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	tracer().Debugf("bidi scanner: new IRS with position %d, nesting level is %d", sc.bd16.firstpos, len(sc.IRSStack)-1)
 }
 
+// findBD16ForPos finds the innermost isolating run sequence containing pos.
 func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
-	irs := sc.IRS[0]
-	bd16 := irs
-	for irs.next != nil { // find most rightward isolating run sequence
-		if irs.firstpos <= pos {
-			if irs.lastpos == 0 || irs.lastpos >= pos {
-				bd16 = irs
-			}
+	for i := len(sc.IRS) - 1; i > 0; i-- { // find most rightward isolating run sequence
+		if irs := sc.IRS[i]; irs.firstpos <= pos && pos < irs.lastpos {
+			return irs
 		}
-		irs = irs.next
-	}
-	if bd16 == nil {
-		panic(fmt.Sprintf("bidi scanner: could not find IRS for position %d", pos))
 	}
-	return bd16
+	return sc.IRS[0]
 }
 
 // As explained for option TestingMode(…), certain characters are interpreted as
-- 
2.43.0


From ace7764d4a77846422b793b95af2e53d99632e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 31/51] fix: apply rule N0 for brackets with the resolved types
 of the isolating run, before neutrals are resolved

---
 bidi/actions.go  |  38 ++++++-------
 bidi/brackets.go |  31 ----------
 bidi/resolver.go | 145 ++++++++++++++++++++++++-----------------------
 bidi/scanner.go  |   4 +-
 bidi/scrap.go    |  59 +++++--------------
 5 files changed, 109 insertions(+), 168 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 92cb4b0..4d80a9e 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -37,7 +37,7 @@ type bidiRule struct {
 // will be positioned after the substitution by the parser, according to the second result
 // of the action, an integer. This position hint will be negative most of the time, telling
 // the parser to backtrack and try to re-apply other BiDi rules.
-type ruleAction func([]scrap) ([]scrap, int, bool)
+type ruleAction func([]scrap) ([]scrap, int)
 
 // Headers and header numbers of the following comment sections correspond to UAX#9.
 
@@ -97,7 +97,7 @@ func ruleW5_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.ET)
 	rule := makeSquashRule("W5-2", lhs, bidi.EN, -2)
 	melt := rule.action
-	rule.action = func(match []scrap) ([]scrap, int, bool) {
+	rule.action = func(match []scrap) ([]scrap, int) {
 		if len(match) > 2 && isseparator(match[2]) {
 			match[2].bidiclz = cNI // W4 is not applicable behind a terminator, thus W6
 		}
@@ -144,13 +144,13 @@ func ruleW7() (*bidiRule, []byte) {
 		name:   "W7",
 		lhsLen: len(lhs),
 		pass:   1,
-		action: func(match []scrap) ([]scrap, int, bool) {
+		action: func(match []scrap) ([]scrap, int) {
 			if match[0].Context() == bidi.L {
 				L := match[:1]
 				L[0].bidiclz = bidi.L
-				return L, 0, true // replace EN with L, start again with L
+				return L, 0 // replace EN with L, start again with L
 			}
-			return match[:1], 1, false // step over EN
+			return match[:1], 1 // step over EN
 		},
 	}, lhs
 }
@@ -194,10 +194,10 @@ func ruleN1_3() (*bidiRule, []byte) {
 		name:   "N1-3",
 		lhsLen: len(lhs),
 		pass:   2,
-		action: func(match []scrap) ([]scrap, int, bool) {
+		action: func(match []scrap) ([]scrap, int) {
 			match[0] = collapse(match[0], match[1], bidi.R)
 			match[1] = match[2]
-			return match[:2], 1, false
+			return match[:2], 1
 		},
 	}, lhs
 }
@@ -208,10 +208,10 @@ func ruleN1_4() (*bidiRule, []byte) {
 		name:   "N1-4",
 		lhsLen: len(lhs),
 		pass:   2,
-		action: func(match []scrap) ([]scrap, int, bool) {
+		action: func(match []scrap) ([]scrap, int) {
 			match[0] = collapse(match[0], match[1], bidi.R)
 			match[1] = match[2]
-			return match[:2], 1, false
+			return match[:2], 1
 		},
 	}, lhs
 }
@@ -222,9 +222,9 @@ func ruleN1_5() (*bidiRule, []byte) {
 		name:   "N1-5",
 		lhsLen: len(lhs),
 		pass:   2,
-		action: func(match []scrap) ([]scrap, int, bool) {
+		action: func(match []scrap) ([]scrap, int) {
 			match[1] = collapse(match[1], match[2], bidi.R)
-			return match[:2], 1, false
+			return match[:2], 1
 		},
 	}, lhs
 }
@@ -245,9 +245,9 @@ func ruleN1_8() (*bidiRule, []byte) {
 		name:   "N1-8",
 		lhsLen: len(lhs),
 		pass:   2,
-		action: func(match []scrap) ([]scrap, int, bool) {
+		action: func(match []scrap) ([]scrap, int) {
 			match[1] = collapse(match[1], match[2], bidi.R)
-			return match[:2], 1, false
+			return match[:2], 1
 		},
 	}, lhs
 }
@@ -270,11 +270,11 @@ func ruleN2() (*bidiRule, []byte) {
 		name:   "N2",
 		lhsLen: len(lhs),
 		pass:   2,
-		action: func(match []scrap) ([]scrap, int, bool) {
+		action: func(match []scrap) ([]scrap, int) {
 			ni := match[0]
 			ni.bidiclz = ni.e()
 			tracer().Debugf("rule N2: produced e=%s with context=%v", ni, ni.context)
-			return []scrap{ni}, -1, false
+			return []scrap{ni}, -1
 		},
 	}, lhs
 }
@@ -306,7 +306,7 @@ func makeSquashRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 }
 
 func squash(c bidi.Class, n int, jmp int) ruleAction {
-	return func(match []scrap) ([]scrap, int, bool) {
+	return func(match []scrap) ([]scrap, int) {
 		last := match[n-1]
 		//T().Debugf("squash: match=%v,  last = %s", match, last)
 		match[0].r = last.r
@@ -317,7 +317,7 @@ func squash(c bidi.Class, n int, jmp int) ruleAction {
 			}
 			match[0].appendAllChildrenOf(iv)
 		}
-		return match[:1], jmp, false
+		return match[:1], jmp
 	}
 }
 
@@ -326,9 +326,9 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		name:   name,
 		lhsLen: len(lhs),
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
-		action: func(match []scrap) ([]scrap, int, bool) {
+		action: func(match []scrap) ([]scrap, int) {
 			match[1].bidiclz = c // change class of middle interval
-			return match[:len(lhs)], jmp, false
+			return match[:len(lhs)], jmp
 		},
 	}
 }
diff --git a/bidi/brackets.go b/bidi/brackets.go
index 14aea46..960bfd4 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -184,37 +184,6 @@ func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	return pairing{}, false
 }
 
-// Rule N0 may change the bidi class of bracket scraps to a strong type.
-// The parser rule for N0 will call changeOpeningBracketClass in such
-// cases.
-func (bph *bracketPairHandler) changeOpeningBracketClass(s scrap) {
-	bph.mx.Lock()
-	defer bph.mx.Unlock()
-	for i, pair := range bph.pairings {
-		if pair.opening.l == s.l {
-			bph.pairings[i].opening.bidiclz = s.bidiclz
-		}
-	}
-}
-
-// UAX#9 rule W7 may change scraps of class EN to class L. However, the
-// matching of brackets further down the input may already have been stored
-// with a context. As soon as W7 pops up a new strong type L, those contexts
-// may be invalid. The parser will detect such situations and then call this
-// function to update the contexts of bracket pairs already found.
-func (bph *bracketPairHandler) UpdateClosingBrackets(s scrap) {
-	bph.mx.Lock()
-	defer bph.mx.Unlock()
-	for _, pair := range bph.pairings {
-		if s.l < pair.opening.l {
-			pair.opening.context.SetStrongType(s.bidiclz, s.l)
-		}
-		if s.l < pair.closing.l {
-			pair.closing.context.SetStrongType(s.bidiclz, s.l)
-		}
-	}
-}
-
 func (bph *bracketPairHandler) dump() {
 	if len(bph.stack) == 0 {
 		tracer().Debugf("BD16: Bracket Stack is empty")
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9118ed3..a91c290 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -219,12 +219,8 @@ func (p *parser) pass1(startIRS int) bool {
 			}
 		}
 		tracer().Debugf("applying UAX#9 rule %s", rule.name)
-		rhs, jmp, newL := rule.action(p.stack[p.sp:len(p.stack)])
+		rhs, jmp := rule.action(p.stack[p.sp:len(p.stack)])
 		p.reduce(rule.lhsLen, rhs, startIRS)
-		if newL {
-			bd16 := p.sc.findBD16ForPos(p.stack[p.sp].l)
-			bd16.UpdateClosingBrackets(p.stack[p.sp])
-		}
 		p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
 		walk = false
 	}
@@ -269,12 +265,6 @@ func (p *parser) pass2(startIRS int) {
 	for !p.passed(bidi.PDI) && p.sp < len(p.stack) {
 		e := min(len(p.stack), p.sp+3)
 		tracer().Debugf("trying to match %v at %d", p.stack[p.sp:e], p.sp)
-		//if p.stack[p.sp].bidiclz == cBRACKC {
-		if isbracket(p.stack[p.sp]) {
-			jmp := p.performRuleN0()
-			p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
-			continue
-		}
 		rule, shortrule := p.matchRulesLHS(p.stack[p.sp:len(p.stack)], 2)
 		if rule == nil || rule.pass < 2 {
 			if shortrule == nil || shortrule.pass < 2 {
@@ -284,9 +274,9 @@ func (p *parser) pass2(startIRS int) {
 			rule = shortrule
 		}
 		tracer().Debugf("applying UAX#9 rule %s", rule.name)
-		rhs, jmp, _ := rule.action(p.stack[p.sp:len(p.stack)])
+		rhs, jmp := rule.action(p.stack[p.sp:len(p.stack)])
 		p.reduce(rule.lhsLen, rhs, startIRS)
-		p.sp = max(0, p.sp+jmp) // avoid jumping left of 0
+		p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
 	}
 }
 
@@ -314,6 +304,7 @@ func (p *parser) parseIRS(startIRS int) ([]scrap, int, int, bool) {
 	tracer().Debugf("STACK = %v", p.stack)
 	if ok || len(p.spIRS) == 1 {
 		tracer().Debugf("------ pass 2 (%d) ------", len(p.spIRS))
+		p.performRuleN0(startIRS)
 		p.pass2(startIRS)
 		tracer().Debugf("--------- (%d) ----------", len(p.spIRS))
 	}
@@ -409,67 +400,82 @@ func (p *parser) matchRulesLHS(scraps []scrap, minlen int) (*bidiRule, *bidiRule
 //     order of the text positions of the opening paired brackets using the logic
 //     given below. Within this scope, bidirectional types EN and AN are treated as R.
 //
-func (p *parser) performRuleN0() (jmp int) {
-	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[p.sp])
-	jmp = 1 // default is to walk over the bracket
-	if p.stack[p.sp].bidiclz == cBRACKO {
-		// Identify the bracket pairs in the current isolating run sequence according to BD16.
-		openBr := p.stack[p.sp]
-		closeBr, found := p.findCorrespondingBracket(openBr)
-		if !found {
-			tracer().Debugf("Did not find closing bracket for %s", openBr)
-			closeBr.bidiclz = cNI
-			return
+// The scraps of the isolating run sequence are located on the stack from position
+// startIRS up to the parser's stack pointer. As N0 has to be applied before any of the rules
+// for neutrals, this is done in between pass 1 and pass 2.
+func (p *parser) performRuleN0(startIRS int) {
+	irs := p.stack[startIRS:p.sp] // includes delimiters
+	for i := range irs {
+		if irs[i].bidiclz == cBRACKO {
+			// Identify the bracket pairs in the current isolating run sequence according to BD16.
+			clz := bidi.Class(cNI)
+			closing := i
+			if closeBr, found := p.findCorrespondingBracket(irs[i]); found {
+				for closing = i + 1; closing < len(irs); closing++ {
+					if irs[closing].bidiclz == cBRACKC && irs[closing].l == closeBr.l {
+						clz = classOfBrackets(irs, i, closing)
+						break
+					}
+				}
+			}
+			irs[i].bidiclz = clz
+			if closing < len(irs) {
+				irs[closing].bidiclz = clz
+			}
+			tracer().Debugf("rule N0 changed bracket to %s", irs[i])
+		} else if irs[i].bidiclz == cBRACKC {
+			irs[i].bidiclz = cNI // closing bracket without an opening one
+		}
+	}
+	melded := irs[:0] // brackets may have become neutrals, which have to be melded
+	for _, s := range irs {
+		if n := len(melded); n > 0 && s.bidiclz == cNI && melded[n-1].bidiclz == cNI {
+			melded[n-1] = collapse(melded[n-1], s, cNI)
+		} else {
+			melded = append(melded, s)
 		}
-		tracer().Debugf("closing bracket for %s is %s", openBr, closeBr)
-		tracer().Debugf("closing bracket has context=%v", closeBr.context)
-		tracer().Debugf("closing bracket has match pos=%d", closeBr.context.matchPos)
-		// a. Inspect the bidirectional types of the characters enclosed within the
-		//    bracket pair.
-		if closeBr.HasEmbeddingMatchAfter(openBr) {
+	}
+	p.stack = append(p.stack[:startIRS+len(melded)], p.stack[p.sp:]...)
+}
+
+// classOfBrackets finds the class of a pair of brackets at positions opening and closing
+// within an isolating run sequence.
+func classOfBrackets(irs []scrap, opening, closing int) bidi.Class {
+	e, o := irs[opening].e(), irs[opening].o()
+	// a. Inspect the bidirectional types of the characters enclosed within the
+	//    bracket pair.
+	foundOpposite := false
+	for _, s := range irs[opening+1 : closing] {
+		switch s.strong() {
+		case e:
 			// b. If any strong type (either L or R) matching the embedding direction
 			//    is found, set the type for both brackets in the pair to match the
 			//    embedding direction.
-			openBr.bidiclz = openBr.context.embeddingDir
-			jmp = -2
-		} else if closeBr.HasOppositeAfter(openBr) {
-			// c. Otherwise, if there is a strong type it must be opposite the embedding
-			//    direction. Therefore, test for an established context with a preceding
-			//    strong type by checking backwards before the opening paired bracket
-			//    until the first strong type (L, R, or sos) is found.
-			if openBr.StrongContext() == openBr.o() {
-				// c.1. If the preceding strong type is also opposite the embedding
-				//      direction, context is established, so set the type for both
-				//      brackets in the pair to that direction.
-				openBr.bidiclz = opposite(openBr.context.embeddingDir)
-			} else {
-				// c.2. Otherwise set the type for both brackets in the pair to the
-				//      embedding direction.
-				openBr.bidiclz = openBr.context.embeddingDir
-			}
-			jmp = -2
-		} else {
-			tracer().Debugf("no strong types found within bracket pair")
-			// d. Otherwise, there are no strong types within the bracket pair.
-			//    Therefore, do not set the type for that bracket pair.
-			openBr.bidiclz = cNI
-			jmp = -1
-		}
-		p.changeBracketBidiClass(openBr)
-		p.stack[p.sp] = openBr
-	} else {
-		closeBr := p.stack[p.sp]
-		if openBr, found := p.findCorrespondingBracket(closeBr); found {
-			closeBr.bidiclz = openBr.bidiclz
-		} else {
-			closeBr.bidiclz = cNI
+			return e
+		case o:
+			foundOpposite = true
 		}
-		p.stack[p.sp] = closeBr
-		if closeBr.bidiclz != cNI {
-			jmp = -2
+	}
+	if !foundOpposite {
+		// d. Otherwise, there are no strong types within the bracket pair.
+		//    Therefore, do not set the type for that bracket pair.
+		return cNI
+	}
+	// c. Otherwise, if there is a strong type it must be opposite the embedding
+	//    direction. Therefore, test for an established context with a preceding
+	//    strong type by checking backwards before the opening paired bracket
+	//    until the first strong type (L, R, or sos) is found.
+	for i := opening - 1; i > 0; i-- {
+		if clz := irs[i].strong(); clz != cNI {
+			// c.1. If the preceding strong type is also opposite the embedding
+			//      direction, context is established, so set the type for both
+			//      brackets in the pair to that direction.
+			// c.2. Otherwise set the type for both brackets in the pair to the
+			//      embedding direction.
+			return clz
 		}
 	}
-	return
+	return e // sos
 }
 
 func (p *parser) findCorrespondingBracket(s scrap) (scrap, bool) {
@@ -484,11 +490,6 @@ func (p *parser) findCorrespondingBracket(s scrap) (scrap, bool) {
 	return s, false
 }
 
-func (p *parser) changeBracketBidiClass(s scrap) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	bd16.changeOpeningBracketClass(s)
-}
-
 // --- Rules trie ------------------------------------------------------------
 
 const dictsize = 103 // must be a prime; found through experiments
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 8268462..a604f78 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -191,9 +191,9 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		}
 		// remember strong types, they are the context for everything to follow
 		if isAL {
-			sc.context.SetStrongType(bidi.AL, lookahead.l)
+			sc.context.SetStrongType(bidi.AL)
 		} else if !isMark {
-			sc.context.SetStrongType(bidiclz, lookahead.l)
+			sc.context.SetStrongType(bidiclz)
 		}
 	}
 	tracer().Infof("stopped bidi scanner")
diff --git a/bidi/scrap.go b/bidi/scrap.go
index 9c4a01e..f1dd2c6 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -131,17 +131,16 @@ func (s scrap) Context() bidi.Class {
 	return s.context.Context()
 }
 
-func (s scrap) StrongContext() bidi.Class {
-	return s.context.StrongContext()
-}
-
-func (s scrap) HasEmbeddingMatchAfter(other scrap) bool {
-	return s.context.matchPos >= other.l
-}
-
-func (s scrap) HasOppositeAfter(other scrap) bool {
-	pos := s.context.matchPos + charpos(s.context.odist)
-	return pos >= other.l
+// strong returns L or R for scraps which are considered strong by rule N0, i.e. with
+// numbers treated as R. For all others it returns NI.
+func (s scrap) strong() bidi.Class {
+	switch s.bidiclz {
+	case bidi.L:
+		return bidi.L
+	case bidi.R, bidi.EN, bidi.AN:
+		return bidi.R
+	}
+	return cNI
 }
 
 // --- Strong types context --------------------------------------------------
@@ -158,17 +157,10 @@ func (s scrap) HasOppositeAfter(other scrap) bool {
 // * Rule W2, which changes numbers to arabic numbers if there is a recent strong
 //   type of AL (arabic letter)
 // * Rule W7, which changes numbers to type L if there is a recent strong type of L
-// * Rule N0, the handling of bracket pairings, which uses information about recent
-//   strong types L or R to decide the embedding level of brackets
-//
-// Rule W2 could be handled by a boolean flag, but the combination of W7 and N0 is
-// more tricky (see the code dealing with bracket pairs).
 //
 type dirContext struct {
 	embeddingDir bidi.Class // embedding context
 	strong       bidi.Class // current strong context
-	odist        uint16     // distance between matchPos and occurrence of recent o scrap
-	matchPos     charpos    // most recent position matching the embedding dir
 }
 
 func (dc dirContext) String() string {
@@ -186,37 +178,16 @@ func (dc dirContext) Context() bidi.Class {
 	return dc.strong
 }
 
-// Has the last strong type been L or R?
-func (dc dirContext) StrongContext() bidi.Class {
-	if dc.strong == bidi.AL {
-		return bidi.R
-	}
-	return dc.strong
-}
-
 // Embedding direction, as determined by the last LRI or RLI.
 func (dc dirContext) EmbeddingDir() bidi.Class {
 	return dc.embeddingDir
 }
 
-// Set position of recent strong type. If it matches the embedding direction
-// and at > the previous matching position, the matching position is updated.
-func (dc *dirContext) SetStrongType(c bidi.Class, at charpos) dirContext {
-	if c != bidi.L && c != bidi.R && c != bidi.AL { // not a strong type
-		return *dc
-	}
-	dc.strong = c
-	if c == dc.embeddingDir && at > dc.matchPos {
-		dc.matchPos = at
-	} else if c == opposite(dc.embeddingDir) && at > dc.matchPos {
-		d := at - dc.matchPos
-		if d > 65535 {
-			tracer().Errorf("overflow for opposite-char distance: %d", d)
-			d = 65535
-		}
-		dc.odist = uint16(d)
+// Set the recent strong type. Types other than L, R or AL are ignored.
+func (dc *dirContext) SetStrongType(c bidi.Class) dirContext {
+	if c == bidi.L || c == bidi.R || c == bidi.AL {
+		dc.strong = c
 	}
-	//T().Debugf("setting strong type %s at pos=%d, context=%v", classString(c), at, dc)
 	return *dc
 }
 
@@ -232,6 +203,6 @@ func (dc *dirContext) SetEmbedding(dir bidi.Direction) dirContext {
 	} else if dir == bidi.RightToLeft {
 		dc.embeddingDir = bidi.R
 	}
-	dc.strong, dc.odist = dc.embeddingDir, 0
+	dc.strong = dc.embeddingDir
 	return *dc
 }
-- 
2.43.0


From e59ebd562ceadc8415260be25947ec2ff27a698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 32/51] fix: brackets pair with canonically equivalent ones

---
 bidi/brackets.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 960bfd4..8df6224 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -128,6 +128,14 @@ func (bph *bracketPairHandler) findPair(r rune, s scrap) (found bool, pos charpo
 	return
 }
 
+// canonicalBracket maps closing brackets to their canonical equivalent, if any.
+func canonicalBracket(b rune) rune {
+	if b == '\u232a' { // right-pointing angle bracket
+		return '\u3009'
+	}
+	return b
+}
+
 func (bs bracketStack) push(r rune, s scrap) (bool, bracketStack) {
 	// TODO BS16Max is the limit per isolating run sequence, not overall
 	if len(bs) >= BD16MaxNesting { // skip in case of stack overflow, as defined in UAX#9
@@ -143,7 +151,7 @@ func (bs bracketStack) push(r rune, s scrap) (bool, bracketStack) {
 			return true, append(bs, b)
 		}
 	}
-	tracer().Errorf("Push of %c failed, not found as opening bracket")
+	tracer().Errorf("Push of %c failed, not found as opening bracket", r)
 	return false, bs
 }
 
@@ -156,7 +164,7 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	}
 	i := len(bs) - 1
 	for i >= 0 { // start at TOS, possible skip unclosed opening brackets
-		if bs[i].pair.c == b {
+		if canonicalBracket(bs[i].pair.c) == canonicalBracket(b) {
 			open := bs[i] //.pos
 			bs = bs[:i]
 			return true, open, bs
-- 
2.43.0


From 8f96740a1ea724929c44304eda42265604287b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 33/51] fix: bidi scanner and parser must not run concurrently,
 they share bracket pairings

---
 bidi/resolver.go | 28 +++++++++++++++++++---------
 bidi/scanner.go  |  2 +-
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index a91c290..8b035c0 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -68,7 +68,7 @@ func ResolveParagraph(inp io.Reader, markup OutOfLineBidiMarkup, opts ...Option)
 // clients will not instantiate one, but rather call bidi.ResolveParagraph(…)
 type parser struct {
 	sc    *bidiScanner       // parser uses a bidi-specific scanner
-	pipe  chan scrap         // communication with the scanner
+	input []scrap            // scraps of the input, as produced by the scanner
 	eof   bool               // end of input reached during first pass
 	stack []scrap            // we manage a stack of bidi class scraps
 	sp    int                // 'pointer' into the stack; start of LHS matching
@@ -96,8 +96,7 @@ func newParser(sc *bidiScanner) (*parser, error) {
 
 // ResolveLevels starts the parse and returns resolved levels for the input-text.
 func (p *parser) ResolveLevels() *ResolvedLevels {
-	p.pipe = make(chan scrap, 0)
-	go p.sc.Scan(p.pipe)                    // start the scanner which will process input characters
+	p.scan()                                // let the scanner process the input characters
 	initial := p.sc.initialOuterScrap(true) // initial pseudo-IRS delimiter
 	tracer().Infof("bidi resolver: initial run starts with %v, context = %v", initial, initial.context)
 	p.stack = append(p.stack, initial) // start outer-most stack with syntetic IRS delimiter
@@ -114,12 +113,23 @@ func (p *parser) ResolveLevels() *ResolvedLevels {
 	}
 }
 
-// nextInputScrap reads the next scrap from the scanner pipe. It returns a
+// scan runs the scanner until it is finished and collects the scraps of the input.
+// The scanner may not run concurrently with the parser, as the parser needs to inspect the
+// isolating run sequences and bracket pairings found by the scanner.
+func (p *parser) scan() {
+	pipe := make(chan scrap, 64)
+	go p.sc.Scan(pipe)
+	for s := range pipe {
+		p.input = append(p.input, s)
+	}
+}
+
+// nextInputScrap reads the next scrap of the input. It returns a
 // new scrap and false if this is the EOF scrap, true otherwise.
-func (p *parser) nextInputScrap(pipe <-chan scrap) (scrap, bool) {
-	tracer().Debugf("==> reading from pipe")
-	s := <-pipe
-	tracer().Debugf("    read %s from pipe", s)
+func (p *parser) nextInputScrap() (scrap, bool) {
+	s := p.input[0]
+	p.input = p.input[1:]
+	tracer().Debugf("    read %s from input", s)
 	if s.bidiclz == cNULL {
 		return s, false
 	}
@@ -136,7 +146,7 @@ func (p *parser) read(n int) (int, bool) {
 	}
 	i := 0
 	for ; i < n; i++ { // read n bidi clusters
-		s, ok := p.nextInputScrap(p.pipe)
+		s, ok := p.nextInputScrap()
 		if !ok {
 			p.eof = true
 			break
diff --git a/bidi/scanner.go b/bidi/scanner.go
index a604f78..ca2042e 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -143,6 +143,7 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 // uint32.
 //
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
+	defer close(pipe) // clients may rely on the scanner being finished with a closed pipe
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
 	sc.context = current.context
@@ -208,7 +209,6 @@ func (sc *bidiScanner) stop(pipe chan<- scrap) {
 	tracer().Debugf("stopping bidi scanner, sending final scrap (stopper)")
 	s := scrap{bidiclz: cNULL}
 	pipe <- s
-	close(pipe)
 }
 
 func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
-- 
2.43.0


From 239e8375222acc07601c74742b2798f459e34d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 34/51] fix: bidi positions must not get out of step with the
 text behind illegal bytes

---
 bidi/scanner.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca2042e..cca9f6e 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -16,7 +16,6 @@ import (
 	"io"
 	"strconv"
 	"unicode"
-	"unicode/utf8"
 
 	"golang.org/x/text/unicode/bidi"
 )
@@ -25,7 +24,7 @@ import (
 // same Bidi class.
 type bidiScanner struct {
 	mode          uint8                 // scanner modes, set by scanner options
-	runeScanner   *bufio.Scanner        // we're using an embedded rune reader
+	runeReader    io.RuneReader         // we're using an embedded rune reader
 	bd16          *bracketPairHandler   // support type for handling bracket pairings
 	markup        OutOfLineBidiMarkup   // markup for isolating run sequence delimiting
 	lastMarkupPos int64                 // last position of out-of-line markup
@@ -44,8 +43,7 @@ type bidiScanner struct {
 // identical BiDi class (see NextToken).
 func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bidiScanner {
 	sc := &bidiScanner{}
-	sc.runeScanner = bufio.NewScanner(input)
-	sc.runeScanner.Split(bufio.ScanRunes)
+	sc.runeReader = bufio.NewReader(input)
 	sc.markup = markup
 	sc.lastMarkup = -1
 	sc.bd16 = makeBracketPairHandler(0)
@@ -93,15 +91,11 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 			return 0, 0, markupToBidi(d), true
 		}
 	}
-	if ok := sc.runeScanner.Scan(); !ok {
+	r, length, err := sc.runeReader.ReadRune() // length is 1 for illegal bytes
+	if err != nil {
 		return 0, 0, cNULL, false
 	}
-	b := sc.runeScanner.Bytes()
-	r, length := utf8.DecodeRune(b)
-	props, sz := bidi.LookupRune(r)
-	if sz == 0 || sz != length {
-		panic("bidi package differs in rune interpretation from scanner package")
-	}
+	props, _ := bidi.LookupRune(r)
 	bidiclz := props.Class()
 	if bidiclz == bidi.B { // paragraph separator read
 		if !sc.hasMode(optionIgnoreParSep) {
-- 
2.43.0


From f1ad9ebde1c4331c79c669e912f3e8db2c1eed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 35/51] fix: respect out-of-line bidi markup at the start of
 the text

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index cca9f6e..0774dad 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -46,6 +46,7 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeReader = bufio.NewReader(input)
 	sc.markup = markup
 	sc.lastMarkup = -1
+	sc.lastMarkupPos = -1 // position 0 may have markup, too
 	sc.bd16 = makeBracketPairHandler(0)
 	sc.IRS = append(sc.IRS, sc.bd16)
 	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
-- 
2.43.0


From adaa1270879fada82a233d3d3b1377470d7d4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 36/51] fix: splitting bidi levels keeps embedding, isolates
 and text positions of both parts

---
 bidi/reordering.go | 96 +++++++++++++++++++++++++---------------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 60d3d8d..08ada81 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -50,13 +50,26 @@ func (rl *ResolvedLevels) String() string {
 // and characters are therefore “re-positioned”.
 //
 func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *ResolvedLevels) {
-	prefix, suffix := split(rl.scraps, charpos(at))
+	prefix, suffix := split(copyTree(rl.scraps), charpos(at))
 	if shift0 {
-		//suffix = shiftzero(suffix, charpos(at))
-		shiftzero(&suffix, charpos(at))
+		shiftzero(suffix, charpos(at))
 		tracer().Debugf("resolved levels: shifted suffix levels = %v", suffix)
 	}
-	return &ResolvedLevels{scraps: prefix}, &ResolvedLevels{scraps: suffix}
+	return &ResolvedLevels{scraps: prefix, embedding: rl.embedding},
+		&ResolvedLevels{scraps: suffix, embedding: rl.embedding}
+}
+
+// copyTree creates a copy of scraps and of all the scraps nested within.
+func copyTree(scraps []scrap) []scrap {
+	cp := make([]scrap, len(scraps))
+	copy(cp, scraps)
+	for i, s := range cp {
+		cp[i].children = nil
+		for _, ch := range s.children {
+			cp[i].appendChild(copyTree(ch))
+		}
+	}
+	return cp
 }
 
 func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
@@ -64,65 +77,60 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 	// split, too. In fact, we need to introduce a LRI/RLI at the beginning of
 	// the right rest and can spare PDIs in left parts.
 	tracer().Debugf("split @%d, irs = %v", at, scraps)
-	if !irsContains(scraps, at) {
+	if len(scraps) > 0 && at <= scraps[0].l {
+		return []scrap{}, scraps
+	} else if !irsContains(scraps, at) {
 		return scraps, []scrap{}
 	}
 	for i, s := range scraps {
 		if !s.contains(at) {
 			continue
 		}
-		var restch [][]scrap
-		if len(s.children) > 0 { // TODO omit this
-			tracer().Debugf("split in %v with |ch|=%d", s, len(s.children))
-			for j, ch := range s.children {
-				if irsContains(ch, at) {
-					prefix, suffix := split(ch, at)
-					restch = [][]scrap{suffix}
-					if j < len(s.children)-1 {
-						restch = append(restch, s.children[j+1:]...)
-					}
-					s.children = s.children[:j]
-					s.children = append(s.children, prefix)
-					break
-				}
-			}
-		}
-		// children are split at this point
-		// restch is set to right part of children split
-		rest := scrap{r: s.r, bidiclz: s.bidiclz}
+		rest := s
 		s.r, rest.l = at, at
-		rest.children = restch
-		rseg := make([]scrap, len(scraps)-i+1)
+		s.children, rest.children = splitChildren(s.children, at)
+		rseg := make([]scrap, 0, len(scraps)-i+1)
 		if isisolate(scraps[0]) {
-			rseg[0] = scraps[0] // copy IRS start
-			copy(rseg[1:], scraps[i:])
-			scraps[i], rseg[1] = s, rest
-		} else {
-			copy(rseg, scraps[i:])
-			rseg = rseg[:len(rseg)-1]
-			scraps[i], rseg[0] = s, rest
+			start := scraps[0] // copy IRS start, but not its text position
+			start.l, start.r = at, at
+			rseg = append(rseg, start)
 		}
-		prefix := scraps[:i+1]
-		tracer().Debugf("prefix=%v", prefix)
+		rseg = append(rseg, rest)
+		rseg = append(rseg, scraps[i+1:]...)
+		scraps[i] = s
+		tracer().Debugf("prefix=%v", scraps[:i+1])
 		tracer().Debugf("suffix=%v", rseg)
 		return scraps[:i+1], rseg
 	}
 	panic("split iterated over all scraps, did not find cut line")
 }
 
+// splitChildren distributes the children of a scrap to the left and to the right of a cut.
+func splitChildren(children [][]scrap, at charpos) (left [][]scrap, right [][]scrap) {
+	for _, ch := range children {
+		prefix, suffix := split(ch, at)
+		if len(prefix) > 0 {
+			left = append(left, prefix)
+		}
+		if len(suffix) > 0 {
+			right = append(right, suffix)
+		}
+	}
+	return left, right
+}
+
 func irsContains(scraps []scrap, pos charpos) bool {
-	return scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
+	return len(scraps) > 0 && scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
 }
 
-func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
-	for i, s := range *scraps {
-		s.l = validcharpos(s.l, offset)
-		s.r = validcharpos(s.r, offset)
-		(*scraps)[i] = s
-		//T().Errorf("scrap = %v", s)
+func shiftzero(scraps []scrap, offset charpos) {
+	for i, s := range scraps {
+		scraps[i].l = validcharpos(s.l, offset)
+		scraps[i].r = validcharpos(s.r, offset)
+		for _, ch := range s.children {
+			shiftzero(ch, offset)
+		}
 	}
-	//T().Errorf("shifted = %v", scraps)
-	//return scraps
 }
 
 // The Reordering Phase of the UAX#9 algorithm is basically building a tree
-- 
2.43.0


From 881d34bf230adf96c0c5120f2bf870474297d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 37/51] fix: Reorder and SegmentIterator leave the levels and
 runs they are applied to unchanged

---
 bidi/reordering.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 08ada81..b8a9fe0 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -450,7 +450,8 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 	if len(rl.scraps) == 0 {
 		return &Ordering{}
 	}
-	rscr := reorder(rl.scraps, 0, len(rl.scraps), rl.embedding)
+	rscr := copyTree(rl.scraps) // reorder works in place
+	rscr = reorder(rscr, 0, len(rscr), rl.embedding)
 	tracer().Debugf("=====reorder done, flatten ========")
 	r := flatten(rscr, rl.embedding)
 	return &Ordering{Runs: r}
@@ -509,6 +510,7 @@ func (r *Run) SegmentIterator(reverse bool) *SegmentIterator {
 		reverse: reverse,
 	}
 	if reverse {
+		it.scraps = append([]scrap(nil), r.scraps...) // leave the run as it is
 		mid := len(it.scraps) / 2
 		for i := 0; i < mid; i++ {
 			j := len(it.scraps) - i - 1
-- 
2.43.0


From 59adf7db65e808ab1ec5b47b29734068a259b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 38/51] fix: DirectionAt respects isolates and paragraph
 direction

---
 bidi/reordering.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index b8a9fe0..6d85618 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -459,12 +459,22 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
-	for _, s := range rl.scraps {
+	return directionAt(rl.scraps, pos, rl.embedding)
+}
+
+func directionAt(scraps []scrap, pos uint64, embedding Direction) Direction {
+	embedding = findEmbeddingDir(scraps, embedding)
+	for _, s := range scraps {
 		if uint64(s.l) <= pos && pos < uint64(s.r) {
-			return directionFromBidiClass(s, LeftToRight)
+			for _, ch := range s.children { // is it located in a nested isolate?
+				if l, r := bounds(ch); uint64(l) <= pos && pos < uint64(r) {
+					return directionAt(ch, pos, embedding)
+				}
+			}
+			return directionFromBidiClass(s, embedding)
 		}
 	}
-	return LeftToRight
+	return embedding
 }
 
 // SegmentIterator iterates over the text segments contained in a run.
-- 
2.43.0


From 3296ee58a4ea7dd4ceec47dfaf16dd5305a07d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 39/51] fix: bidi options may be switched off again

---
 bidi/scanner.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 0774dad..b295a78 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -450,22 +450,16 @@ const (
 // thus setting this option will have no effect.
 func RecognizeLegacy(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionRecognizeLegacy) && b ||
-			sc.hasMode(optionRecognizeLegacy) && !b {
-			sc.mode |= optionRecognizeLegacy
-		}
+		sc.setMode(optionRecognizeLegacy, b)
 	}
 }
 
 // DefaultDirection sets outer embedding level for a paragraph
 // (LeftToRight is the normal default).
 func DefaultDirection(dir Direction) Option {
-	if dir == RightToLeft {
-		return func(sc *bidiScanner) {
-			sc.mode |= optionOuterR2L
-		}
+	return func(sc *bidiScanner) {
+		sc.setMode(optionOuterR2L, dir == RightToLeft)
 	}
-	return nil
 }
 
 // TestMode will set up the scanner to recognize UPPERCASE letters as having R2L class.
@@ -483,10 +477,7 @@ func DefaultDirection(dir Direction) Option {
 //
 func TestMode(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionTesting) && b ||
-			sc.hasMode(optionTesting) && !b {
-			sc.mode |= optionTesting
-		}
+		sc.setMode(optionTesting, b)
 	}
 }
 
@@ -497,10 +488,15 @@ func TestMode(b bool) Option {
 // paragraph separator is cut off of the input.
 func IgnoreParagraphSeparators(b bool) Option {
 	return func(sc *bidiScanner) {
-		if !sc.hasMode(optionIgnoreParSep) && b ||
-			sc.hasMode(optionIgnoreParSep) && !b {
-			sc.mode |= optionIgnoreParSep
-		}
+		sc.setMode(optionIgnoreParSep, b)
+	}
+}
+
+func (sc *bidiScanner) setMode(m uint8, on bool) {
+	if on {
+		sc.mode |= m
+	} else {
+		sc.mode &^= m
 	}
 }
 
-- 
2.43.0


From b02d87297af3b308509e5201e6f1a23756f5c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 40/51] fix: bidi supports first strong isolates (FSI) instead
 of panicking

---
 bidi/reordering.go |  2 --
 bidi/resolver.go   | 57 ++++++++++++++++++++++++++++++++++++++++++++++
 bidi/scanner.go    | 12 ++++------
 3 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 6d85618..5cc97bc 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -341,8 +341,6 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 			return RightToLeft
 		case bidi.PDI:
 			panic("PDI is first scrap in child run, strange")
-		case bidi.FSI:
-			panic("bidi.FSI not yet supported")
 		}
 	}
 	return inherited
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 8b035c0..374ee96 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -122,6 +122,63 @@ func (p *parser) scan() {
 	for s := range pipe {
 		p.input = append(p.input, s)
 	}
+	resolveFSI(p.input)
+}
+
+// resolveFSI replaces every first strong isolate (FSI) by either LRI or RLI, depending on the
+// first strong character of the isolate, nested isolates not considered (UAX#9 P2, P3 and X5c).
+// The context of the scraps of the isolate will be adapted accordingly.
+func resolveFSI(scraps []scrap) {
+	open := make([]int, 0, 16) // positions of the isolates which are not yet closed
+	for i, s := range scraps {
+		switch s.bidiclz {
+		case bidi.LRI, bidi.RLI, bidi.FSI:
+			open = append(open, i)
+		case bidi.PDI:
+			if len(open) > 0 {
+				open = open[:len(open)-1]
+			}
+		case bidi.L, bidi.R:
+			if n := len(open); n > 0 && scraps[open[n-1]].bidiclz == bidi.FSI {
+				scraps[open[n-1]].bidiclz = bidi.LRI
+				if s.bidiclz == bidi.R {
+					scraps[open[n-1]].bidiclz = bidi.RLI
+				}
+			}
+		}
+	}
+	type isolate struct {
+		dir    bidi.Direction
+		strong bool // strong character seen?
+	}
+	nested := make([]isolate, 0, 16)
+	for i := range scraps {
+		s := &scraps[i]
+		switch s.bidiclz {
+		case bidi.FSI: // isolate without a strong character
+			s.bidiclz = bidi.LRI
+			nested = append(nested, isolate{dir: bidi.LeftToRight})
+		case bidi.LRI:
+			nested = append(nested, isolate{dir: bidi.LeftToRight})
+		case bidi.RLI:
+			nested = append(nested, isolate{dir: bidi.RightToLeft})
+		}
+		n := len(nested)
+		if n == 0 {
+			continue // outer-most run
+		}
+		strong := s.context.strong
+		s.context.SetEmbedding(nested[n-1].dir)
+		if nested[n-1].strong {
+			s.context.strong = strong
+		}
+		switch s.bidiclz {
+		case bidi.L, bidi.R:
+			nested[n-1].strong = true
+		case bidi.PDI:
+			nested = nested[:n-1]
+		}
+	}
 }
 
 // nextInputScrap reads the next scrap of the input. It returns a
diff --git a/bidi/scanner.go b/bidi/scanner.go
index b295a78..6867b0a 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -239,7 +239,7 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap, context dirContext)
 			return bidi.L
 		case bidi.RLI:
 			return bidi.R
-		case bidi.PDI:
+		case bidi.PDI, bidi.FSI: // direction of FSI is not known yet, NI will resolve to sos
 			return cNI
 		}
 		return currclz
@@ -284,16 +284,14 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 // an isolate continues with the context the isolate is embedded in.
 func (sc *bidiScanner) switchContext(s scrap) scrap {
 	switch s.bidiclz {
-	case bidi.LRI, bidi.RLI:
+	case bidi.LRI, bidi.RLI, bidi.FSI:
 		sc.ctxstack = append(sc.ctxstack, sc.context)
-		if s.bidiclz == bidi.LRI {
-			sc.context.SetEmbedding(bidi.LeftToRight)
-		} else {
+		if s.bidiclz == bidi.RLI {
 			sc.context.SetEmbedding(bidi.RightToLeft)
+		} else { // preliminary for FSI, see resolveFSI
+			sc.context.SetEmbedding(bidi.LeftToRight)
 		}
 		s.context = sc.context
-	case bidi.FSI:
-		sc.ctxstack = append(sc.ctxstack, sc.context)
 	case bidi.PDI:
 		if len(sc.ctxstack) > 0 {
 			sc.context = sc.ctxstack[len(sc.ctxstack)-1]
-- 
2.43.0


From 1151ca048fb09aa4a727065a10360a0822720366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 41/51] fix: stop pairing brackets of an isolating run sequence
 after a stack overflow (BD16)

---
 bidi/brackets.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 8df6224..ddec0f5 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -71,6 +71,7 @@ type bracketPairHandler struct {
 	mx       sync.Mutex   // guards pairings, as parser will access them, too
 	firstpos charpos      // text position of first character in isolating run sequence
 	lastpos  charpos      // text position of PDI
+	overflow bool         // stack overflow, stop processing BD16
 }
 
 // This is the stack to perform the algorithm described above
@@ -104,12 +105,18 @@ func (pr pairing) String() string {
 
 // pushOpening pushes an opening bracket and its position onto the stack.
 func (bph *bracketPairHandler) pushOpening(r rune, s scrap) bool {
+	if len(bph.stack) >= BD16MaxNesting {
+		bph.overflow = true // stop processing BD16 for the remainder of the IRS
+	}
 	var ok bool
 	ok, bph.stack = bph.stack.push(r, s)
 	return ok
 }
 
 func (bph *bracketPairHandler) findPair(r rune, s scrap) (found bool, pos charpos) {
+	if bph.overflow {
+		return
+	}
 	var b brktpos
 	if found, b, bph.stack = bph.stack.popWith(r, s.l); !found {
 		return
-- 
2.43.0


From 34fc4f5c48dfba6852764a66043c9c8dddda6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 42/51] fix: test file reader repeats a case for each blank
 line and cuts comments

---
 internal/ucdparse/testfiles.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/ucdparse/testfiles.go b/internal/ucdparse/testfiles.go
index 8ec1a05..3b61cd3 100644
--- a/internal/ucdparse/testfiles.go
+++ b/internal/ucdparse/testfiles.go
@@ -38,18 +38,18 @@ func (tf *ucdTestFile) Scan() bool {
 	done := false
 	for !done {
 		ok = tf.scanner.Scan()
-		if ok && len(tf.scanner.Bytes()) > 0 {
-			if tf.scanner.Bytes()[0] == '#' {
+		if ok {
+			text := tf.scanner.Text()
+			text = strings.TrimSpace(text)
+			if len(text) == 0 || text[0] == '#' {
 				continue
 			}
 			done = true
-			text := tf.scanner.Text()
-			text = strings.TrimSpace(text)
-			parts := strings.Split(text, "#")
+			parts := strings.SplitN(text, "#", 2)
 			if len(parts) > 1 {
 				tf.text, tf.comment = parts[0], parts[1]
 			} else {
-				tf.text = parts[0]
+				tf.text, tf.comment = parts[0], ""
 			}
 		} else {
 			done = true // with error
-- 
2.43.0


From 8040a6d3b3cc0a9ec079081b9985f8f86ca035c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 43/51] fix: class generators write an empty class for the
 start of the file, and ignore errors in it

---
 emoji/internal/generator/generator.go    | 8 ++++++--
 grapheme/internal/generator/generator.go | 8 ++++++--
 uax14/internal/generator/generator.go    | 8 ++++++--
 uax29/internal/generator/generator.go    | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 0656966..522f6fe 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -36,6 +36,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -79,7 +80,10 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 	gcls := make(map[string]*arraylist.List, len(emojiClassnames))
 	for parser.Next() {
 		from, to := parser.Token.Range()
-		clstr := parser.Token.Field(1)
+		clstr := strings.TrimSpace(parser.Token.Field(1))
+		if clstr == "" {
+			continue // start of file
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
@@ -89,7 +93,7 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 		}
 		gcls[clstr] = list
 	}
-	err = parser.Token.Error
+	err = parser.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index f89db0c..cab07ed 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -37,6 +37,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -84,7 +85,10 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 	gcls := make(map[string]*arraylist.List, len(graphemeClassnames))
 	for parser.Next() {
 		from, to := parser.Token.Range()
-		clstr := parser.Token.Field(1)
+		clstr := strings.TrimSpace(parser.Token.Field(1))
+		if clstr == "" {
+			continue // start of file
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
@@ -94,7 +98,7 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 		}
 		gcls[clstr] = list
 	}
-	err = parser.Token.Error
+	err = parser.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 79a2b94..1bd6cdc 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -36,6 +36,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -75,7 +76,10 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 	lbcs := make(map[string]*arraylist.List, len(uax14classnames))
 	for p.Next() {
 		from, to := p.Token.Range()
-		brclzstr := p.Token.Field(1)
+		brclzstr := strings.TrimSpace(p.Token.Field(1))
+		if brclzstr == "" {
+			continue // start of file
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
@@ -85,7 +89,7 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		}
 		lbcs[brclzstr] = list
 	}
-	err = p.Token.Error
+	err = p.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index b115119..28100f9 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -42,6 +42,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -81,7 +82,10 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 	lbcs := make(map[string]*arraylist.List, len(uax29classnames))
 	for p.Next() {
 		from, to := p.Token.Range()
-		brclzstr := p.Token.Field(1)
+		brclzstr := strings.TrimSpace(p.Token.Field(1))
+		if brclzstr == "" {
+			continue // start of file
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
@@ -91,7 +95,7 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		}
 		lbcs[brclzstr] = list
 	}
-	err = p.Token.Error
+	err = p.LastError
 	if err != nil {
 		log.Fatal(err)
 	}
-- 
2.43.0


From 84ee040275411d7947f5206da3bed501ea374385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 44/51] fix: tablegen writes incomplete tables if it cannot
 read its input

---
 internal/tablegen/main.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/tablegen/main.go b/internal/tablegen/main.go
index 77b6916..e4012ac 100644
--- a/internal/tablegen/main.go
+++ b/internal/tablegen/main.go
@@ -81,10 +81,14 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	defer resp.Body.Close()
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("cannot download %s: %s", *ucdurl, resp.Status)
+	}
 	printPreamble(buf, *packageNameFlag)
 
 	// parse UCD file and collect ranges
-	ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
+	err = ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
 		l, r := p.Range()             // char range in field 0
 		t := p.Field(categoryFieldNo) // character category
 		t = strings.TrimSpace(t)
@@ -93,6 +97,9 @@ func main() {
 		}
 		append(ranges, t, l, r)
 	})
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	// output range information per category
 	for _, rt := range ranges {
-- 
2.43.0


From c4082054ae6bdf2a8211f90dc13f18c5b255893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 45/51] fix: comments of UCD items are cut at a second #

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 3435852..b210621 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -189,7 +189,7 @@ func isHexDigit(r rune) bool {
 func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 	rest := sc.Buf.ReadLineRemainder()
 	fmt.Printf("remainder = %q\n", rest)
-	a := strings.Split(rest, "#")
+	a := strings.SplitN(rest, "#", 2)
 	if len(a) > 1 {
 		token.Comment = strings.TrimSpace(a[1])
 		fmt.Printf("@ comment = %q\n", token.Comment)
-- 
2.43.0


From 885373d126f49931ba44c88d32a18893f7febf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 46/51] fix: line break rules LB21a, LB25 and LB30a ignore
 combining marks (LB9)

---
 uax14/rules.go | 22 +++++++++++++++++++---
 uax14/uax14.go |  2 +-
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index fb2a324..204e4dd 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -353,11 +353,21 @@ func rule_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func finish_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == HYClass || c == BAClass {
-		return uax.DoAccept(rec, p(21))
+		rec.MatchLen++
+		return end_LB21a
 	}
 	return uax.DoAbort(rec)
 }
 
+// .. x, where the hyphen may have combining marks
+func end_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	if rec.UserData.(*LineWrap).substituted {
+		rec.MatchLen++
+		return end_LB21a
+	}
+	return uax.DoAccept(rec, 0, p(21))
+}
+
 //  LB21b Don’t break between Solidus and Hebrew letters.
 //
 // SY x HL
@@ -521,7 +531,10 @@ func step2_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func step3_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
-	if c == NUClass {
+	if rec.MatchLen > 0 && rec.UserData.(*LineWrap).substituted { // combining mark of OP or HY
+		rec.MatchLen++
+		return step3_LB25
+	} else if c == NUClass {
 		rec.MatchLen++
 		return step4_LB25
 	}
@@ -544,7 +557,10 @@ func step4_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func step5_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
-	if c == PRClass || c == POClass {
+	if rec.UserData.(*LineWrap).substituted { // combining mark of CL or CP
+		rec.MatchLen++
+		return step5_LB25
+	} else if c == PRClass || c == POClass {
 		return uax.DoAccept(rec, ps(25, p(25), rec.MatchLen)...)
 	}
 	return uax.DoAccept(rec, ps(25, 0, rec.MatchLen)...)
diff --git a/uax14/uax14.go b/uax14/uax14.go
index 5478687..4fccee4 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -195,7 +195,7 @@ func (uax14 *LineWrap) CodePointClassFor(r rune) int {
 // Interface unicode.UnicodeBreaker
 func (uax14 *LineWrap) StartRulesFor(r rune, cpClass int) {
 	c := UAX14Class(cpClass)
-	if c != RIClass || !uax14.blockedRI {
+	if c != RIClass || !uax14.blockedRI && !uax14.substituted {
 		if rules := uax14.rules[c]; len(rules) > 0 {
 			tracer().P("class", c).Debugf("starting %d rule(s) for class %s", len(rules), c)
 			for _, rule := range rules {
-- 
2.43.0


From e32f688ec59ad0977a87903df8d338f187ea0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 47/51] fix: line break rule LB8a (zero width joiner) was never
 applied

---
 uax14/rules.go | 11 ++++++++---
 uax14/uax14.go | 13 ++++++-------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index 204e4dd..bf6c3fb 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -179,11 +179,16 @@ func finish_LB8(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	return uax.DoAccept(rec, 0, -p(8))
 }
 
-// LB8a Do not break after a zero width joiner.
+// LB8a Do not break between a zero width joiner and an ideograph, emoji base or
+// emoji modifier.
 //
-// ZWJ x
+// ZWJ x (ID | EB | EM)
 func rule_LB8a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-	return uax.DoAccept(rec, p(8))
+	uax14 := rec.UserData.(*LineWrap)
+	if uax14.joined && !uax14.substituted {
+		return uax.DoAccept(rec, 0, p(8))
+	}
+	return uax.DoAbort(rec)
 }
 
 // LB11 Do not break before or after Word joiner and related characters.
diff --git a/uax14/uax14.go b/uax14/uax14.go
index 4fccee4..ee7004e 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -33,9 +33,7 @@ if clients call NewLineWrap().
 
 Status
 
-The current implementation passes all tests from the UAX#14 test file, except 3:
-
-    uax14_test.go:65: 3 TEST CASES OUT of 7001 FAILED
+The current implementation passes all tests from the UAX#14 test file.
 
 ______________________________________________________________________
 
@@ -114,6 +112,7 @@ type LineWrap struct {
 	blockedRI    bool       // are rules for Regional_Indicator currently blocked?
 	substituted  bool       // has the code-point class been substituted?
 	shadow       UAX14Class // class before substitution
+	joined       bool       // is the preceding code-point a zero width joiner?
 }
 
 // NewLineWrap creates a new UAX#14 line breaker.
@@ -154,9 +153,9 @@ func NewLineWrap() *LineWrap {
 		BBClass:  {rule_LB21x},
 		ALClass:  {rule_LB22, rule_LB23_1, rule_LB24_2, rule_LB28, rule_LB30_1},
 		HLClass:  {rule_LB21a, rule_LB22, rule_LB23_1, rule_LB24_2, rule_LB28, rule_LB30_1},
-		IDClass:  {rule_LB22, rule_LB23a_2},
-		EBClass:  {rule_LB22, rule_LB23a_2, rule_LB30b},
-		EMClass:  {rule_LB22, rule_LB23a_2},
+		IDClass:  {rule_LB8a, rule_LB22, rule_LB23a_2},
+		EBClass:  {rule_LB8a, rule_LB22, rule_LB23a_2, rule_LB30b},
+		EMClass:  {rule_LB8a, rule_LB22, rule_LB23a_2},
 		INClass:  {rule_LB22},
 		NUClass:  {rule_LB22, rule_LB23_2, step3_LB25, rule_LB30_1},
 		RIClass:  {rule_LB30a},
@@ -167,7 +166,6 @@ func NewLineWrap() *LineWrap {
 		H2Class:  {rule_LB26_2, rule_LB27},
 		JTClass:  {rule_LB26_3, rule_LB27},
 		H3Class:  {rule_LB26_3, rule_LB27},
-		ZWJClass: {rule_LB8a},
 	}
 	if rangeFromUAX14Class == nil {
 		tracer().Infof("UAX#14 classes not yet initialized -> initializing")
@@ -337,6 +335,7 @@ func (uax14 *LineWrap) ProceedWithRune(r rune, cpClass int) {
 		c = sot
 	}
 	uax14.lastClass = c
+	uax14.joined = uax14.shadow == ZWJClass
 }
 
 // LongestActiveMatch is part of interface unicode.UnicodeBreaker
-- 
2.43.0


From ad3a07affff0a840f1ddca8a7778246a9e11eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 48/51] fix: mandatory line breaks had penalties above
 InfiniteMerits, up to 1000

---
 uax14/uax14.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index ee7004e..9cb4a4d 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -366,7 +366,7 @@ func (uax14 *LineWrap) unblock() {
 // Penalties (suppress break and mandatory break).
 var (
 	PenaltyToSuppressBreak = 10000  // Suppress break: ×
-	PenaltyForMustBreak    = -19000 // Break: !
+	PenaltyForMustBreak    = -30000 // Break: !    outweighs suppressions by other rules
 	DefaultPenalty         = 1      // Rule LB31: ÷    fragile, do not change!
 )
 
-- 
2.43.0


From f80b7af9e0914fef1447311ad9bb1dea1ae2dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 49/51] fix: a break before CR was suppressed twice, which
 could undo a mandatory line break

---
 uax14/rules.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index bf6c3fb..f66a282 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -142,9 +142,9 @@ func rule_05_NewLine(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_05_CRLF(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == LFClass {
-		return uax.DoAccept(rec, PenaltyForMustBreak, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		return uax.DoAccept(rec, PenaltyForMustBreak, PenaltyToSuppressBreak)
 	}
-	return uax.DoAccept(rec, 0, PenaltyForMustBreak, PenaltyToSuppressBreak)
+	return uax.DoAccept(rec, 0, PenaltyForMustBreak)
 }
 
 func rule_06_HardBreak(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From 191bd2469e1c0b47575e4ebf7d8b99a18cb920da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 50/51] fix: remove data race when the first line breakers are
 created concurrently

---
 uax14/uax14.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index 9cb4a4d..60f21f7 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -167,9 +167,6 @@ func NewLineWrap() *LineWrap {
 		JTClass:  {rule_LB26_3, rule_LB27},
 		H3Class:  {rule_LB26_3, rule_LB27},
 	}
-	if rangeFromUAX14Class == nil {
-		tracer().Infof("UAX#14 classes not yet initialized -> initializing")
-	}
 	SetupClasses()
 	uax14.lastClass = sot
 	return uax14
-- 
2.43.0


From 741ef7ccdd568b621904bab3e612dbb883370bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 51/51] fix: BoundedNext delivers nothing for bounds near the
 smallest integer

---
 segment/segment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segment/segment.go b/segment/segment.go
index acca267..906c4cc 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -306,7 +306,7 @@ func (s *Segmenter) Next() bool {
 // See also method `Next`.
 //
 func (s *Segmenter) BoundedNext(bound int) bool {
-	return s.next(bound - 1) // semantics in `next` is including, API is excluding bound
+	return s.next(max(bound, 0) - 1) // semantics in `next` is including, API is excluding bound
 }
 
 // setErr() records the first error encountered.
-- 
2.43.0

