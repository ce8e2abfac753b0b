From fd6a8d4123067b12409a186ac13c2c1210890c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 01/45] fix: format month names with the month table

MonthTyp.format indexed shortDayNames, so Jan..Jul were printed as weekday
names and Aug..Dec made Format fail with an index error.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 546d0d4..eda8dca 100644
--- a/format.go
+++ b/format.go
@@ -504,7 +504,7 @@ func (e *MonthTyp) format(w io.StringWriter, _ string, inline bool) {
 	if !inline {
 		checkError(w.WriteString("month["))
 	}
-	checkError(w.WriteString(shortDayNames[e.Val-1]))
+	checkError(w.WriteString(shortMonthNames[e.Val-1]))
 	if !inline {
 		checkError(w.WriteString("]"))
 	}
-- 
2.43.0


From eedf0b0dd0a517fb6febf1ba34f5083c7ba17362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 02/45] fix: return a nil Statement when Parse fails

parseTriggerStmt's nil *Trigger was converted to a Statement, so on every
syntax error inside a trigger Parse returned a non-nil Statement holding a
nil pointer.
---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 892b76a..a025b6e 100644
--- a/parser.go
+++ b/parser.go
@@ -193,7 +193,11 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if s.except(TRIGGER) {
 			s.next()
 		}
-		return s.parseTriggerStmt()
+		trigger, er := s.parseTriggerStmt()
+		if er != nil {
+			return nil, er
+		}
+		return trigger, nil
 	default:
 		err = s.error()
 	}
-- 
2.43.0


From 7bd2fee5dc7730ee4219255df007fb2a9159c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 03/45] fix: reject input left over after a complete statement

Parse stopped at the first token that could not continue the rule and
ignored the rest, so "when a > 1 b < 2" was accepted as "when a > 1".
---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index a025b6e..d76f7b3 100644
--- a/parser.go
+++ b/parser.go
@@ -197,6 +197,9 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if er != nil {
 			return nil, er
 		}
+		if !s.except(EOF) {
+			return nil, s.error()
+		}
 		return trigger, nil
 	default:
 		err = s.error()
-- 
2.43.0


From 8ff810506fefa4b7ba02ffebd9f10f7125312626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:52 +0000
Subject: [PATCH 04/45] fix: report scanner errors found after the last
 expression

The scanner's error was only looked at before each unary expression, so an
unterminated string, a bad escape or an illegal byte in the last one was
accepted.
---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index d76f7b3..4a6be32 100644
--- a/parser.go
+++ b/parser.go
@@ -197,6 +197,10 @@ func (s *parser) parse0() (stmt Statement, err error) {
 		if er != nil {
 			return nil, er
 		}
+		if s.t.Err() != nil {
+			s.err = s.t.Err()
+			return nil, s.error()
+		}
 		if !s.except(EOF) {
 			return nil, s.error()
 		}
-- 
2.43.0


From 41017897c55c181c9b19f29add92ee5dd12b0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 05/45] fix: only operators and a closing parenthesis inside
 parentheses

A parenthesised expression was parsed with minimum precedence 0, so any
token served as an operator ("(a b c)"), and the closing parenthesis was
not checked.
---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 4a6be32..df47a58 100644
--- a/parser.go
+++ b/parser.go
@@ -328,10 +328,13 @@ func (s *parser) isSignPlus() bool {
 
 func (s *parser) parseParenExpr() (expr Expr, err error) {
 	lp := s.t.Offset()
-	expr, err = s.parseBinaryExpr(s.tok.Precedence())
+	expr, err = s.parseBinaryExpr(1)
 	if err != nil {
 		return nil, err
 	}
+	if !s.except(RPAREN) {
+		return nil, s.error()
+	}
 	rp := s.t.Offset()
 	s.next()
 	return &ParenExpr{Expr: expr, lpos: lp, rpos: rp}, nil
-- 
2.43.0


From 95bea11447dc4b534125ffde85455f3ce0b06e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 06/45] fix: apply a sign to the number it precedes and to
 nothing else

The sign was kept until the whole operand, range included, was parsed:
"-5 .. 5" became -5 .. -5 and "-(1+2)" became (-1+2), while "-a" lost its
sign. Clear it before the upper bound of a range and accept it only in
front of a number.
---
 parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index df47a58..83daa9e 100644
--- a/parser.go
+++ b/parser.go
@@ -261,6 +261,10 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 			s.sign = ADD
 		}
 		s.next()
+		if !s.except(INT, FLOAT) {
+			s.err = fmt.Errorf("illegal expression")
+			return nil, s.error()
+		}
 	}
 
 	switch s.tok {
@@ -300,13 +304,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	case BOOLEAN:
 		expr, err = s.parseBooleanLit()
 	}
+	s.resetSign()
 	if err == nil {
 		switch s.tok {
 		case RANGE:
 			expr, err = s.parseRangeExpr(expr)
 		}
 	}
-	s.resetSign()
 	return
 }
 
-- 
2.43.0


From cb16959f2eaff6f9622b281ca25f18000d7ab5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 07/45] fix: keep the sign of a negative pressure

"-5Bar" was parsed as 5Bar.
---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index ba9d923..145af70 100644
--- a/primitive.go
+++ b/primitive.go
@@ -83,6 +83,9 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
+		if s.isSignMinus() {
+			v = -v
+		}
 		u := unitFromString(s.lit)
 		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
-- 
2.43.0


From 5994b06d741aabc93ab45c99df9c29b8be60df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 08/45] fix: require a distance after the colon of a point or
 line

A colon followed by anything but a number was silently dropped, so
"point[1,1]:-5km" was parsed as point[1,1] - 5km.
---
 primitive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/primitive.go b/primitive.go
index 145af70..de899fd 100644
--- a/primitive.go
+++ b/primitive.go
@@ -168,6 +168,8 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 		if !ok {
 			return nil, s.error()
 		}
+	default:
+		return nil, s.error()
 	}
 	return
 }
-- 
2.43.0


From 98358d774063943eb0703171188e6c0874de87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 09/45] fix: require the closing brace of selector arguments

The end of input closed the braces as well.
---
 composite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite.go b/composite.go
index c1520c1..ad18965 100644
--- a/composite.go
+++ b/composite.go
@@ -145,6 +145,9 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 			}
 			selector.Args[trim(s.t.TokenText())] = struct{}{}
 		}
+		if !s.except(RBRACE) {
+			return nil, s.error()
+		}
 		if i == 0 {
 			selector.Wildcard = true
 		}
-- 
2.43.0


From 560a50006965c3d6fa2177846e2b33380a809d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 10/45] fix: strip only the delimiting quotes of a string

trim removed every quote at both ends, so a string ending in an escaped
quote lost it and kept a dangling backslash.
---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 83daa9e..1f3887e 100644
--- a/parser.go
+++ b/parser.go
@@ -390,7 +390,7 @@ func isGeometryToken(tok Token) (ok bool) {
 }
 
 func trim(lit string) string {
-	lit = strings.TrimLeft(lit, `"`)
-	lit = strings.TrimRight(lit, `"`)
+	lit = strings.TrimPrefix(lit, `"`)
+	lit = strings.TrimSuffix(lit, `"`)
 	return lit
 }
-- 
2.43.0


From 6ab326219c1937acf717a3f3c6d48bd4200fc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 11/45] fix: take a unit only from an identifier or a percent
 sign

The text of the scanner's current token was tried as a unit whatever the
token was. After an operator with lookahead that is the next operand, so
"5 > c" was parsed as 5C; "5 mod 2" was tried as a duration, and "5 not %"
was 5%.
---
 primitive.go | 7 +++++--
 token.go     | 7 ++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/primitive.go b/primitive.go
index de899fd..18ea7be 100644
--- a/primitive.go
+++ b/primitive.go
@@ -71,7 +71,10 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
 	s.rpos = s.t.Offset() - 1
 	s.next()
-	unit := s.t.TokenText()
+	var unit string
+	if s.except(SELECTOR) || s.lit == "%" {
+		unit = s.t.TokenText()
+	}
 	litlen := Pos(len(plit))
 	switch {
 	case isPercentUnit(unit):
@@ -125,7 +128,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		s.next()
 	default:
 		var fr rune
-		if len(s.lit) > 0 {
+		if s.except(SELECTOR) && len(s.lit) > 0 {
 			fr = rune(s.lit[0])
 		}
 		switch fr {
diff --git a/token.go b/token.go
index 2ae51e6..5883b66 100644
--- a/token.go
+++ b/token.go
@@ -190,13 +190,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case "not":
 			found = true
 			r, s = t.next()
-			lit = strings.ToLower(s)
-			notlit := "not " + lit
-			notkwd, exists := keywords[notlit]
+			lit = "not " + strings.ToLower(s)
+			notkwd, exists := keywords[lit]
 			if exists {
-				found = true
 				kwd = notkwd
-				lit = notlit
 			}
 		default:
 			kwd, found = keywords[lit]
-- 
2.43.0


From 87cee00db2b50f77050b39f303eff4c0173843a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 12/45] fix: require a separator between array elements

Whatever token followed an element was skipped, so "[1 2 3]" was parsed as
[1, 3].
---
 composite.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composite.go b/composite.go
index ad18965..7c1e540 100644
--- a/composite.go
+++ b/composite.go
@@ -77,6 +77,10 @@ func (s *parser) parseArrayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			break
 		}
+		// a colon separates the parts of an unquoted time: [11:11:11, 10:10:10]
+		if !s.except(COMMA, COLON) {
+			return nil, s.error()
+		}
 	}
 	arrayExpr.rpos = s.t.Offset()
 	s.next()
-- 
2.43.0


From 92a7a9843618e88ac69f267d8864aa16a1e92c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 13/45] fix: require a separator between calendar elements, and
 one range

Any token could follow an element of date[], time[], weekday[] or month[];
the element before it was then dropped unless it was part of a list. A
second ".." dropped the lower bound of the first.
---
 datetime.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/datetime.go b/datetime.go
index 1e49f50..d698804 100644
--- a/datetime.go
+++ b/datetime.go
@@ -97,10 +97,13 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = date
+			rangeExpr = &Range{Low: date}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -232,10 +235,13 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = time_
+			rangeExpr = &Range{Low: time_}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -318,10 +324,13 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = wd
+			rangeExpr = &Range{Low: wd}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
@@ -414,10 +423,13 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			if arrayExpr != nil {
 				return nil, s.error()
 			}
-			if rangeExpr == nil {
-				rangeExpr = &Range{}
+			if rangeExpr != nil {
+				return nil, s.error()
 			}
-			rangeExpr.Low = wd
+			rangeExpr = &Range{Low: wd}
+		case RBRACK:
+		default:
+			return nil, s.error()
 		}
 		if s.except(RBRACK) {
 			switch {
-- 
2.43.0


From aaea6b5871789be685df2e546032522ca15bc139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:59 +0000
Subject: [PATCH 14/45] fix: require both separators of a date

One was enough, so a number could stand for the other: "2022-01 02 03" was
parsed as 2022-01-03.
---
 datetime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datetime.go b/datetime.go
index d698804..1735a31 100644
--- a/datetime.go
+++ b/datetime.go
@@ -72,7 +72,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			s.err = fmt.Errorf("invalid year format: got %d, expected 2022-2200", y)
 			return nil, s.error()
 		}
-		if sep < 1 {
+		if sep < 2 {
 			s.err = fmt.Errorf("invalid date format")
 			return nil, s.error()
 		}
-- 
2.43.0


From 00dedeb5e20773ebdb77e7473e38ca4eca36aebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 15/45] fix: require colons between, and numbers after, the
 parts of a time

A number in the place of a colon and a missing part were skipped:
"time[11 12:13]", "time[11:]" and "time[11::12]" were all parsed as 11:00.
---
 datetime.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datetime.go b/datetime.go
index 1735a31..4a4cb81 100644
--- a/datetime.go
+++ b/datetime.go
@@ -162,16 +162,18 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		var sep int
 		for i := 0; i <= 3; i++ {
 			s.next()
-			if s.except(COLON) {
+			isSep := i%2 == 0
+			if s.except(COLON) && isSep {
 				sep++
 				continue
 			}
-			if s.except(RBRACK, COMMA, RANGE, SELECTOR) {
+			if s.except(RBRACK, COMMA, RANGE, SELECTOR) && isSep {
 				s.t.Reset()
 				break
 			}
-			if !s.except(COLON, INT) || s.except(EOF) {
+			if !s.except(INT) || isSep {
 				err = fmt.Errorf("invalid time format: expected time[HH:MM:SS]")
+				break
 			}
 			switch {
 			case isMinutes(i):
-- 
2.43.0


From 8648c43758c15fc2211324cd88b51f78a0e1e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:01 +0000
Subject: [PATCH 16/45] fix: require a name after @

Any token was taken for the name of the variable, with the text of the
token after it if that was an operator with lookahead.
---
 primitive.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitive.go b/primitive.go
index 18ea7be..a5939e3 100644
--- a/primitive.go
+++ b/primitive.go
@@ -7,6 +7,9 @@ import (
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return nil, s.error()
+	}
 	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
 	s.next()
 	return
-- 
2.43.0


From 6cd85728501da63522d321d970617064b41bb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 17/45] fix: consume the wildcard

parseWildcardLit left the parser at the wildcard, which was then read again
as a multiplication: "* 1" was parsed as * * 1, and "*" was rejected.
---
 parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 1f3887e..3f3d9c6 100644
--- a/parser.go
+++ b/parser.go
@@ -315,7 +315,9 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 }
 
 func (s *parser) parseWildcardLit() (expr Expr, err error) {
-	return &WildcardTyp{lpos: s.t.Offset()}, nil
+	expr = &WildcardTyp{lpos: s.t.Offset()}
+	s.next()
+	return
 }
 
 func (s *parser) resetSign() {
-- 
2.43.0


From 3fb604cb14f5b59dbbeff0b0bdee55933f31a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 18/45] fix: reject a range as the upper bound of a range

It was only rejected as the lower one: "1 .. 2 .. 3".
---
 composite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/composite.go b/composite.go
index 7c1e540..3ceb2ae 100644
--- a/composite.go
+++ b/composite.go
@@ -97,6 +97,9 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if err != nil {
 		return
 	}
+	if _, isRangeExpr = high.(*Range); isRangeExpr {
+		return nil, s.error()
+	}
 	return &Range{
 		Low:  low,
 		High: high,
-- 
2.43.0


From a5bef88bca6710fdec2c30b3a4c2f2242ae3ceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 19/45] fix: require a word between RESET and its duration

Any token was skipped there, "reset 5 1h" included. REPEAT already asks for
a word before its interval.
---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 3f3d9c6..b55e4c8 100644
--- a/parser.go
+++ b/parser.go
@@ -163,6 +163,9 @@ func (s *parser) parseSet(stmt *Trigger) error {
 
 func (s *parser) parseReset(stmt *Trigger) (err error) {
 	s.next()
+	if !s.except(SELECTOR) {
+		return s.error()
+	}
 	s.next()
 	var dur Expr
 	switch s.tok {
-- 
2.43.0


From 9b0a69985f2facf04e86bde1b5f6213a3f59e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 20/45] fix: do not re-read half of a range operator after a
 time

The parser pushed the token after HH:MM back to read it again, but only the
second dot of ".." comes back, which also made "..." pass for a range.
---
 datetime.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datetime.go b/datetime.go
index 4a4cb81..8fc245e 100644
--- a/datetime.go
+++ b/datetime.go
@@ -160,6 +160,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			return nil, s.error()
 		}
 		var sep int
+		var done bool
 		for i := 0; i <= 3; i++ {
 			s.next()
 			isSep := i%2 == 0
@@ -168,7 +169,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				continue
 			}
 			if s.except(RBRACK, COMMA, RANGE, SELECTOR) && isSep {
-				s.t.Reset()
+				done = true
 				break
 			}
 			if !s.except(INT) || isSep {
@@ -205,7 +206,9 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			s.err = fmt.Errorf("invalid time format")
 			return nil, s.error()
 		}
-		s.next()
+		if !done {
+			s.next()
+		}
 		time_ := &TimeTyp{
 			Hours:   h,
 			Minutes: m,
-- 
2.43.0


From a1425c905291bbd140e16a696b1467a8a2ba6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 21/45] fix: require complete coordinate pairs at the nesting
 of the geometry

---
 geometry.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/geometry.go b/geometry.go
index d3e0733..5c577fb 100644
--- a/geometry.go
+++ b/geometry.go
@@ -112,15 +112,22 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	var cc [][][2]float64
 	open := true
 	q := 1
+	var n, depth int // numbers in the open pair, nesting of the pairs
+	switch geomtyp {
+	case GEOMETRY_LINE:
+		depth = 1
+	case GEOMETRY_POLYGON:
+		depth = 2
+	}
 	for {
 		s.next()
-		if s.except(EOF) {
-			break
-		}
 		if !s.except(LBRACK, SUB, COMMA, FLOAT, INT, RBRACK) {
-			break
+			return nil, s.error()
 		}
 		if s.except(LBRACK) {
+			if path == depth {
+				return nil, s.error()
+			}
 			path++
 			q++
 			open = true
@@ -128,6 +135,9 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		}
 		if s.except(RBRACK) {
 			if open {
+				if n != 2 || path != depth {
+					return nil, s.error()
+				}
 				switch path {
 				case 0:
 					aa = [2]float64{x, y}
@@ -156,6 +166,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 				bb = make([][2]float64, 0)
 			}
 			open = false
+			n = 0
 			pi = 0
 			x = 0
 			y = 0
@@ -199,6 +210,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
+		if !open || path != depth || n != int(pi) {
+			return nil, s.error()
+		}
+		n++
 		switch pi {
 		case 0:
 			x = val
-- 
2.43.0


From 9e046463a8981e3ff501eb09be014624e7d0b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 22/45] fix: push back whole tokens, and report the offset and
 text of the token

Reset after a two-character operator pushed back its second half, Unwind
after a one-character operator dropped the token that follows it, and
Offset and TokenText (so operator positions and error offsets) were those
of the lookahead.
---
 parser.go |  8 +++----
 token.go  | 65 ++++++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/parser.go b/parser.go
index b55e4c8..7647d53 100644
--- a/parser.go
+++ b/parser.go
@@ -131,7 +131,7 @@ func (s *parser) parseSet(stmt *Trigger) error {
 		if !s.except(ASSIGN) {
 			return s.error()
 		}
-		tokPos := s.t.Offset() - 1
+		tokPos := s.t.Offset()
 		expr, err := s.parseUnaryExpr()
 		if err != nil {
 			return err
@@ -351,13 +351,13 @@ func (s *parser) parseParenExpr() (expr Expr, err error) {
 
 func (s *parser) error() error {
 	err := Error{
-		Offset: s.t.s.Offset,
+		Offset: int(s.t.Offset()),
 		Err:    s.err,
-		Lit:    s.t.lit,
+		Lit:    s.t.TokenText(),
 	}
 	_, er := s.r.Seek(0, io.SeekStart)
 	if er == nil {
-		buf := make([]byte, s.t.s.Offset)
+		buf := make([]byte, err.Offset)
 		_, _ = s.r.Read(buf)
 		err.Msg = string(buf)
 	}
diff --git a/token.go b/token.go
index 5883b66..28e4710 100644
--- a/token.go
+++ b/token.go
@@ -14,11 +14,18 @@ type (
 )
 
 type Tokenizer struct {
-	s   scanner.Scanner
-	hop int
-	tok rune
-	lit string
-	err error
+	s       scanner.Scanner
+	hop     int // 1: Scan returns the last token again
+	peek    int // 1: the last raw token is a lookahead
+	tok     rune
+	lit     string
+	err     error
+	scanned bool
+	last    struct {
+		tok       Token
+		lit, text string
+		off, end  int // offsets of the first byte, and after the last
+	}
 }
 
 func NewTokenizer(r io.Reader) *Tokenizer {
@@ -32,18 +39,22 @@ func NewTokenizer(r io.Reader) *Tokenizer {
 }
 
 func (t *Tokenizer) next() (rune, string) {
-	if t.hop != 0 {
-		t.hop = 0
+	if t.peek != 0 {
+		t.peek = 0
 	} else {
 		t.tok, t.lit = t.s.Scan(), t.s.TokenText()
 	}
 	return t.tok, t.lit
 }
 
+// Reset pushes the last token back: the next Scan returns it again.
 func (t *Tokenizer) Reset() {
-	t.hop = 1
+	if t.scanned {
+		t.hop = 1
+	}
 }
 
+// Unwind cancels Reset.
 func (t *Tokenizer) Unwind() {
 	t.hop = 0
 }
@@ -57,15 +68,33 @@ func (t *Tokenizer) Err() error {
 }
 
 func (t *Tokenizer) Offset() Pos {
-	return Pos(t.s.Offset)
+	return Pos(t.last.off)
 }
 
 func (t *Tokenizer) TokenText() string {
-	return t.s.TokenText()
+	return t.last.text
 }
 
 func (t *Tokenizer) Scan() (tok Token, lit string) {
+	if t.hop == 0 {
+		t.last.tok, t.last.lit = t.scan()
+		t.scanned = true
+	}
+	t.hop = 0
+	return t.last.tok, t.last.lit
+}
+
+// join makes the raw token just read a part of the current token.
+func (t *Tokenizer) join(sep string) {
+	t.last.text += sep + t.lit
+	t.last.end = t.s.Offset + len(t.lit)
+}
+
+func (t *Tokenizer) scan() (tok Token, lit string) {
 	r, s := t.next()
+	t.last.text = s
+	t.last.off = t.s.Offset
+	t.last.end = t.s.Offset + len(s)
 	lit = strings.ToLower(s)
 	switch r {
 	case scanner.EOF:
@@ -82,9 +111,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '.':
 			tok = RANGE
 			lit = KeywordString(tok)
+			t.join("")
 		default:
 			tok = PERIOD
-			t.Reset()
+			t.peek = 1
 		}
 	case '=':
 		nr, _ := t.next()
@@ -92,9 +122,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = LEQL
 			lit = KeywordString(tok)
+			t.join("")
 		default:
 			tok = ASSIGN
-			t.Reset()
+			t.peek = 1
 		}
 	case '@':
 		tok = IDENT
@@ -128,9 +159,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = LNEQ
 			lit = KeywordString(tok)
+			t.join("")
 		default:
 			tok = ILLEGAL
-			t.Reset()
+			t.peek = 1
 		}
 	case '>':
 		nr, _ := t.next()
@@ -138,9 +170,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = GEQ
 			lit = KeywordString(tok)
+			t.join("")
 		default:
 			tok = GTR
-			t.Reset()
+			t.peek = 1
 		}
 	case '<':
 		nr, _ := t.next()
@@ -148,9 +181,10 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case '=':
 			tok = LEQ
 			lit = KeywordString(tok)
+			t.join("")
 		default:
 			tok = LSS
-			t.Reset()
+			t.peek = 1
 		}
 	case ':':
 		tok = COLON
@@ -190,6 +224,7 @@ func (t *Tokenizer) Scan() (tok Token, lit string) {
 		case "not":
 			found = true
 			r, s = t.next()
+			t.join(" ")
 			lit = "not " + strings.ToLower(s)
 			notkwd, exists := keywords[lit]
 			if exists {
-- 
2.43.0


From 4b8c2b979043e2071599cc57b1d90716832a0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 23/45] fix: source extents of literals with whitespace, signs
 and long unit names

---
 parser.go    |  4 ++++
 primitive.go | 36 ++++++++++++++----------------------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/parser.go b/parser.go
index 7647d53..85bf8c0 100644
--- a/parser.go
+++ b/parser.go
@@ -25,6 +25,8 @@ type parser struct {
 	sign Token
 	lpos Pos
 	rpos Pos
+	prev Pos // last byte of the token before tok
+	spos Pos // first byte of sign
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -186,6 +188,7 @@ func (s *parser) parseReset(stmt *Trigger) (err error) {
 }
 
 func (s *parser) next() {
+	s.prev = Pos(s.t.last.end - 1)
 	s.tok, s.lit = s.t.Scan()
 }
 
@@ -257,6 +260,7 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 	s.next()
 
 	if s.except(SUB, ADD) {
+		s.spos = s.t.Offset()
 		switch s.tok {
 		case SUB:
 			s.sign = SUB
diff --git a/primitive.go b/primitive.go
index a5939e3..08163cb 100644
--- a/primitive.go
+++ b/primitive.go
@@ -6,11 +6,12 @@ import (
 )
 
 func (s *parser) parseVarExpr() (expr Expr, err error) {
+	lpos := s.t.Offset()
 	s.next()
 	if !s.except(SELECTOR) {
 		return nil, s.error()
 	}
-	expr = &Ref{ID: s.t.TokenText(), lpos: s.t.Offset()}
+	expr = &Ref{ID: s.t.TokenText(), lpos: lpos, rpos: Pos(s.t.last.end - 1)}
 	s.next()
 	return
 }
@@ -28,6 +29,9 @@ func (s *parser) parseStringLit() (expr Expr, err error) {
 
 func (s *parser) parseFloatTypes() (expr Expr, err error) {
 	s.lpos = s.t.Offset()
+	if s.isSignPlus() || s.isSignMinus() {
+		s.lpos = s.spos
+	}
 	val, err := strconv.ParseFloat(s.lit, 64)
 	if err != nil {
 		return nil, s.error()
@@ -40,16 +44,16 @@ func (s *parser) parseFloatTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			val = -val
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
-		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.t.Offset() - 1}
+		expr = &FloatTyp{Val: val, lpos: s.lpos, rpos: s.prev}
 	}
 	return
 }
 
 func (s *parser) parseIntTypes() (expr Expr, err error) {
 	s.lpos = s.t.Offset()
+	if s.isSignPlus() || s.isSignMinus() {
+		s.lpos = s.spos
+	}
 	intval, err := strconv.Atoi(s.lit)
 	if err != nil {
 		return nil, s.error()
@@ -62,30 +66,25 @@ func (s *parser) parseIntTypes() (expr Expr, err error) {
 		if s.isSignMinus() {
 			intval = -intval
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
-		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.t.Offset() - 1}
+		expr = &IntTyp{Val: intval, lpos: s.lpos, rpos: s.prev}
 	}
 	return
 }
 
 func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 	plit := s.lit
-	s.rpos = s.t.Offset() - 1
 	s.next()
+	s.rpos = Pos(s.t.last.end - 1)
 	var unit string
 	if s.except(SELECTOR) || s.lit == "%" {
 		unit = s.t.TokenText()
 	}
-	litlen := Pos(len(plit))
 	switch {
 	case isPercentUnit(unit):
 		if s.isSignMinus() {
 			s.err = errNegativeValue
 			return nil, s.error()
 		}
-		s.rpos += litlen + 1
 		expr = &PercentTyp{Val: v, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isPressureUnit(unit):
@@ -93,7 +92,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			v = -v
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
 		expr = &PressureTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isDistanceUnit(unit):
@@ -102,7 +100,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			return nil, s.error()
 		}
 		u := unitFromString(unit)
-		s.rpos += litlen + u.size()
 		expr = &DistanceTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isSpeedUnit(unit):
@@ -111,7 +108,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			return nil, s.error()
 		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
 		expr = &SpeedTyp{Val: v, U: u, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	case isTemperatureUnit(unit):
@@ -122,11 +118,7 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 		if s.isSignPlus() {
 			ts = Plus
 		}
-		if s.isSignPlus() || s.isSignMinus() {
-			s.lpos -= 1
-		}
 		u := unitFromString(s.lit)
-		s.rpos += litlen + u.size()
 		expr = &TemperatureTyp{Val: v, U: u, Vec: ts, lpos: s.lpos, rpos: s.rpos}
 		s.next()
 	default:
@@ -144,7 +136,6 @@ func (s *parser) parseAllTypes(v float64) (expr Expr, err error) {
 			if er != nil {
 				return nil, s.error()
 			}
-			s.rpos = s.lpos + Pos(len(plit+s.lit)-1)
 			expr = &DurationTyp{Val: dur, lpos: s.lpos, rpos: s.rpos}
 			s.next()
 		}
@@ -181,13 +172,14 @@ func (s *parser) parseDistance() (dist *DistanceTyp, err error) {
 }
 
 func (s *parser) parseBooleanLit() (expr Expr, err error) {
+	rpos := Pos(s.t.last.end - 1)
 	switch s.lit {
 	default:
 		return nil, s.error()
 	case "true", "up":
-		expr = &BooleanTyp{Val: true, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: true, lpos: s.t.Offset(), rpos: rpos}
 	case "false", "down":
-		expr = &BooleanTyp{Val: false, lpos: s.t.Offset()}
+		expr = &BooleanTyp{Val: false, lpos: s.t.Offset(), rpos: rpos}
 	}
 	s.next()
 	return
-- 
2.43.0


From f08f43439b59f939d5005ce746ef856691998452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 24/45] fix: source extents of composite expressions

---
 ast.go       |  9 +++------
 composite.go | 11 +++++------
 datetime.go  | 26 +++++++++++++++++++-------
 geometry.go  | 17 +++++++++--------
 parser.go    |  5 +++--
 5 files changed, 39 insertions(+), 29 deletions(-)

diff --git a/ast.go b/ast.go
index ede9e36..3daf1e7 100644
--- a/ast.go
+++ b/ast.go
@@ -261,9 +261,6 @@ func (e *Selector) calculateEnd(p Pos) {
 	if len(e.Props) > 0 {
 		e.rpos = e.Props[len(e.Props)-1].End()
 	} else {
-		if p > 0 {
-			p -= 1
-		}
 		e.rpos = p
 	}
 }
@@ -332,13 +329,13 @@ func (e *WeekdayTyp) isExpr()             {}
 func (e *MonthTyp) isExpr()               {}
 
 func (e *BinaryExpr) Pos() Pos             { return e.Left.Pos() }
-func (e *BinaryExpr) End() Pos             { return e.Right.Pos() }
+func (e *BinaryExpr) End() Pos             { return e.Right.End() }
 func (e *ParenExpr) Pos() Pos              { return e.lpos }
-func (e *ParenExpr) End() Pos              { return e.Expr.End() }
+func (e *ParenExpr) End() Pos              { return e.rpos }
 func (e *Selector) Pos() Pos               { return e.lpos }
 func (e *Selector) End() Pos               { return e.rpos }
 func (e *WildcardTyp) Pos() Pos            { return e.lpos }
-func (e *WildcardTyp) End() Pos            { return e.lpos + 1 }
+func (e *WildcardTyp) End() Pos            { return e.lpos }
 func (e *BooleanTyp) Pos() Pos             { return e.lpos }
 func (e *BooleanTyp) End() Pos             { return e.rpos }
 func (e *SpeedTyp) Pos() Pos               { return e.lpos }
diff --git a/composite.go b/composite.go
index 3ceb2ae..b5b978f 100644
--- a/composite.go
+++ b/composite.go
@@ -92,7 +92,6 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	if isRangeExpr {
 		return nil, s.error()
 	}
-	startPos := s.t.Offset()
 	high, err := s.parseUnaryExpr()
 	if err != nil {
 		return
@@ -103,8 +102,8 @@ func (s *parser) parseRangeExpr(low Expr) (expr Expr, err error) {
 	return &Range{
 		Low:  low,
 		High: high,
-		lpos: startPos,
-		rpos: s.t.Offset(),
+		lpos: low.Pos(),
+		rpos: high.End(),
 	}, nil
 }
 
@@ -115,7 +114,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 
 	if !s.except(LBRACE, COLON) {
 		selector.Wildcard = true
-		selector.calculateEnd(s.t.Offset())
+		selector.calculateEnd(s.prev)
 		return selector, nil
 	}
 
@@ -125,7 +124,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		selector.Wildcard = true
-		selector.calculateEnd(s.t.Offset())
+		selector.calculateEnd(s.prev)
 		return selector, nil
 	}
 
@@ -168,7 +167,7 @@ func (s *parser) parseSelectorExpr() (expr Expr, err error) {
 			return nil, err
 		}
 	}
-	selector.calculateEnd(s.t.Offset())
+	selector.calculateEnd(s.prev)
 	return selector, nil
 }
 
diff --git a/datetime.go b/datetime.go
index 8fc245e..61379fa 100644
--- a/datetime.go
+++ b/datetime.go
@@ -21,6 +21,7 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 	for {
 		var y, m, d int
 		s.next()
+		sp := s.t.Offset()
 		if s.except(EOF, RBRACK) {
 			if y == 0 {
 				s.err = fmt.Errorf("invalid date format: got date[], expected date[YYYY-MM-DD]")
@@ -81,8 +82,8 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 			Year:  y,
 			Month: m,
 			Day:   d,
-			lpos:  lpos,
-			rpos:  s.t.Offset(),
+			lpos:  sp,
+			rpos:  s.prev,
 		}
 		switch s.tok {
 		case COMMA:
@@ -108,6 +109,8 @@ func (s *parser) parseDateExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				date.lpos = lpos
+				date.rpos = s.t.Offset()
 				s.next()
 				return date, nil
 			case isArrayTyp():
@@ -144,6 +147,7 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 	for {
 		var h, m, c int
 		s.next()
+		sp := s.t.Offset()
 		if s.except(EOF, RBRACK) {
 			if h == 0 {
 				s.err = fmt.Errorf("invalid time format: got time[], expected time[HH:MM:SS]")
@@ -213,8 +217,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 			Hours:   h,
 			Minutes: m,
 			Seconds: c,
-			lpos:    lpos,
-			rpos:    s.t.Offset(),
+			lpos:    sp,
+			rpos:    s.prev,
 		}
 
 		if s.except(SELECTOR) {
@@ -223,8 +227,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 				return nil, s.error()
 			}
 			time_.U = unitFromString(s.lit)
-			time_.rpos = s.t.Offset() + time_.U.size()
 			s.next()
+			time_.rpos = s.prev
 		}
 
 		switch s.tok {
@@ -251,6 +255,8 @@ func (s *parser) parseTimeExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				time_.lpos = lpos
+				time_.rpos = s.t.Offset()
 				s.next()
 				return time_, nil
 			case isArrayTyp():
@@ -285,6 +291,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 	for {
 		var weekday int
 		s.next()
+		sp := s.t.Offset()
 		if s.except(EOF, RBRACK) {
 			if weekday == 0 {
 				s.err = fmt.Errorf("invalid weekday format: got weekday[], expected weekday[Mon]")
@@ -315,7 +322,7 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 			weekday = 6
 		}
 		s.next()
-		wd := &WeekdayTyp{Val: weekday, lpos: lpos, rpos: s.t.Offset()}
+		wd := &WeekdayTyp{Val: weekday, lpos: sp, rpos: s.prev}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -340,6 +347,8 @@ func (s *parser) parseWeekdayExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos = lpos
+				wd.rpos = s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
@@ -374,6 +383,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 	for {
 		var month int
 		s.next()
+		sp := s.t.Offset()
 		if s.except(EOF, RBRACK) {
 			if month == 0 {
 				s.err = fmt.Errorf("invalid month format: got month[], expected month[Jan]")
@@ -414,7 +424,7 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 			month = 12
 		}
 		s.next()
-		wd := &MonthTyp{Val: month, lpos: lpos, rpos: s.t.Offset()}
+		wd := &MonthTyp{Val: month, lpos: sp, rpos: s.prev}
 		switch s.tok {
 		case COMMA:
 			if rangeExpr != nil {
@@ -439,6 +449,8 @@ func (s *parser) parseMonthExpr() (expr Expr, err error) {
 		if s.except(RBRACK) {
 			switch {
 			default:
+				wd.lpos = lpos
+				wd.rpos = s.t.Offset()
 				s.next()
 				return wd, nil
 			case isArrayTyp():
diff --git a/geometry.go b/geometry.go
index 5c577fb..d70a7b5 100644
--- a/geometry.go
+++ b/geometry.go
@@ -4,6 +4,7 @@ import "strconv"
 
 func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	geotyp := s.tok
+	sp := s.t.Offset()
 	s.next()
 	if !s.except(LBRACK) {
 		return nil, s.error()
@@ -12,7 +13,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	multiobj := &GeometryMultiObjectTyp{
 		Kind: geotyp,
 		Val:  make([]Expr, 0),
-		lpos: s.t.Offset(),
+		lpos: sp,
 	}
 	for {
 		if !isGeometryToken(s.tok) {
@@ -49,7 +50,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 			s.next()
 		}
 	}
-	multiobj.rpos = s.t.Offset()
+	multiobj.rpos = s.prev
 	if len(multiobj.Val) == 0 {
 		return nil, s.error()
 	}
@@ -90,7 +91,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 			s.next()
 		}
 	}
-	collection.rpos = s.t.Offset()
+	collection.rpos = s.prev
 	if len(collection.Objects) == 0 {
 		return nil, s.error()
 	}
@@ -226,7 +227,7 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 	}
 	switch geomtyp {
 	case GEOMETRY_POINT:
-		point := &GeometryPointTyp{Val: aa, lpos: sp, rpos: s.t.Offset() - 1}
+		point := &GeometryPointTyp{Val: aa, lpos: sp, rpos: s.prev}
 		if !s.except(COLON) {
 			return point, nil
 		}
@@ -236,10 +237,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		point.Radius = radius
-		point.rpos = s.t.Offset()
+		point.rpos = s.prev
 		return point, nil
 	case GEOMETRY_LINE:
-		line := &GeometryLineTyp{Val: bb, lpos: sp, rpos: s.t.Offset() - 1}
+		line := &GeometryLineTyp{Val: bb, lpos: sp, rpos: s.prev}
 		if !s.except(COLON) {
 			return line, nil
 		}
@@ -249,10 +250,10 @@ func (s *parser) parseGeometryExpr() (expr Expr, err error) {
 			return nil, err
 		}
 		line.Margin = margin
-		line.rpos = s.t.Offset()
+		line.rpos = s.prev
 		return line, nil
 	case GEOMETRY_POLYGON:
-		return &GeometryPolygonTyp{Val: cc, lpos: sp, rpos: s.t.Offset() - 1}, nil
+		return &GeometryPolygonTyp{Val: cc, lpos: sp, rpos: s.prev}, nil
 	}
 	err = s.error()
 	return
diff --git a/parser.go b/parser.go
index 85bf8c0..b5518ff 100644
--- a/parser.go
+++ b/parser.go
@@ -34,7 +34,7 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 		return nil, s.error()
 	}
 	stmt = new(Trigger)
-	stmt.lpos = s.t.Offset()
+	stmt.lpos = s.lpos
 	if s.except(SET) {
 		if err = s.parseSet(stmt); err != nil {
 			return nil, err
@@ -59,7 +59,7 @@ func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
 			return nil, err
 		}
 	}
-	stmt.rpos = s.t.Offset()
+	stmt.rpos = s.prev
 	return stmt, nil
 }
 
@@ -196,6 +196,7 @@ func (s *parser) parse0() (stmt Statement, err error) {
 	s.next()
 	switch s.tok {
 	case TRIGGER, WHEN:
+		s.lpos = s.t.Offset()
 		if s.except(TRIGGER) {
 			s.next()
 		}
-- 
2.43.0


From 3c4ae2303fcd27b38fbaa1d2c37a8bbeedcf43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:14 +0000
Subject: [PATCH 25/45] fix: require the closing bracket of a geometry list

---
 geometry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry.go b/geometry.go
index d70a7b5..22eb366 100644
--- a/geometry.go
+++ b/geometry.go
@@ -17,7 +17,7 @@ func (s *parser) parseGeometryMultiObject() (expr Expr, err error) {
 	}
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		object, oer := s.parseGeometryExpr()
 		if oer != nil {
@@ -69,7 +69,7 @@ func (s *parser) parseGeometryCollectionExpr() (expr Expr, err error) {
 	s.next()
 	for {
 		if !isGeometryToken(s.tok) {
-			break
+			return nil, s.error()
 		}
 		var object Expr
 		var oer error
-- 
2.43.0


From ff070250480f800e30970027b986c142e2abbb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 26/45] fix: format integral floats as floats

---
 format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format.go b/format.go
index eda8dca..fef72ca 100644
--- a/format.go
+++ b/format.go
@@ -3,6 +3,7 @@ package geoqlparser
 import (
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -242,6 +243,9 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 	formatFloat(w, e.Val)
+	if e.Val == math.Trunc(e.Val) {
+		checkError(w.WriteString(".0"))
+	}
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From 7171f88bae66de293b1420b515207a510a88f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 27/45] fix: keep the calendar type of a single date, time,
 weekday or month in WHEN

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index fef72ca..1d5b92f 100644
--- a/format.go
+++ b/format.go
@@ -51,7 +51,7 @@ func formatTriggerStmt(t *Trigger, w io.StringWriter) (err error) {
 	}
 
 	checkError(w.WriteString("WHEN\n" + padding))
-	t.When.format(w, padding, true)
+	t.When.format(w, padding, false)
 	writeNewLine(w)
 
 	if t.RepeatCount != nil || t.RepeatInterval != nil {
-- 
2.43.0


From 7711c82d1715fb905e78ea9335b775d5eb701e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 28/45] fix: format ranges between two different calendar types

---
 format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format.go b/format.go
index 1d5b92f..1eb4dae 100644
--- a/format.go
+++ b/format.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"math"
+	"reflect"
 	"strconv"
 )
 
@@ -207,6 +208,12 @@ func (e *GeometryCollectionTyp) format(w io.StringWriter, padding string, inline
 }
 
 func (e *Range) format(w io.StringWriter, padding string, inline bool) {
+	if reflect.TypeOf(e.Low) != reflect.TypeOf(e.High) {
+		e.Low.format(w, padding, false)
+		checkError(w.WriteString(" .. "))
+		e.High.format(w, padding, false)
+		return
+	}
 	switch e.Low.(type) {
 	case *TimeTyp:
 		checkError(w.WriteString("time["))
-- 
2.43.0


From fa27e4ee75651518cf94dbf689d08e482894b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 29/45] fix: put spaces around the rem operator

---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 1eb4dae..30ec03f 100644
--- a/format.go
+++ b/format.go
@@ -377,7 +377,7 @@ func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	switch e.Op {
 	case AND, OR:
 		nl = true
-	case ADD, SUB, MUL, QUO, REM:
+	case ADD, SUB, MUL, QUO:
 		nospace = true
 	}
 	if !nospace {
-- 
2.43.0


From a28111bf83e6f33702d473e28e0bb4e264220aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 30/45] fix: format selector arguments in a fixed order

---
 ast.go    | 11 +----------
 format.go |  6 ++++++
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/ast.go b/ast.go
index 3daf1e7..48e1939 100644
--- a/ast.go
+++ b/ast.go
@@ -267,19 +267,10 @@ func (e *Selector) calculateEnd(p Pos) {
 
 func (e *Selector) needExpand() (ok bool) {
 	var n int
-	var i int
 	for k := range e.Args {
 		n += len(k)
-		if n > 64 {
-			ok = true
-			break
-		}
-		if i > 3 {
-			break
-		}
-		i++
 	}
-	return
+	return n > 64
 }
 
 type BooleanTyp struct {
diff --git a/format.go b/format.go
index 30ec03f..8faa1f3 100644
--- a/format.go
+++ b/format.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"math"
 	"reflect"
+	"sort"
 	"strconv"
 )
 
@@ -304,7 +305,12 @@ func (e *Selector) format(b io.StringWriter, padding string, inline bool) {
 				checkError(b.WriteString(", "))
 			}
 		}
+		args := make([]string, 0, len(e.Args))
 		for k := range e.Args {
+			args = append(args, k)
+		}
+		sort.Strings(args)
+		for _, k := range args {
 			if !inline && expand {
 				checkError(b.WriteString("\n" + pad2))
 			}
-- 
2.43.0


From 64f2eb6dbd39aea577119780b624846023e0fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 31/45] fix: format fractions of a second as decimal seconds

---
 format.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 8faa1f3..83c01b3 100644
--- a/format.go
+++ b/format.go
@@ -7,6 +7,8 @@ import (
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"time"
 )
 
 const (
@@ -257,7 +259,14 @@ func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 }
 
 func (e *DurationTyp) format(b io.StringWriter, _ string, _ bool) {
-	checkError(b.WriteString(e.Val.String()))
+	if e.Val%time.Second == 0 {
+		checkError(b.WriteString(e.Val.String()))
+		return
+	}
+	// String prints units and fractions that are not tokens: 5ns, 1m0.5s
+	sec, frac := e.Val/time.Second, e.Val%time.Second
+	text := strings.TrimRight(fmt.Sprintf("%d.%09d", sec, frac), "0")
+	checkError(b.WriteString(text + "s"))
 }
 
 func (e *TemperatureTyp) format(w io.StringWriter, _ string, _ bool) {
-- 
2.43.0


From fd00334783cc66c8cd497133e6d8d8bec0da6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 32/45] fix: report write errors of boolean literals

---
 ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast.go b/ast.go
index 48e1939..c09a3fa 100644
--- a/ast.go
+++ b/ast.go
@@ -282,9 +282,9 @@ type BooleanTyp struct {
 func (e *BooleanTyp) format(b io.StringWriter, padding string, inline bool) {
 	switch e.Val {
 	case true:
-		b.WriteString("true")
+		checkError(b.WriteString("true"))
 	case false:
-		b.WriteString("false")
+		checkError(b.WriteString("false"))
 	}
 	return
 }
-- 
2.43.0


From 19400d5c52ddd522d966b083cafd75bc89813456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 33/45] fix: format values beyond the integer range so that
 they can be parsed

---
 format.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 83c01b3..e0206af 100644
--- a/format.go
+++ b/format.go
@@ -81,6 +81,9 @@ func (t *Trigger) format(_ io.StringWriter, _ string, _ bool) {}
 
 func formatFloat(w io.StringWriter, v float64) {
 	checkError(w.WriteString(strconv.FormatFloat(v, 'f', -1, 64)))
+	if math.Abs(v) >= 1<<63 {
+		checkError(w.WriteString(".0")) // too large for an integer literal
+	}
 }
 
 func (e *GeometryMultiObjectTyp) format(w io.StringWriter, padding string, inline bool) {
@@ -253,7 +256,7 @@ func (e *StringTyp) format(w io.StringWriter, _ string, _ bool) {
 
 func (e *FloatTyp) format(w io.StringWriter, _ string, _ bool) {
 	formatFloat(w, e.Val)
-	if e.Val == math.Trunc(e.Val) {
+	if e.Val == math.Trunc(e.Val) && math.Abs(e.Val) < 1<<63 {
 		checkError(w.WriteString(".0"))
 	}
 }
-- 
2.43.0


From 32cc4ae0fd75825b620ceff32bae9d5104b73888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 34/45] fix: a polygon is a geometry

---
 typecheck.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index 128a260..9f50aba 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -446,7 +446,7 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 func (tc *checker) isGeometry(in Expr) (ok bool) {
 	switch typ := in.(type) {
 	case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-		*GeometryMultiObjectTyp:
+		*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 		ok = true
 	case *Ref:
 		assign, err := tc.trigger.findAssign(typ.ID)
@@ -455,7 +455,7 @@ func (tc *checker) isGeometry(in Expr) (ok bool) {
 		}
 		switch assign.Right.(type) {
 		case *GeometryCollectionTyp, *GeometryLineTyp, *GeometryPointTyp,
-			*GeometryMultiObjectTyp:
+			*GeometryPolygonTyp, *GeometryMultiObjectTyp:
 			ok = true
 		}
 	}
-- 
2.43.0


From 623f4c50f8fe14aae61bf7149d1ec3eb7917f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 35/45] fix: accept selectors declared as integer arrays

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 9f50aba..304372d 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -481,6 +481,9 @@ func (tc *checker) isInt(in Expr) (ok bool) {
 		if err != nil {
 			return
 		}
+		if array, isArray := selector.(*ArrayTyp); isArray {
+			selector = array.List[0]
+		}
 		switch selector.(type) {
 		case *IntTyp:
 			ok = true
-- 
2.43.0


From 10847f18370c74efa570cdc663f13c3993e882e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 36/45] fix: check the type of the upper bound of a range

---
 typecheck.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typecheck.go b/typecheck.go
index 304372d..f6a1a4f 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -391,6 +391,9 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 	if !ok {
 		return
 	}
+	if !tc.isNumber(range_.High) {
+		return false
+	}
 	switch typ {
 	case INT:
 		return tc.isInt(range_.Low)
-- 
2.43.0


From 42db43a8fcb664d66f493bc6358d002712c81791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 37/45] fix: check the types of all elements of an array

---
 typecheck.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/typecheck.go b/typecheck.go
index f6a1a4f..f2d262f 100644
--- a/typecheck.go
+++ b/typecheck.go
@@ -406,17 +406,14 @@ func (tc *checker) isRange(in Expr, typ Token) (ok bool) {
 }
 
 func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
-	var item Expr
+	var items []Expr
 	switch t := in.(type) {
 	default:
 		return
 	case *Selector:
-		item = t
+		items = []Expr{t}
 	case *ArrayTyp:
-		if len(t.List) == 0 {
-			return
-		}
-		item = t.List[0]
+		items = t.List
 	case *Ref:
 		assign, err := tc.trigger.findAssign(t.ID)
 		if err != nil {
@@ -426,22 +423,24 @@ func (tc *checker) isArray(in Expr, typ Token) (ok bool) {
 		default:
 			return
 		case *ArrayTyp:
-			if len(tt.List) == 0 {
-				return
-			}
-			item = tt.List[0]
+			items = tt.List
 		}
 	}
 
-	switch typ {
-	case BOOLEAN:
-		return tc.isBoolean(item)
-	case INT:
-		return tc.isInt(item)
-	case FLOAT:
-		return tc.isFloat(item)
-	case STRING:
-		return tc.isString(item)
+	for _, item := range items {
+		switch typ {
+		case BOOLEAN:
+			ok = tc.isBoolean(item)
+		case INT:
+			ok = tc.isInt(item)
+		case FLOAT:
+			ok = tc.isFloat(item)
+		case STRING:
+			ok = tc.isString(item)
+		}
+		if !ok {
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From 8af505f2cc5a4cbbdfe1ace4629770351e0033ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 38/45] fix: walk the children with the visitor that Visit
 returned

---
 walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/walk.go b/walk.go
index bfbde08..71ff5fd 100644
--- a/walk.go
+++ b/walk.go
@@ -5,7 +5,7 @@ type Visitor interface {
 }
 
 func Walk(v Visitor, expr Expr) {
-	if v.Visit(expr) == nil {
+	if v = v.Visit(expr); v == nil {
 		return
 	}
 	switch typ := expr.(type) {
-- 
2.43.0


From 0a118389fd6fe2aa0d8d2303b383a92288762ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 39/45] fix: do not walk absent REPEAT and RESET clauses

---
 walk.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/walk.go b/walk.go
index 71ff5fd..eb5038b 100644
--- a/walk.go
+++ b/walk.go
@@ -37,9 +37,15 @@ func Walk(v Visitor, expr Expr) {
 			}
 		}
 		Walk(v, typ.When)
-		Walk(v, typ.RepeatCount)
-		Walk(v, typ.RepeatInterval)
-		Walk(v, typ.ResetAfter)
+		if typ.RepeatCount != nil {
+			Walk(v, typ.RepeatCount)
+		}
+		if typ.RepeatInterval != nil {
+			Walk(v, typ.RepeatInterval)
+		}
+		if typ.ResetAfter != nil {
+			Walk(v, typ.ResetAfter)
+		}
 	}
 	v.Visit(nil)
 }
-- 
2.43.0


From 67fbbd314ea74b162f5475650865ef7aca82fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:03 +0000
Subject: [PATCH 40/45] fix: walk the parts of geometry objects

---
 walk.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/walk.go b/walk.go
index eb5038b..4aebceb 100644
--- a/walk.go
+++ b/walk.go
@@ -27,6 +27,22 @@ func Walk(v Visitor, expr Expr) {
 		for i := 0; i < len(typ.List); i++ {
 			Walk(v, typ.List[i])
 		}
+	case *GeometryPointTyp:
+		if typ.Radius != nil {
+			Walk(v, typ.Radius)
+		}
+	case *GeometryLineTyp:
+		if typ.Margin != nil {
+			Walk(v, typ.Margin)
+		}
+	case *GeometryMultiObjectTyp:
+		for i := 0; i < len(typ.Val); i++ {
+			Walk(v, typ.Val[i])
+		}
+	case *GeometryCollectionTyp:
+		for i := 0; i < len(typ.Objects); i++ {
+			Walk(v, typ.Objects[i])
+		}
 	case *Assign:
 		Walk(v, typ.Left)
 		Walk(v, typ.Right)
-- 
2.43.0


From 03c67c466edf3f4ba03724affbe49872449e8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 41/45] fix: limit the nesting of expressions

A million open parentheses overflowed the stack, which ends the process.
---
 parser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b5518ff..196b4aa 100644
--- a/parser.go
+++ b/parser.go
@@ -7,7 +7,13 @@ import (
 	"strings"
 )
 
-var errNegativeValue = errors.New("value cannot be negative")
+var (
+	errNegativeValue = errors.New("value cannot be negative")
+	errNesting       = errors.New("expression nested too deeply")
+)
+
+// maxDepth bounds the recursion of the parser.
+const maxDepth = 10000
 
 func Parse(gql string) (Statement, error) {
 	r := strings.NewReader(gql)
@@ -27,6 +33,8 @@ type parser struct {
 	rpos Pos
 	prev Pos // last byte of the token before tok
 	spos Pos // first byte of sign
+
+	depth int // open calls of parseUnaryExpr
 }
 
 func (s *parser) parseTriggerStmt() (stmt *Trigger, err error) {
@@ -258,6 +266,13 @@ func (s *parser) parseUnaryExpr() (expr Expr, err error) {
 		return nil, s.error()
 	}
 
+	s.depth++
+	defer func() { s.depth-- }()
+	if s.depth > maxDepth {
+		s.err = errNesting
+		return nil, s.error()
+	}
+
 	s.next()
 
 	if s.except(SUB, ADD) {
-- 
2.43.0


From 4e1cf1a2ab414aa988ac9267b12e92d84058be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:46 +0000
Subject: [PATCH 42/45] fix: accept decimal durations as REPEAT interval, as
 RESET does

Format prints an interval of 1500ms as 1.5s.
---
 parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 196b4aa..c6d3e91 100644
--- a/parser.go
+++ b/parser.go
@@ -110,7 +110,13 @@ func (s *parser) parseRepeat(stmt *Trigger) (err error) {
 		return s.error()
 	}
 	s.next()
-	dur, err := s.parseIntTypes()
+	var dur Expr
+	switch s.tok {
+	case INT:
+		dur, err = s.parseIntTypes()
+	case FLOAT:
+		dur, err = s.parseFloatTypes()
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 886dbd243ca144c0628f49ee77959bd9e063d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 43/45] fix: do not double the indentation with every
 parenthesis

Formatting 40 nested parentheses needed terabytes.
---
 format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format.go b/format.go
index e0206af..00daca0 100644
--- a/format.go
+++ b/format.go
@@ -421,7 +421,7 @@ func (e *ParenExpr) format(w io.StringWriter, padding string, inline bool) {
 			expand = false
 		}
 	}
-	pad2 := padding + padding
+	pad2 := padding + "\t"
 	checkError(w.WriteString("("))
 	if expand {
 		checkError(w.WriteString("\n" + pad2))
-- 
2.43.0


From 4ae2b5c613b671ee6247b484e0e296a6d03d69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:25 +0000
Subject: [PATCH 44/45] fix: set the scanner mode after Init, which resets it

NewTokenizer asked for identifiers, numbers and strings only, but Init
replaced the mode by GoTokens. Text after // and between /* and */ was
dropped without notice, and "a / *", which Format prints as "a/*", did
not parse again.
---
 token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token.go b/token.go
index 28e4710..e398f61 100644
--- a/token.go
+++ b/token.go
@@ -30,8 +30,8 @@ type Tokenizer struct {
 
 func NewTokenizer(r io.Reader) *Tokenizer {
 	s := &Tokenizer{s: scanner.Scanner{}}
-	s.s.Mode = scanner.ScanIdents | scanner.ScanFloats | scanner.ScanStrings
 	s.s.Init(r)
+	s.s.Mode = scanner.ScanIdents | scanner.ScanFloats | scanner.ScanStrings
 	s.s.Error = func(_ *scanner.Scanner, msg string) {
 		s.err = errors.New(msg)
 	}
-- 
2.43.0


From 09d23fe1abd0f6c0efd875626ca7e41e0c158249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 45/45] fix: separate array elements after selector properties
 by a colon

[a:1 : b] was written as [a:1, b], where b is a property of a.
---
 format.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/format.go b/format.go
index 00daca0..82d88c2 100644
--- a/format.go
+++ b/format.go
@@ -381,12 +381,29 @@ func (e *ArrayTyp) format(b io.StringWriter, padding string, inline bool) {
 	for i, expr := range e.List {
 		expr.format(b, padding, inline)
 		if i+1 < len(e.List) {
-			checkError(b.WriteString(", "))
+			if endsInProps(expr) {
+				// a comma would continue the properties
+				checkError(b.WriteString(" : "))
+			} else {
+				checkError(b.WriteString(", "))
+			}
 		}
 	}
 	checkError(b.WriteString("]"))
 }
 
+// endsInProps tells whether the last token of expr belongs to the properties
+// of a selector.
+func endsInProps(expr Expr) bool {
+	switch e := expr.(type) {
+	case *Selector:
+		return len(e.Props) > 0
+	case *Range:
+		return endsInProps(e.High)
+	}
+	return false
+}
+
 func (e *BinaryExpr) format(w io.StringWriter, padding string, inline bool) {
 	e.Left.format(w, padding, inline)
 	var nospace bool
-- 
2.43.0

