From 1b0baa63a431f68ae1fa712f27a3d03c7bf991a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 01/45] fix: treat U+FFFD as an ordinary character when
 checking boundaries

---
 internal/stdx/stdx.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/stdx/stdx.go b/internal/stdx/stdx.go
index cb44739..996cda9 100644
--- a/internal/stdx/stdx.go
+++ b/internal/stdx/stdx.go
@@ -22,8 +22,7 @@ func IsCharBoundary(str string, index uint) bool {
 	if index == 0 || index == uint(len(str)) {
 		return true
 	}
-	c, _ := utf8.DecodeRuneInString(str[index:])
-	return c != utf8.RuneError
+	return index < uint(len(str)) && utf8.RuneStart(str[index])
 }
 
 // IsWhitespace reports whether the given character has the White_Space
-- 
2.43.0


From 4544c0ade3ebc7f371a83ae3cc5727cf9de99d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 02/45] fix: consume a single character in conditional scanner
 eats

---
 internal/scanner/scanner.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index 10447c0..aa86eb4 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -227,28 +227,21 @@ func (s *Scanner) EatIf(pattern string) bool {
 	return true
 }
 
-// EatIfFunc consumes the given pattern (a sequence of characters that satisfy
-// cond) if that's what's right after the cursor.
+// EatIfFunc consumes the given pattern (a character that satisfies cond) if
+// that's what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfFunc(cond func(rune) bool) bool {
-	after := s.After()
-	n := 0
-	for _, c := range after {
-		if !cond(c) {
-			break
-		}
-		n += utf8.RuneLen(c)
-	}
-	if n == 0 {
+	c, ok := s.Peek()
+	if !ok || !cond(c) {
 		return false
 	}
-	s.cursor += uint(n)
+	s.cursor += uint(utf8.RuneLen(c))
 	return true
 }
 
-// EatIfAny consumes the given pattern (a sequence of any of the given
-// characters) if that's what's right after the cursor.
+// EatIfAny consumes the given pattern (any of the given characters) if that's
+// what's right after the cursor.
 //
 // Returns true if the pattern was consumed.
 func (s *Scanner) EatIfAny(valid []rune) bool {
-- 
2.43.0


From 41fe86413982f83f2aacb393eb2895300b694401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 03/45] fix: return the kind of math identifier and field
 access tokens

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 3dd18f8..ff4002f 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -133,7 +133,7 @@ func (lexer *Lexer) next() (SyntaxKind, *SyntaxNode) {
 			case SyntaxModeMath:
 				k, n := lexer.math(start, c)
 				if node, ok := n.Get(); ok {
-					return kind, node
+					return k, node
 				} else {
 					kind = k
 				}
-- 
2.43.0


From f801719d1474a7db94a8388b69cbd6bd8c026022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 04/45] fix: lex a lone hyphen in code as a minus token

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index ff4002f..a3facbe 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -942,7 +942,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return SyntaxKindGtEq
 	case c == '+' && lexer.s.EatIf("="):
 		return SyntaxKindPlusEq
-	case c == '-' || c == '\u2212' && lexer.s.EatIf("="):
+	case (c == '-' || c == '\u2212') && lexer.s.EatIf("="):
 		return SyntaxKindHyphEq
 	case c == '*' && lexer.s.EatIf("="):
 		return SyntaxKindStarEq
-- 
2.43.0


From d80366646f65706b06f84564c3f5fa7871a2ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 05/45] fix: show the invalid character instead of its code
 point

---
 typst/syntax/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index a3facbe..f3e76b1 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -994,7 +994,7 @@ func (lexer *Lexer) code(start uint, c rune) SyntaxKind {
 		return lexer.ident(start)
 
 	default:
-		return lexer.error(fmt.Sprintf("the character `%v` is not valid in code", c))
+		return lexer.error(fmt.Sprintf("the character `%c` is not valid in code", c))
 	}
 }
 
-- 
2.43.0


From 774716e707fff6f6b6c7336e1f2a95acd9a2f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 06/45] fix: accept a trailing decimal point at the end of the
 source

---
 typst/syntax/lexer.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index f3e76b1..2ce2a9b 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1044,13 +1044,10 @@ func (lexer *Lexer) number(start uint, first_c rune) SyntaxKind {
 		if first_c == '.' {
 			is_float = true // We already ate the trailing digits above.
 		} else if !lexer.s.At("..") {
-			if c, ok := lexer.s.Scout(1); ok {
-				if !is_id_start(c) {
-					if lexer.s.EatIf(".") {
-						is_float = true
-						lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
-					}
-				}
+			c, ok := lexer.s.Scout(1)
+			if (!ok || !is_id_start(c)) && lexer.s.EatIf(".") {
+				is_float = true
+				lexer.s.EatWhileFunc(stdx.IsAsciiDigit)
 			}
 		}
 
-- 
2.43.0


From 9de7b5e5f5eb1f8281a1578bc07294c5dccb66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 07/45] fix: combine both operands in syntax set unions

---
 typst/syntax/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/set.go b/typst/syntax/set.go
index 0e9bf7b..b2a2f5c 100644
--- a/typst/syntax/set.go
+++ b/typst/syntax/set.go
@@ -34,7 +34,7 @@ func (set *SyntaxSet) Add(kind SyntaxKind) *SyntaxSet {
 // The original set is not modified.
 func (set *SyntaxSet) Union(other *SyntaxSet) *SyntaxSet {
 	clone := set.Clone()
-	clone.b.Union(other.b)
+	clone.b.InPlaceUnion(other.b)
 	return clone
 }
 
-- 
2.43.0


From e98697723a0b77ba914854e0175345eabc1b4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 08/45] fix: accept float literals that overflow to infinity

---
 typst/syntax/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/lexer.go b/typst/syntax/lexer.go
index 2ce2a9b..73132f6 100644
--- a/typst/syntax/lexer.go
+++ b/typst/syntax/lexer.go
@@ -1435,7 +1435,8 @@ func GraphemeLen(str string) (int, bool) {
 
 func valid_float(str string) bool {
 	_, err := strconv.ParseFloat(str, 64)
-	return err == nil
+	// A literal that overflows denotes infinity.
+	return err == nil || errors.Is(err, strconv.ErrRange)
 }
 
 func valid_uint(str string) bool {
-- 
2.43.0


From 208e1441a4d6fd3b4f4c4e849d1dd7ea1dabc998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:42 +0000
Subject: [PATCH 09/45] fix: keep the source text intact when extracting it
 from an inner node

---
 typst/syntax/node.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 97edac2..be06ccf 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -162,10 +162,7 @@ func (node *SyntaxNode) into_text() string {
 		return repr.Text
 	case *InnerNode:
 		buf := &strings.Builder{}
-		for i, child := range repr.Children {
-			if i != 0 {
-				buf.WriteString(" ")
-			}
+		for _, child := range repr.Children {
 			buf.WriteString(child.into_text())
 		}
 		return buf.String()
-- 
2.43.0


From 5c6ce6c502a4341bb450f530239a90dc93821285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 10/45] fix: consider the retained children when recomputing
 the error flag

---
 typst/syntax/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index be06ccf..57dce84 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -655,12 +655,12 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 		}
 	}
 	if node.Erroneous {
-		for _, c := range node.Children[:replacement_range.Start] {
+		for _, c := range node.Children[:_range.Start] {
 			if c.erroneous() {
 				erroneous = true
 			}
 		}
-		for _, c := range node.Children[replacement_range.End:] {
+		for _, c := range node.Children[_range.End:] {
 			if c.erroneous() {
 				erroneous = true
 			}
-- 
2.43.0


From fb73b8bb6b87626809f1af899f01ff4dd38183a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 11/45] fix: apply incremental reparses that succeed and reject
 those that fail

---
 typst/syntax/node.go     |  8 +++++---
 typst/syntax/reparser.go | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index 57dce84..ade0ec1 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -328,7 +328,7 @@ func (node *SyntaxNode) numberize(id FileID, within ranges.Range) error {
 	case *LeafNode:
 		repr.Span = mid
 	case *InnerNode:
-		repr.numberize(id, option.None[ranges.Range](), within)
+		return repr.numberize(id, option.None[ranges.Range](), within)
 	case *ErrorNode:
 		repr.Error.Span = mid
 	}
@@ -568,7 +568,9 @@ func (node *InnerNode) numberize(id FileID, _range option.Option[ranges.Range],
 	}
 	for _, child := range node.Children[_range_start:_range_end] {
 		end := start + uint64(child.descendants())*stride
-		child.numberize(id, ranges.NewRange(start, end))
+		if err := child.numberize(id, ranges.NewRange(start, end)); err != nil {
+			return err
+		}
 		start = end
 	}
 
@@ -713,7 +715,7 @@ func (node *InnerNode) replace_children(_range ranges.Range, replacement []*Synt
 
 		// Try to renumber.
 		within := ranges.NewRange(start_number, end_number)
-		if node.numberize(id, option.Some(renumber), within) != nil {
+		if node.numberize(id, option.Some(renumber), within) == nil {
 			return nil
 		}
 
diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 1fce5d7..83c2c74 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -81,8 +81,9 @@ func try_reparse(
 			if child.kind().IsBlock() {
 				if newborn, ok := reparse_block(text, new_range).Get(); ok {
 					if err := node.replace_children(ranges.NewRange(uint64(i), uint64(i+1)), []*SyntaxNode{newborn}); err != nil {
-						return option.Some(new_range)
+						return option.None[ranges.Range]()
 					}
+					return option.Some(new_range)
 				}
 			}
 		}
@@ -111,7 +112,7 @@ func try_reparse(
 	if node.kind() != SyntaxKindMarkup {
 		return option.None[ranges.Range]()
 	}
-	if kind, ok := parent_kind.Get(); !ok || ok && kind == SyntaxKindContentBlock {
+	if kind, ok := parent_kind.Get(); ok && kind != SyntaxKindContentBlock {
 		return option.None[ranges.Range]()
 	}
 
@@ -180,9 +181,10 @@ func try_reparse(
 			// Similarly, if we children follow or we not top-level the nesting
 			// must match its previous value.
 			if (at_end || at_start == prev_at_start_after) && ((at_end && !parent_kind.IsPresent()) || nesting == prev_nesting_after) {
-				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err == nil {
-					return option.Some(new_range)
+				if err := node.replace_children(ranges.NewRange(uint64(start), uint64(end)), newborns); err != nil {
+					return option.None[ranges.Range]()
 				}
+				return option.Some(new_range)
 			}
 		}
 
-- 
2.43.0


From 1aeb8482e70c36f0c7266a5119189f78b69fb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 12/45] fix: start reversed children at their own offset

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index ade0ec1..a19b93b 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -1199,8 +1199,8 @@ func (l *LinkedChildren) RevChildren() iter.Seq2[int, *LinkedNode] {
 	return func(yield func(int, *LinkedNode) bool) {
 		for index := len(l._children) - 1; index >= 0; index-- {
 			child := l._children[index]
-			offset := l.back
 			l.back -= child.len()
+			offset := l.back
 			link := &LinkedNode{
 				node:   child,
 				parent: option.Some(l.parent.clone()),
-- 
2.43.0


From 1f59f6799951b4edf9aca34710d766205f819ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 13/45] fix: keep referring to the same syntax node when
 cloning a linked node

---
 typst/syntax/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/node.go b/typst/syntax/node.go
index a19b93b..318e686 100644
--- a/typst/syntax/node.go
+++ b/typst/syntax/node.go
@@ -939,7 +939,7 @@ func (link *LinkedNode) find(span Span) (*LinkedNode, bool) {
 
 func (link *LinkedNode) clone() *LinkedNode {
 	return &LinkedNode{
-		node:   link.node.clone(),
+		node:   link.node,
 		parent: link.parent.Clone(), // TODO: implement deep clone?
 		index:  link.index,
 		offset: link.offset,
-- 
2.43.0


From 0b28fa947c7efc86e0c18a72f975c55e08e2aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 14/45] fix: cast syntax nodes without calling methods on nil
 values

---
 typst/syntax/ast.go      |  11 +--
 typst/syntax/ast_node.go | 182 +++++++++++++++++++--------------------
 2 files changed, 94 insertions(+), 99 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index a821d67..ca6f61a 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -123,18 +123,13 @@ func SyntaxNode_is[T AstNode](node *SyntaxNode) bool {
 //
 // cast
 func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
-	var zero T
-	//if _, ok := zero.(Expr); ok {
-	//	return Expr_from_untyped(node)
-	//}
-	// HACK: unable to use type assertion with type parameter, so using string
-	// representation hack instead :)
-	type_name := fmt.Sprintf("%T", new(T))
-	if type_name == "*syntax.Expr" {
+	if _, ok := any((*T)(nil)).(*Expr); ok {
 		if expr, ok := Expr_from_untyped(node).Get(); ok {
 			return option.Some[T](expr.(T))
 		}
+		return option.None[T]()
 	}
+	var zero T
 	if _n, ok := zero.from_untyped(node).Get(); ok {
 		n := _n.(T)
 		return option.Some[T](n)
diff --git a/typst/syntax/ast_node.go b/typst/syntax/ast_node.go
index 7ba62b2..5e30d08 100644
--- a/typst/syntax/ast_node.go
+++ b/typst/syntax/ast_node.go
@@ -19,7 +19,7 @@ import "github.com/mewmew/typast/internal/option"
 // --- [ Markup ] --------------------------------------------------------------
 
 // from_untyped
-func (Markup) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Markup) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMarkup {
 		return option.Some[AstNode](&Markup{SyntaxNode: node})
 	} else {
@@ -39,7 +39,7 @@ func Markup_default() *Markup {
 // --- [ Text ] ----------------------------------------------------------------
 
 // from_untyped
-func (Text) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Text) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindText {
 		return option.Some[AstNode](&Text{SyntaxNode: node})
 	} else {
@@ -59,7 +59,7 @@ func Text_default() *Text {
 // --- [ Space ] ---------------------------------------------------------------
 
 // from_untyped
-func (Space) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Space) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpace {
 		return option.Some[AstNode](&Space{SyntaxNode: node})
 	} else {
@@ -79,7 +79,7 @@ func Space_default() *Space {
 // --- [ Linebreak ] -----------------------------------------------------------
 
 // from_untyped
-func (Linebreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Linebreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLinebreak {
 		return option.Some[AstNode](&Linebreak{SyntaxNode: node})
 	} else {
@@ -99,7 +99,7 @@ func Linebreak_default() *Linebreak {
 // --- [ Parbreak ] ------------------------------------------------------------
 
 // from_untyped
-func (Parbreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Parbreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParbreak {
 		return option.Some[AstNode](&Parbreak{SyntaxNode: node})
 	} else {
@@ -119,7 +119,7 @@ func Parbreak_default() *Parbreak {
 // --- [ Escape ] --------------------------------------------------------------
 
 // from_untyped
-func (Escape) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Escape) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEscape {
 		return option.Some[AstNode](&Escape{SyntaxNode: node})
 	} else {
@@ -139,7 +139,7 @@ func Escape_default() *Escape {
 // --- [ Shorthand ] -----------------------------------------------------------
 
 // from_untyped
-func (Shorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Shorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindShorthand {
 		return option.Some[AstNode](&Shorthand{SyntaxNode: node})
 	} else {
@@ -159,7 +159,7 @@ func Shorthand_default() *Shorthand {
 // --- [ SmartQuote ] ----------------------------------------------------------
 
 // from_untyped
-func (SmartQuote) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*SmartQuote) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSmartQuote {
 		return option.Some[AstNode](&SmartQuote{SyntaxNode: node})
 	} else {
@@ -179,7 +179,7 @@ func SmartQuote_default() *SmartQuote {
 // --- [ Strong ] --------------------------------------------------------------
 
 // from_untyped
-func (Strong) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Strong) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindStrong {
 		return option.Some[AstNode](&Strong{SyntaxNode: node})
 	} else {
@@ -199,7 +199,7 @@ func Strong_default() *Strong {
 // --- [ Emph ] ----------------------------------------------------------------
 
 // from_untyped
-func (Emph) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Emph) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEmph {
 		return option.Some[AstNode](&Emph{SyntaxNode: node})
 	} else {
@@ -219,7 +219,7 @@ func Emph_default() *Emph {
 // --- [ Raw ] -----------------------------------------------------------------
 
 // from_untyped
-func (Raw) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Raw) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRaw {
 		return option.Some[AstNode](&Raw{SyntaxNode: node})
 	} else {
@@ -239,7 +239,7 @@ func Raw_default() *Raw {
 // --- [ RawLang ] -------------------------------------------------------------
 
 // from_untyped
-func (RawLang) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RawLang) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRawLang {
 		return option.Some[AstNode](&RawLang{SyntaxNode: node})
 	} else {
@@ -259,7 +259,7 @@ func RawLang_default() *RawLang {
 // --- [ RawDelim ] ------------------------------------------------------------
 
 // from_untyped
-func (RawDelim) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RawDelim) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRawDelim {
 		return option.Some[AstNode](&RawDelim{SyntaxNode: node})
 	} else {
@@ -279,7 +279,7 @@ func RawDelim_default() *RawDelim {
 // --- [ Link ] ----------------------------------------------------------------
 
 // from_untyped
-func (Link) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Link) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLink {
 		return option.Some[AstNode](&Link{SyntaxNode: node})
 	} else {
@@ -299,7 +299,7 @@ func Link_default() *Link {
 // --- [ Label ] ---------------------------------------------------------------
 
 // from_untyped
-func (Label) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Label) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLabel {
 		return option.Some[AstNode](&Label{SyntaxNode: node})
 	} else {
@@ -319,7 +319,7 @@ func Label_default() *Label {
 // --- [ Ref ] -----------------------------------------------------------------
 
 // from_untyped
-func (Ref) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Ref) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRef {
 		return option.Some[AstNode](&Ref{SyntaxNode: node})
 	} else {
@@ -339,7 +339,7 @@ func Ref_default() *Ref {
 // --- [ Heading ] -------------------------------------------------------------
 
 // from_untyped
-func (Heading) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Heading) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindHeading {
 		return option.Some[AstNode](&Heading{SyntaxNode: node})
 	} else {
@@ -359,7 +359,7 @@ func Heading_default() *Heading {
 // --- [ ListItem ] ------------------------------------------------------------
 
 // from_untyped
-func (ListItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ListItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindListItem {
 		return option.Some[AstNode](&ListItem{SyntaxNode: node})
 	} else {
@@ -379,7 +379,7 @@ func ListItem_default() *ListItem {
 // --- [ EnumItem ] ------------------------------------------------------------
 
 // from_untyped
-func (EnumItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*EnumItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEnumItem {
 		return option.Some[AstNode](&EnumItem{SyntaxNode: node})
 	} else {
@@ -399,7 +399,7 @@ func EnumItem_default() *EnumItem {
 // --- [ TermItem ] ------------------------------------------------------------
 
 // from_untyped
-func (TermItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*TermItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindTermItem {
 		return option.Some[AstNode](&TermItem{SyntaxNode: node})
 	} else {
@@ -419,7 +419,7 @@ func TermItem_default() *TermItem {
 // --- [ Equation ] ------------------------------------------------------------
 
 // from_untyped
-func (Equation) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Equation) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindEquation {
 		return option.Some[AstNode](&Equation{SyntaxNode: node})
 	} else {
@@ -439,7 +439,7 @@ func Equation_default() *Equation {
 // --- [ Math ] ----------------------------------------------------------------
 
 // from_untyped
-func (Math) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Math) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMath {
 		return option.Some[AstNode](&Math{SyntaxNode: node})
 	} else {
@@ -459,7 +459,7 @@ func Math_default() *Math {
 // --- [ MathText ] ------------------------------------------------------------
 
 // from_untyped
-func (MathText) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathText) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathText {
 		return option.Some[AstNode](&MathText{SyntaxNode: node})
 	} else {
@@ -479,7 +479,7 @@ func MathText_default() *MathText {
 // --- [ MathIdent ] -----------------------------------------------------------
 
 // from_untyped
-func (MathIdent) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathIdent) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathIdent {
 		return option.Some[AstNode](&MathIdent{SyntaxNode: node})
 	} else {
@@ -499,7 +499,7 @@ func MathIdent_default() *MathIdent {
 // --- [ MathShorthand ] -------------------------------------------------------
 
 // from_untyped
-func (MathShorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathShorthand) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathShorthand {
 		return option.Some[AstNode](&MathShorthand{SyntaxNode: node})
 	} else {
@@ -519,7 +519,7 @@ func MathShorthand_default() *MathShorthand {
 // --- [ MathAlignPoint ] ------------------------------------------------------
 
 // from_untyped
-func (MathAlignPoint) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathAlignPoint) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathAlignPoint {
 		return option.Some[AstNode](&MathAlignPoint{SyntaxNode: node})
 	} else {
@@ -539,7 +539,7 @@ func MathAlignPoint_default() *MathAlignPoint {
 // --- [ MathDelimited ] -------------------------------------------------------
 
 // from_untyped
-func (MathDelimited) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathDelimited) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathDelimited {
 		return option.Some[AstNode](&MathDelimited{SyntaxNode: node})
 	} else {
@@ -559,7 +559,7 @@ func MathDelimited_default() *MathDelimited {
 // --- [ MathAttach ] ----------------------------------------------------------
 
 // from_untyped
-func (MathAttach) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathAttach) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathAttach {
 		return option.Some[AstNode](&MathAttach{SyntaxNode: node})
 	} else {
@@ -579,7 +579,7 @@ func MathAttach_default() *MathAttach {
 // --- [ MathPrimes ] ----------------------------------------------------------
 
 // from_untyped
-func (MathPrimes) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathPrimes) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathPrimes {
 		return option.Some[AstNode](&MathPrimes{SyntaxNode: node})
 	} else {
@@ -599,7 +599,7 @@ func MathPrimes_default() *MathPrimes {
 // --- [ MathFrac ] ------------------------------------------------------------
 
 // from_untyped
-func (MathFrac) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathFrac) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathFrac {
 		return option.Some[AstNode](&MathFrac{SyntaxNode: node})
 	} else {
@@ -619,7 +619,7 @@ func MathFrac_default() *MathFrac {
 // --- [ MathRoot ] ------------------------------------------------------------
 
 // from_untyped
-func (MathRoot) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*MathRoot) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindMathRoot {
 		return option.Some[AstNode](&MathRoot{SyntaxNode: node})
 	} else {
@@ -639,7 +639,7 @@ func MathRoot_default() *MathRoot {
 // --- [ Ident ] ---------------------------------------------------------------
 
 // from_untyped
-func (Ident) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Ident) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindIdent {
 		return option.Some[AstNode](&Ident{SyntaxNode: node})
 	} else {
@@ -659,7 +659,7 @@ func Ident_default() *Ident {
 // --- [ None ] ----------------------------------------------------------------
 
 // from_untyped
-func (None) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*None) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNone {
 		return option.Some[AstNode](&None{SyntaxNode: node})
 	} else {
@@ -679,7 +679,7 @@ func None_default() *None {
 // --- [ Auto ] ----------------------------------------------------------------
 
 // from_untyped
-func (Auto) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Auto) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindAuto {
 		return option.Some[AstNode](&Auto{SyntaxNode: node})
 	} else {
@@ -699,7 +699,7 @@ func Auto_default() *Auto {
 // --- [ Bool ] ----------------------------------------------------------------
 
 // from_untyped
-func (Bool) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Bool) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindBool {
 		return option.Some[AstNode](&Bool{SyntaxNode: node})
 	} else {
@@ -719,7 +719,7 @@ func Bool_default() *Bool {
 // --- [ Int ] -----------------------------------------------------------------
 
 // from_untyped
-func (Int) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Int) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindInt {
 		return option.Some[AstNode](&Int{SyntaxNode: node})
 	} else {
@@ -739,7 +739,7 @@ func Int_default() *Int {
 // --- [ Float ] ---------------------------------------------------------------
 
 // from_untyped
-func (Float) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Float) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFloat {
 		return option.Some[AstNode](&Float{SyntaxNode: node})
 	} else {
@@ -759,7 +759,7 @@ func Float_default() *Float {
 // --- [ Numeric ] -------------------------------------------------------------
 
 // from_untyped
-func (Numeric) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Numeric) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNumeric {
 		return option.Some[AstNode](&Numeric{SyntaxNode: node})
 	} else {
@@ -779,7 +779,7 @@ func Numeric_default() *Numeric {
 // --- [ Str ] -----------------------------------------------------------------
 
 // from_untyped
-func (Str) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Str) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindStr {
 		return option.Some[AstNode](&Str{SyntaxNode: node})
 	} else {
@@ -799,7 +799,7 @@ func Str_default() *Str {
 // --- [ CodeBlock ] -----------------------------------------------------------
 
 // from_untyped
-func (CodeBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*CodeBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindCodeBlock {
 		return option.Some[AstNode](&CodeBlock{SyntaxNode: node})
 	} else {
@@ -819,7 +819,7 @@ func CodeBlock_default() *CodeBlock {
 // --- [ Code ] ----------------------------------------------------------------
 
 // from_untyped
-func (Code) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Code) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindCode {
 		return option.Some[AstNode](&Code{SyntaxNode: node})
 	} else {
@@ -839,7 +839,7 @@ func Code_default() *Code {
 // --- [ ContentBlock ] --------------------------------------------------------
 
 // from_untyped
-func (ContentBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ContentBlock) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindContentBlock {
 		return option.Some[AstNode](&ContentBlock{SyntaxNode: node})
 	} else {
@@ -859,7 +859,7 @@ func ContentBlock_default() *ContentBlock {
 // --- [ Parenthesized ] -------------------------------------------------------
 
 // from_untyped
-func (Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParenthesized {
 		return option.Some[AstNode](&Parenthesized{SyntaxNode: node})
 	} else {
@@ -879,7 +879,7 @@ func Parenthesized_default() *Parenthesized {
 // --- [ Array ] ---------------------------------------------------------------
 
 // from_untyped
-func (Array) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Array) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindArray {
 		return option.Some[AstNode](&Array{SyntaxNode: node})
 	} else {
@@ -899,7 +899,7 @@ func Array_default() *Array {
 // --- [ Dict ] ----------------------------------------------------------------
 
 // from_untyped
-func (Dict) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Dict) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDict {
 		return option.Some[AstNode](&Dict{SyntaxNode: node})
 	} else {
@@ -919,7 +919,7 @@ func Dict_default() *Dict {
 // --- [ Named ] ---------------------------------------------------------------
 
 // from_untyped
-func (Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Named{SyntaxNode: node})
 	} else {
@@ -939,7 +939,7 @@ func Named_default() *Named {
 // --- [ Keyed ] ---------------------------------------------------------------
 
 // from_untyped
-func (Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindKeyed {
 		return option.Some[AstNode](&Keyed{SyntaxNode: node})
 	} else {
@@ -959,7 +959,7 @@ func Keyed_default() *Keyed {
 // --- [ Spread ] --------------------------------------------------------------
 
 // from_untyped
-func (Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Spread{SyntaxNode: node})
 	} else {
@@ -979,7 +979,7 @@ func Spread_default() *Spread {
 // --- [ Unary ] ---------------------------------------------------------------
 
 // from_untyped
-func (Unary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Unary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnary {
 		return option.Some[AstNode](&Unary{SyntaxNode: node})
 	} else {
@@ -999,7 +999,7 @@ func Unary_default() *Unary {
 // --- [ Binary ] --------------------------------------------------------------
 
 // from_untyped
-func (Binary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Binary) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindBinary {
 		return option.Some[AstNode](&Binary{SyntaxNode: node})
 	} else {
@@ -1019,7 +1019,7 @@ func Binary_default() *Binary {
 // --- [ FieldAccess ] ---------------------------------------------------------
 
 // from_untyped
-func (FieldAccess) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FieldAccess) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFieldAccess {
 		return option.Some[AstNode](&FieldAccess{SyntaxNode: node})
 	} else {
@@ -1039,7 +1039,7 @@ func FieldAccess_default() *FieldAccess {
 // --- [ FuncCall ] ------------------------------------------------------------
 
 // from_untyped
-func (FuncCall) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FuncCall) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFuncCall {
 		return option.Some[AstNode](&FuncCall{SyntaxNode: node})
 	} else {
@@ -1059,7 +1059,7 @@ func FuncCall_default() *FuncCall {
 // --- [ Args ] ----------------------------------------------------------------
 
 // from_untyped
-func (Args) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Args) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindArgs {
 		return option.Some[AstNode](&Args{SyntaxNode: node})
 	} else {
@@ -1079,7 +1079,7 @@ func Args_default() *Args {
 // --- [ Closure ] -------------------------------------------------------------
 
 // from_untyped
-func (Closure) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Closure) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindClosure {
 		return option.Some[AstNode](&Closure{SyntaxNode: node})
 	} else {
@@ -1099,7 +1099,7 @@ func Closure_default() *Closure {
 // --- [ Params ] --------------------------------------------------------------
 
 // from_untyped
-func (Params) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Params) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParams {
 		return option.Some[AstNode](&Params{SyntaxNode: node})
 	} else {
@@ -1119,7 +1119,7 @@ func Params_default() *Params {
 // --- [ Underscore ] ----------------------------------------------------------
 
 // from_untyped
-func (Underscore) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Underscore) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnderscore {
 		return option.Some[AstNode](&Underscore{SyntaxNode: node})
 	} else {
@@ -1139,7 +1139,7 @@ func Underscore_default() *Underscore {
 // --- [ Destructuring ] -------------------------------------------------------
 
 // from_untyped
-func (Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructuring {
 		return option.Some[AstNode](&Destructuring{SyntaxNode: node})
 	} else {
@@ -1159,7 +1159,7 @@ func Destructuring_default() *Destructuring {
 // --- [ LetBinding ] ----------------------------------------------------------
 
 // from_untyped
-func (LetBinding) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LetBinding) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLetBinding {
 		return option.Some[AstNode](&LetBinding{SyntaxNode: node})
 	} else {
@@ -1179,7 +1179,7 @@ func LetBinding_default() *LetBinding {
 // --- [ DestructAssignment ] --------------------------------------------------
 
 // from_untyped
-func (DestructAssignment) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructAssignment) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructAssignment {
 		return option.Some[AstNode](&DestructAssignment{SyntaxNode: node})
 	} else {
@@ -1199,7 +1199,7 @@ func DestructAssignment_default() *DestructAssignment {
 // --- [ SetRule ] -------------------------------------------------------------
 
 // from_untyped
-func (SetRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*SetRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSetRule {
 		return option.Some[AstNode](&SetRule{SyntaxNode: node})
 	} else {
@@ -1219,7 +1219,7 @@ func SetRule_default() *SetRule {
 // --- [ ShowRule ] ------------------------------------------------------------
 
 // from_untyped
-func (ShowRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ShowRule) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindShowRule {
 		return option.Some[AstNode](&ShowRule{SyntaxNode: node})
 	} else {
@@ -1239,7 +1239,7 @@ func ShowRule_default() *ShowRule {
 // --- [ Contextual ] ----------------------------------------------------------
 
 // from_untyped
-func (Contextual) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Contextual) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindContextual {
 		return option.Some[AstNode](&Contextual{SyntaxNode: node})
 	} else {
@@ -1259,7 +1259,7 @@ func Contextual_default() *Contextual {
 // --- [ Conditional ] ---------------------------------------------------------
 
 // from_untyped
-func (Conditional) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Conditional) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindConditional {
 		return option.Some[AstNode](&Conditional{SyntaxNode: node})
 	} else {
@@ -1279,7 +1279,7 @@ func Conditional_default() *Conditional {
 // --- [ WhileLoop ] -----------------------------------------------------------
 
 // from_untyped
-func (WhileLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*WhileLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindWhileLoop {
 		return option.Some[AstNode](&WhileLoop{SyntaxNode: node})
 	} else {
@@ -1299,7 +1299,7 @@ func WhileLoop_default() *WhileLoop {
 // --- [ ForLoop ] -------------------------------------------------------------
 
 // from_untyped
-func (ForLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ForLoop) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindForLoop {
 		return option.Some[AstNode](&ForLoop{SyntaxNode: node})
 	} else {
@@ -1319,7 +1319,7 @@ func ForLoop_default() *ForLoop {
 // --- [ ModuleImport ] --------------------------------------------------------
 
 // from_untyped
-func (ModuleImport) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ModuleImport) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindModuleImport {
 		return option.Some[AstNode](&ModuleImport{SyntaxNode: node})
 	} else {
@@ -1339,7 +1339,7 @@ func ModuleImport_default() *ModuleImport {
 // --- [ ImportItems ] ---------------------------------------------------------
 
 // from_untyped
-func (ImportItems) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ImportItems) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindImportItems {
 		return option.Some[AstNode](&ImportItems{SyntaxNode: node})
 	} else {
@@ -1359,7 +1359,7 @@ func ImportItems_default() *ImportItems {
 // --- [ ImportItemPath ] ------------------------------------------------------
 
 // from_untyped
-func (ImportItemPath) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ImportItemPath) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindImportItemPath {
 		return option.Some[AstNode](&ImportItemPath{SyntaxNode: node})
 	} else {
@@ -1379,7 +1379,7 @@ func ImportItemPath_default() *ImportItemPath {
 // --- [ RenamedImportItem ] ---------------------------------------------------
 
 // from_untyped
-func (RenamedImportItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*RenamedImportItem) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindRenamedImportItem {
 		return option.Some[AstNode](&RenamedImportItem{SyntaxNode: node})
 	} else {
@@ -1399,7 +1399,7 @@ func RenamedImportItem_default() *RenamedImportItem {
 // --- [ ModuleInclude ] -------------------------------------------------------
 
 // from_untyped
-func (ModuleInclude) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ModuleInclude) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindModuleInclude {
 		return option.Some[AstNode](&ModuleInclude{SyntaxNode: node})
 	} else {
@@ -1419,7 +1419,7 @@ func ModuleInclude_default() *ModuleInclude {
 // --- [ LoopBreak ] -----------------------------------------------------------
 
 // from_untyped
-func (LoopBreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LoopBreak) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLoopBreak {
 		return option.Some[AstNode](&LoopBreak{SyntaxNode: node})
 	} else {
@@ -1439,7 +1439,7 @@ func LoopBreak_default() *LoopBreak {
 // --- [ LoopContinue ] --------------------------------------------------------
 
 // from_untyped
-func (LoopContinue) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*LoopContinue) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindLoopContinue {
 		return option.Some[AstNode](&LoopContinue{SyntaxNode: node})
 	} else {
@@ -1459,7 +1459,7 @@ func LoopContinue_default() *LoopContinue {
 // --- [ FuncReturn ] ----------------------------------------------------------
 
 // from_untyped
-func (FuncReturn) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*FuncReturn) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindFuncReturn {
 		return option.Some[AstNode](&FuncReturn{SyntaxNode: node})
 	} else {
@@ -1481,7 +1481,7 @@ func FuncReturn_default() *FuncReturn {
 // --- [ ArrayItem_Pos ] -------------------------------------------------------
 
 // from_untyped
-func (ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*ArrayItem_Pos](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1495,7 +1495,7 @@ func (node *ArrayItem_Pos) to_untyped() *SyntaxNode {
 // --- [ ArrayItem_Spread ] ----------------------------------------------------
 
 // from_untyped
-func (ArrayItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*ArrayItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&ArrayItem_Spread{spread: &Spread{SyntaxNode: node}})
 	} else {
@@ -1512,7 +1512,7 @@ func (node *ArrayItem_Spread) to_untyped() *SyntaxNode {
 // --- [ DictItem_Named ] ------------------------------------------------------
 
 // from_untyped
-func (DictItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&DictItem_Named{item: &Named{SyntaxNode: node}})
 	} else {
@@ -1527,7 +1527,7 @@ func (node *DictItem_Named) to_untyped() *SyntaxNode {
 // --- [ DictItem_Keyed ] ------------------------------------------------------
 
 // from_untyped
-func (DictItem_Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Keyed) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindKeyed {
 		return option.Some[AstNode](&DictItem_Keyed{item: &Keyed{SyntaxNode: node}})
 	} else {
@@ -1542,7 +1542,7 @@ func (node *DictItem_Keyed) to_untyped() *SyntaxNode {
 // --- [ DictItem_Spread ] -----------------------------------------------------
 
 // from_untyped
-func (DictItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DictItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&DictItem_Spread{item: &Spread{SyntaxNode: node}})
 	} else {
@@ -1559,7 +1559,7 @@ func (node *DictItem_Spread) to_untyped() *SyntaxNode {
 // --- [ Arg_Named ] -----------------------------------------------------------
 
 // from_untyped
-func (Arg_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Arg_Named{arg: &Named{SyntaxNode: node}})
 	} else {
@@ -1574,7 +1574,7 @@ func (node *Arg_Named) to_untyped() *SyntaxNode {
 // --- [ Arg_Spread ] ----------------------------------------------------------
 
 // from_untyped
-func (Arg_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Arg_Spread{arg: &Spread{SyntaxNode: node}})
 	} else {
@@ -1589,7 +1589,7 @@ func (node *Arg_Spread) to_untyped() *SyntaxNode {
 // --- [ Arg_Pos ] -------------------------------------------------------------
 
 // from_untyped
-func (Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*Arg_Pos](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1605,7 +1605,7 @@ func (node *Arg_Pos) to_untyped() *SyntaxNode {
 // --- [ Param_Named ] ---------------------------------------------------------
 
 // from_untyped
-func (Param_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&Param_Named{param: &Named{SyntaxNode: node}})
 	} else {
@@ -1620,7 +1620,7 @@ func (node *Param_Named) to_untyped() *SyntaxNode {
 // --- [ Param_Spread ] --------------------------------------------------------
 
 // from_untyped
-func (Param_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&Param_Spread{param: &Spread{SyntaxNode: node}})
 	} else {
@@ -1635,7 +1635,7 @@ func (node *Param_Spread) to_untyped() *SyntaxNode {
 // --- [ Param_Pos ] -----------------------------------------------------------
 
 // from_untyped
-func (Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*Param_Pos](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1651,7 +1651,7 @@ func (node *Param_Pos) to_untyped() *SyntaxNode {
 // --- [ Pattern_Normal ] ------------------------------------------------------
 
 // from_untyped
-func (Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*Pattern_Normal](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1679,7 +1679,7 @@ func Pattern_Normal_default() *Pattern_Normal {
 // --- [ Pattern_Placeholder ] -------------------------------------------------
 
 // from_untyped
-func (Pattern_Placeholder) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Placeholder) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindUnderscore {
 		return option.Some[AstNode](&Pattern_Placeholder{pattern: &Underscore{SyntaxNode: node}})
 	} else {
@@ -1699,7 +1699,7 @@ func (node *Pattern_Placeholder) bindings() []*Ident {
 // --- [ Pattern_Parenthesized ] -----------------------------------------------
 
 // from_untyped
-func (Pattern_Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Parenthesized) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindParenthesized {
 		return option.Some[AstNode](&Pattern_Parenthesized{pattern: &Parenthesized{SyntaxNode: node}})
 	} else {
@@ -1719,7 +1719,7 @@ func (node *Pattern_Parenthesized) bindings() []*Ident {
 // --- [ Pattern_Destructuring ] -----------------------------------------------
 
 // from_untyped
-func (Pattern_Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*Pattern_Destructuring) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindDestructuring {
 		return option.Some[AstNode](&Pattern_Destructuring{pattern: &Destructuring{SyntaxNode: node}})
 	} else {
@@ -1741,7 +1741,7 @@ func (node *Pattern_Destructuring) bindings() []*Ident {
 // --- [ DestructuringItem_Pattern ] -------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if n, ok := SyntaxNode_cast[*DestructuringItem_Pattern](node).Get(); ok {
 		return option.Some[AstNode](n)
 	}
@@ -1755,7 +1755,7 @@ func (node *DestructuringItem_Pattern) to_untyped() *SyntaxNode {
 // --- [ DestructuringItem_Named ] ---------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Named) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindNamed {
 		return option.Some[AstNode](&DestructuringItem_Named{named: &Named{SyntaxNode: node}})
 	} else {
@@ -1770,7 +1770,7 @@ func (node *DestructuringItem_Named) to_untyped() *SyntaxNode {
 // --- [ DestructuringItem_Spread ] ---------------------------------------------
 
 // from_untyped
-func (DestructuringItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
+func (*DestructuringItem_Spread) from_untyped(node *SyntaxNode) option.Option[AstNode] {
 	if node.kind() == SyntaxKindSpread {
 		return option.Some[AstNode](&DestructuringItem_Spread{spread: &Spread{SyntaxNode: node}})
 	} else {
-- 
2.43.0


From 4643379f25bc765994d88b8c6a21234996fe6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 15/45] fix: cast syntax nodes to items, arguments, parameters
 and patterns

---
 typst/syntax/ast.go      | 41 ++++++++++++++++++++++++++++++++++++++++
 typst/syntax/ast_node.go | 20 ++++++++++----------
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index ca6f61a..a2da685 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -129,6 +129,14 @@ func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
 		}
 		return option.None[T]()
 	}
+	if variants := category_variants[T](); len(variants) > 0 {
+		for _, variant := range variants {
+			if n, ok := variant.from_untyped(node).Get(); ok {
+				return option.Some(n.(T))
+			}
+		}
+		return option.None[T]()
+	}
 	var zero T
 	if _n, ok := zero.from_untyped(node).Get(); ok {
 		n := _n.(T)
@@ -137,6 +145,27 @@ func SyntaxNode_cast[T AstNode](node *SyntaxNode) option.Option[T] {
 	return option.None[T]()
 }
 
+// The variants of a category of AST nodes, in order of preference.
+//
+// Returns nil if `T` is not a category.
+func category_variants[T AstNode]() []AstNode {
+	switch any((*T)(nil)).(type) {
+	case *ArrayItem:
+		return []AstNode{(*ArrayItem_Spread)(nil), (*ArrayItem_Pos)(nil)}
+	case *DictItem:
+		return []AstNode{(*DictItem_Named)(nil), (*DictItem_Keyed)(nil), (*DictItem_Spread)(nil)}
+	case *Arg:
+		return []AstNode{(*Arg_Named)(nil), (*Arg_Spread)(nil), (*Arg_Pos)(nil)}
+	case *Param:
+		return []AstNode{(*Param_Named)(nil), (*Param_Spread)(nil), (*Param_Pos)(nil)}
+	case *Pattern:
+		return []AstNode{(*Pattern_Placeholder)(nil), (*Pattern_Parenthesized)(nil), (*Pattern_Destructuring)(nil), (*Pattern_Normal)(nil)}
+	case *DestructuringItem:
+		return []AstNode{(*DestructuringItem_Named)(nil), (*DestructuringItem_Spread)(nil), (*DestructuringItem_Pattern)(nil)}
+	}
+	return nil
+}
+
 // Find the first child that can cast to the AST type `T`.
 //
 // try_cast_first
@@ -1529,6 +1558,10 @@ type DictItem interface {
 	isDictItem()
 }
 
+func (*DictItem_Named) isDictItem()  {}
+func (*DictItem_Keyed) isDictItem()  {}
+func (*DictItem_Spread) isDictItem() {}
+
 // A named pair: `thickness: 3pt`.
 //
 // Named
@@ -2101,6 +2134,10 @@ type Arg interface {
 	isArg()
 }
 
+func (*Arg_Pos) isArg()    {}
+func (*Arg_Named) isArg()  {}
+func (*Arg_Spread) isArg() {}
+
 // A positional argument: `12`.
 //
 // Pos
@@ -2174,6 +2211,10 @@ type Param interface {
 	isParam()
 }
 
+func (*Param_Pos) isParam()    {}
+func (*Param_Named) isParam()  {}
+func (*Param_Spread) isParam() {}
+
 // A positional parameter: `x`.
 //
 // Pos
diff --git a/typst/syntax/ast_node.go b/typst/syntax/ast_node.go
index 5e30d08..42a1288 100644
--- a/typst/syntax/ast_node.go
+++ b/typst/syntax/ast_node.go
@@ -1482,8 +1482,8 @@ func FuncReturn_default() *FuncReturn {
 
 // from_untyped
 func (*ArrayItem_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*ArrayItem_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&ArrayItem_Pos{expr: expr})
 	}
 	return option.None[AstNode]()
 }
@@ -1590,8 +1590,8 @@ func (node *Arg_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (*Arg_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Arg_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&Arg_Pos{arg: expr})
 	}
 	return option.None[AstNode]()
 }
@@ -1636,8 +1636,8 @@ func (node *Param_Spread) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (*Param_Pos) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Param_Pos](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if pattern, ok := SyntaxNode_cast[Pattern](node).Get(); ok {
+		return option.Some[AstNode](&Param_Pos{param: pattern})
 	}
 	return option.None[AstNode]()
 }
@@ -1652,8 +1652,8 @@ func (node *Param_Pos) to_untyped() *SyntaxNode {
 
 // from_untyped
 func (*Pattern_Normal) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*Pattern_Normal](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
+		return option.Some[AstNode](&Pattern_Normal{expr: expr})
 	}
 	return option.None[AstNode]()
 }
@@ -1742,8 +1742,8 @@ func (node *Pattern_Destructuring) bindings() []*Ident {
 
 // from_untyped
 func (*DestructuringItem_Pattern) from_untyped(node *SyntaxNode) option.Option[AstNode] {
-	if n, ok := SyntaxNode_cast[*DestructuringItem_Pattern](node).Get(); ok {
-		return option.Some[AstNode](n)
+	if pattern, ok := SyntaxNode_cast[Pattern](node).Get(); ok {
+		return option.Some[AstNode](&DestructuringItem_Pattern{pattern: pattern})
 	}
 	return option.None[AstNode]()
 }
-- 
2.43.0


From a9739d08fea79a96cef3a3b8ab0612e626f7cfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 16/45] fix: resolve decimal integer literals

---
 typst/syntax/ast.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index a2da685..4d2b52c 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1241,6 +1241,7 @@ func (node *Int) get() int64 {
 		s = strings.TrimPrefix(text, "0b")
 		base = 2
 	default:
+		s = text
 		base = 10
 	}
 	x, err := strconv.ParseInt(s, base, 64)
-- 
2.43.0


From 13f717c4251a3abcfc431581b4425f1f7f486a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 17/45] fix: split numeric literals at the start of their unit

---
 typst/syntax/ast.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 4d2b52c..d70d84a 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1283,9 +1283,10 @@ func (node *Numeric) get() (float64, Unit) {
 	chars := []rune(text)
 	count := 0
 	for _, c := range slices.Backward(chars) {
-		if stdx.IsAsciiLowercase(c) || c == '%' {
-			count++
+		if !stdx.IsAsciiLowercase(c) && c != '%' {
+			break
 		}
+		count++
 	}
 	split := len(text) - count
 	value_str := text[:split]
-- 
2.43.0


From eb0ae93539b5a35fdbb8c937b167a1ac839ea38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 18/45] fix: keep infinite values of overflowing float and
 numeric literals

---
 typst/syntax/ast.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index d70d84a..9a71ab6 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1263,7 +1263,7 @@ type Float struct {
 func (node *Float) get() float64 {
 	text := node.SyntaxNode.text()
 	x, err := strconv.ParseFloat(text, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		return 0.0 // default
 	}
@@ -1292,7 +1292,7 @@ func (node *Numeric) get() (float64, Unit) {
 	value_str := text[:split]
 	unit_str := text[split:]
 	value, err := strconv.ParseFloat(value_str, 64)
-	if err != nil {
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		// TODO: report warning?
 		value = 0.0 // default
 	}
-- 
2.43.0


From f7b9290151dba36efed5e3e0292b33fea49ddb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 19/45] fix: recognize the not-in operator

---
 typst/syntax/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 9a71ab6..1dedc27 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1754,7 +1754,7 @@ type Binary struct {
 func (node *Binary) op() BinOp {
 	not := false
 	for _, child := range node.children() {
-		switch node.kind() {
+		switch child.kind() {
 		case SyntaxKindNot:
 			not = true
 			continue
-- 
2.43.0


From c32d621717ba670188a60cd9023080da133800aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 20/45] fix: look for a trailing comma only right before the
 closing parenthesis

---
 typst/syntax/ast.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 1dedc27..471c76f 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2114,17 +2114,14 @@ func (node *Args) items() []Arg {
 func (node *Args) trailing_comma() bool {
 	children := node.children()
 	for i, child := range slices.Backward(children) {
-		if i == 0 {
-			continue // skip first
+		if i == len(children)-1 {
+			continue // skip last
 		}
 		kind := child.kind()
-		// TODO: double-check that conversion from Rust to Go is correct.
 		if kind.IsTrivia() {
 			continue
 		}
-		if kind == SyntaxKindComma {
-			return true
-		}
+		return kind == SyntaxKindComma
 	}
 	return false
 }
-- 
2.43.0


From 09a8d3a1b027a5f46f93f44254386b8971425d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 21/45] fix: skip trivia after markers when accessing
 expressions and names

---
 typst/syntax/ast.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 471c76f..07ea021 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -1073,7 +1073,9 @@ func (node *MathAttach) bottom() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindUnderscore {
 			found = true
@@ -1087,7 +1089,9 @@ func (node *MathAttach) top() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindHat {
 			found = true
@@ -2491,7 +2495,9 @@ func (node *SetRule) condition() option.Option[Expr] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindIf {
 			found = true
@@ -2513,7 +2519,9 @@ func (node *ShowRule) selector() option.Option[Expr] {
 	found := false
 	for _, child := range slices.Backward(children) {
 		if found {
-			return SyntaxNode_cast[Expr](child)
+			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
+				return option.Some(expr)
+			}
 		}
 		if child.kind() == SyntaxKindColon {
 			found = true
@@ -2619,8 +2627,6 @@ func (node *ForLoop) iterable() Expr {
 		if found {
 			if expr, ok := SyntaxNode_cast[Expr](child).Get(); ok {
 				return expr
-			} else {
-				return Expr_default() // default value
 			}
 		}
 		if child.kind() == SyntaxKindIn {
@@ -2708,7 +2714,9 @@ func (node *ModuleImport) new_name() option.Option[*Ident] {
 	found := false
 	for _, child := range node.children() {
 		if found {
-			SyntaxNode_cast[*Ident](child)
+			if ident, ok := SyntaxNode_cast[*Ident](child).Get(); ok {
+				return option.Some(ident)
+			}
 		}
 		if child.kind() == SyntaxKindAs {
 			found = true
-- 
2.43.0


From 442d20acf81d7cb2012ff62b948f58c86fb31136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 22/45] fix: report no initializer for let bindings without one

---
 typst/syntax/ast.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 07ea021..b3e5275 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -2437,6 +2437,7 @@ func (node *LetBinding) init() option.Option[Expr] {
 			if len(exprs) > 1 {
 				return option.Some(exprs[1])
 			}
+			return option.None[Expr]()
 		case *Pattern_Parenthesized:
 			// TODO: double-check translation from Rust to Go.
 			var exprs []Expr
@@ -2448,6 +2449,7 @@ func (node *LetBinding) init() option.Option[Expr] {
 			if len(exprs) > 1 {
 				return option.Some(exprs[1])
 			}
+			return option.None[Expr]()
 		}
 		return SyntaxNode_try_cast_first[Expr](node.SyntaxNode)
 	case *LetBindingKind_Closure:
-- 
2.43.0


From d308c751111bd947711f342494764a422dd02ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 23/45] fix: keep escape sequences of invalid characters in
 strings

---
 typst/syntax/ast.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index b3e5275..5447aa2 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -85,6 +85,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/scanner"
@@ -588,7 +589,9 @@ func (node *Escape) get() rune {
 			return 0 // default value.
 		}
 		r := rune(x)
-		// TODO: handle invalid rune and return default value (i.e. 0)?
+		if !utf8.ValidRune(r) {
+			return 0 // default value.
+		}
 		return r
 	} else {
 		if c, ok := s.Eat(); ok {
@@ -1424,7 +1427,11 @@ func (node *Str) get() string {
 				out.WriteString(s.From(start))
 				continue
 			}
-			r := rune(x) // TODO: handle invalid rune (using `out.WriteString(s.From(start))`)?
+			r := rune(x)
+			if !utf8.ValidRune(r) {
+				out.WriteString(s.From(start))
+				continue
+			}
 			out.WriteRune(r)
 		default:
 			out.WriteString(s.From(start))
-- 
2.43.0


From 226d87692b422c9f0f674f2d32bb6c7c613b162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 24/45] fix: handle math without children

---
 typst/syntax/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/ast.go b/typst/syntax/ast.go
index 5447aa2..0accdfe 100644
--- a/typst/syntax/ast.go
+++ b/typst/syntax/ast.go
@@ -911,6 +911,9 @@ func (node *Math) exprs() []Expr {
 // Whether this `Math` node was originally parenthesized.
 func (node *Math) was_deparenthesized() bool {
 	children := node.children()
+	if len(children) < 2 {
+		return false
+	}
 	first := children[0]
 	last := children[len(children)-1]
 	return first.kind() == SyntaxKindLeftParen && last.kind() == SyntaxKindRightParen
-- 
2.43.0


From c7b9b7d66be4d966bbccf468cfeedcce63afac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 25/45] fix: highlight a hash that is not followed by an
 expression

---
 typst/syntax/highlight.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/highlight.go b/typst/syntax/highlight.go
index ab523bb..af416ae 100644
--- a/typst/syntax/highlight.go
+++ b/typst/syntax/highlight.go
@@ -572,8 +572,8 @@ func highlight_hash(node *LinkedNode) (Tag, bool) {
 	if !ok {
 		return 0, false
 	}
-	expr := SyntaxNode_cast[Expr](next.node).MustGet()
-	if !Expr_hash(expr) {
+	expr, ok := SyntaxNode_cast[Expr](next.node).Get()
+	if !ok || !Expr_hash(expr) {
 		return 0, false
 	}
 	if left, ok := next.leftmost_leaf(); ok {
-- 
2.43.0


From aab973c04ffec5acb9bd0f578e5df34ce47494cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 26/45] fix: determine a math class for single characters only

---
 typst/syntax/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index 5f5581f..cf49245 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -2,6 +2,7 @@ package syntax
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/mewmew/typast/internal/option"
 	"github.com/mewmew/typast/internal/ranges"
@@ -527,7 +528,7 @@ func math_class(text string) option.Option[stdx.MathClass] {
 		return option.Some(stdx.MathClass_Fence)
 	}
 
-	for _, c := range text {
+	if c, n := utf8.DecodeRuneInString(text); n > 0 && n == len(text) {
 		return typutil.DefaultMathClass(c)
 	}
 	return option.None[stdx.MathClass]()
-- 
2.43.0


From e27cac51455e3488043e994bf4986ac673b23b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 27/45] fix: keep saturated range parts within their bits

---
 typst/syntax/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/span.go b/typst/syntax/span.go
index e478289..43210fc 100644
--- a/typst/syntax/span.go
+++ b/typst/syntax/span.go
@@ -36,7 +36,7 @@ const (
 	rangePartShift = rangePartBits
 	rangePartMask  = (uint64(1) << rangePartBits) - 1
 	spanDetached   = 1
-	maxRangePart   = uint64(1) << rangePartBits
+	maxRangePart   = rangePartMask
 )
 
 var (
@@ -61,7 +61,7 @@ func NewSpanFromNumber(id FileID, number uint64) (Span, bool) {
 }
 
 // NewSpanFromRange creates a new span from a raw byte range.
-// If a range part exceeds the maximum value (2^23), it is saturated.
+// If a range part exceeds the maximum value (2^23 - 1), it is saturated.
 func NewSpanFromRange(id FileID, byteRange ranges.Range) Span {
 	start := min(byteRange.Start, maxRangePart)
 	end := min(byteRange.End, maxRangePart)
-- 
2.43.0


From 186b2369d401b5a4ca849045a89ce76a587c56ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 28/45] fix: root virtual paths and resolve absolute paths from
 the root

---
 typst/syntax/path.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typst/syntax/path.go b/typst/syntax/path.go
index 0423ab4..ae5fb2f 100644
--- a/typst/syntax/path.go
+++ b/typst/syntax/path.go
@@ -14,12 +14,15 @@ type VirtualPath struct {
 // starting from the root.
 func NewVirtualPath(path string) *VirtualPath {
 	return &VirtualPath{
-		Path: path,
+		Path: filepath.Join("/", path),
 	}
 }
 
 // Join resolves a path relative to this virtual path.
 func (vpath *VirtualPath) Join(path string) *VirtualPath {
+	if filepath.IsAbs(path) {
+		return NewVirtualPath(path)
+	}
 	dir := filepath.Dir(vpath.Path)
 	new_path := filepath.Join(dir, path)
 	return NewVirtualPath(new_path)
-- 
2.43.0


From 1b4724dff01065706f674c964d7a3a9788ef6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 29/45] fix: intern file specifications by value

---
 typst/syntax/file.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 7e11d17..878abbb 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -12,13 +12,13 @@ import (
 
 // interner is the global package-path interner.
 var interner = &Interner{
-	toID:   make(map[Pair]FileID),
+	toID:   make(map[pairKey]FileID),
 	fromID: nil,
 }
 
 // Interner is a package-path interner.
 type Interner struct {
-	toID   map[Pair]FileID
+	toID   map[pairKey]FileID
 	fromID []Pair // maps from id-1 to Pair (since id is NonZero).
 
 	sync.RWMutex
@@ -30,6 +30,23 @@ type Pair struct {
 	VPath *VirtualPath
 }
 
+// pairKey is a comparable representation of a pair.
+type pairKey struct {
+	hasSpec bool
+	spec    PackageSpec
+	path    string
+}
+
+// key returns the comparable representation of the pair.
+func (pair Pair) key() pairKey {
+	key := pairKey{path: pair.VPath.Path}
+	if spec, ok := pair.Spec.Get(); ok {
+		key.hasSpec = true
+		key.spec = *spec
+	}
+	return key
+}
+
 // FileID identifies a file in a project or package.
 //
 // This type is globally interned and thus cheap to copy, compare, and hash.
@@ -43,10 +60,13 @@ func NewFileID(spec option.Option[*PackageSpec], vpath *VirtualPath) FileID {
 	pair := Pair{Spec: spec, VPath: vpath}
 	interner.Lock()
 	defer interner.Unlock()
-	if id, ok := interner.toID[pair]; ok {
+	key := pair.key()
+	if id, ok := interner.toID[key]; ok {
 		return id
 	}
-	return pushPair(pair)
+	id := pushPair(pair)
+	interner.toID[key] = id
+	return id
 }
 
 // pushPair creates a new entry forever.
@@ -58,11 +78,6 @@ func pushPair(pair Pair) FileID {
 		panic("out of file ids") // uint16 overflow
 	}
 	id := FileID(num)
-	if _, ok := pair.Spec.Get(); ok {
-		// only add pair to map if spec exists (i.e. not a "fake" file
-		// specification)
-		interner.toID[pair] = id
-	}
 	interner.fromID = append(interner.fromID, pair)
 	return id
 }
-- 
2.43.0


From 4c8c0854c3266243d5fc997579dc48a8ac13300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 30/45] fix: reject package manifests without a package section

---
 typst/syntax/package.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typst/syntax/package.go b/typst/syntax/package.go
index 329f1a6..67a01d6 100644
--- a/typst/syntax/package.go
+++ b/typst/syntax/package.go
@@ -35,6 +35,9 @@ func ParsePackageManifestFromToml(content string) (*PackageManifest, error) {
 	if err := toml.Unmarshal([]byte(content), manifest); err != nil {
 		return nil, errors.WithStack(err)
 	}
+	if manifest.Pkg == nil {
+		return nil, errors.New("package manifest is missing the package section")
+	}
 	return manifest, nil
 }
 
-- 
2.43.0


From a5f6da03ca742bc11b2a35763d9812e80b90762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 31/45] fix: compute the common prefix and suffix up to the
 first difference

---
 typst/syntax/lines.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 9e1e829..1328048 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -229,9 +229,10 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 	n := min(len(old), len(new))
 	prefix := 0
 	for i := 0; i < n; i++ {
-		if old[i] == new[i] {
-			prefix++
+		if old[i] != new[i] {
+			break
 		}
+		prefix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(prefix)) || !stdx.IsCharBoundary(new, uint(prefix)) {
@@ -240,13 +241,14 @@ func (l *Lines) ReplacementRange(new string) (ReplacementRange, bool) {
 
 	suffix := 0
 	for i, j := len(old)-1, len(new)-1; i >= prefix && j >= prefix; i, j = i-1, j-1 {
-		if old[i] == new[j] {
-			suffix++
+		if old[i] != new[j] {
+			break
 		}
+		suffix++
 	}
 
 	for !stdx.IsCharBoundary(old, uint(len(old)-suffix)) || !stdx.IsCharBoundary(new, uint(len(new)-suffix)) {
-		suffix++
+		suffix--
 	}
 
 	return ReplacementRange{
-- 
2.43.0


From dd807860617fb852a5d8a029f4ffd5a4f943a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 32/45] fix: recompute line starts when an edit joins or splits
 a CRLF newline

---
 typst/syntax/lines.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 1328048..8f8f058 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -271,17 +271,19 @@ func (l *Lines) Edit(replace ranges.Range, with string) {
 		panic("invalid byte index in replace range")
 	}
 
+	// Handle adjoining and splitting of \r and \n.
+	if strings.HasSuffix(l.Text[:startByte], "\r") {
+		startByte--
+		startUtf16--
+		line, _ = l.ByteToLine(startByte)
+	}
+
 	// Update the text itself.
 	l.Text = replaceRange(l.Text, replace, with)
 
 	// Remove invalidated line starts.
 	l.Lines = l.Lines[:line+1]
 
-	// Handle adjoining of \r and \n.
-	if strings.HasSuffix(l.Text[:startByte], "\r") && strings.HasPrefix(with, "\n") {
-		l.Lines = l.Lines[:len(l.Lines)-1]
-	}
-
 	// Recalculate the line starts after the edit.
 	newLines := linesFrom(startByte, startUtf16, l.Text[startByte:])
 	l.Lines = append(l.Lines, newLines...)
-- 
2.43.0


From af0a6ba21e3dfa20ce0a0e275a7bd82fe4e13b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 33/45] fix: reject indices beyond the range of signed integers

---
 typst/syntax/lines.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typst/syntax/lines.go b/typst/syntax/lines.go
index 8f8f058..f15b632 100644
--- a/typst/syntax/lines.go
+++ b/typst/syntax/lines.go
@@ -73,7 +73,7 @@ func (l *Lines) ByteToUtf16(byteIdx uint) (uint, bool) {
 //
 // It returns false if the byte index is out of bounds.
 func (l *Lines) ByteToLine(byteIdx uint) (uint, bool) {
-	if int(byteIdx) > len(l.Text) {
+	if byteIdx > uint(len(l.Text)) {
 		return 0, false
 	}
 	i := sort.Search(len(l.Lines), func(i int) bool {
@@ -152,7 +152,7 @@ func (l *Lines) Utf16ToByte(utf16Idx uint) (uint, bool) {
 //
 // It returns false if the line index is out of bounds.
 func (l *Lines) LineToByte(lineIdx uint) (uint, bool) {
-	if int(lineIdx) >= len(l.Lines) {
+	if lineIdx >= uint(len(l.Lines)) {
 		return 0, false
 	}
 	return l.Lines[lineIdx].ByteIdx, true
@@ -184,7 +184,7 @@ func (l *Lines) LineColumnToByte(lineIdx uint, columnIdx uint) (uint, bool) {
 	}
 	line := l.Text[r.Start:r.End]
 	chars := []rune(line)
-	if int(columnIdx) > len(chars) {
+	if columnIdx > uint(len(chars)) {
 		return 0, false
 	}
 	head := string(chars[:columnIdx])
-- 
2.43.0


From b031c10192656494118f91ff3bddad4dde3f39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 34/45] fix: locate the cursor itself for the zeroth character

---
 internal/scanner/scanner.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/scanner/scanner.go b/internal/scanner/scanner.go
index aa86eb4..9a76997 100644
--- a/internal/scanner/scanner.go
+++ b/internal/scanner/scanner.go
@@ -163,14 +163,11 @@ func (s *Scanner) Locate(n int) uint {
 		i := 0
 		length := 0
 		for _, c := range chars {
-			if !utf8.ValidRune(c) {
+			if i == n || !utf8.ValidRune(c) {
 				break
 			}
 			length += utf8.RuneLen(c)
 			i++
-			if i == n {
-				break
-			}
 		}
 		return s.Cursor() + uint(length)
 	} else {
-- 
2.43.0


From c3a68fbd96d6f35b36e4635533a49d51cae9247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 35/45] fix: detect duplicate empty keys in dictionaries

---
 typst/syntax/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/typst/syntax/parser.go b/typst/syntax/parser.go
index cf49245..1ff7c67 100644
--- a/typst/syntax/parser.go
+++ b/typst/syntax/parser.go
@@ -1305,16 +1305,16 @@ func array_or_dict_item(p *Parser, state *GroupState) {
 			pair_kind = SyntaxKindKeyed
 		}
 
-		var key string
+		var key option.Option[string]
 		if expr, ok := SyntaxNode_cast[Expr](node).Get(); ok {
 			switch expr := expr.(type) {
 			case *Ident:
-				key = expr.get()
+				key = option.Some(expr.get())
 			case *Str:
-				key = expr.get()
+				key = option.Some(expr.get())
 			}
 		}
-		if len(key) > 0 {
+		if key, ok := key.Get(); ok {
 			if !map_insert(state.seen, key) {
 				node.convert_to_error(fmt.Sprintf("duplicate key: %v", key))
 			}
-- 
2.43.0


From a4290d01a1c8a35d1020062bb6d62d5110a8519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 36/45] fix: cmd: skip error nodes within import and include
 statements

---
 cmd/offline-typ/main.go | 2 ++
 cmd/update-typ/main.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 1cc30d2..2ff4e74 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -234,6 +234,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					continue
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
+			default:
+				continue // skip error nodes.
 			}
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 2364a47..60bb9fe 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -221,6 +221,8 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 					continue
 				}
 				leaf = l.Repr.(*syntax.LeafNode)
+			default:
+				continue // skip error nodes.
 			}
 			if leaf.Kind != syntax.SyntaxKindStr {
 				continue
-- 
2.43.0


From 9e8a245d4a9619e8b400a3718aefb88d0edc9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 37/45] fix: cmd: do not panic on import paths which are not Go
 string literals

---
 cmd/offline-typ/main.go | 3 ++-
 cmd/update-typ/main.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 2ff4e74..6852748 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -242,7 +242,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 			}
 			str, err := strconv.Unquote(leaf.Text)
 			if err != nil {
-				panic(err)
+				log.Printf("in %q, unable to unquote path %s; %v", relTypPath, leaf.Text, err)
+				return true // done with inner node
 			}
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 60bb9fe..aa07723 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -229,7 +229,8 @@ func findOldVersions(rootNode *syntax.SyntaxNode, relTypPath string, libName str
 			}
 			str, err := strconv.Unquote(leaf.Text)
 			if err != nil {
-				panic(err)
+				clog.Warnf("in %q, unable to unquote path %s; %v", relTypPath, leaf.Text, err)
+				return true // done with inner node
 			}
 			switch inner.Kind {
 			case syntax.SyntaxKindModuleImport:
-- 
2.43.0


From 3d30f42c3887e3c83ce66cead0351e1e7c6d35fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 38/45] fix: offline-typ: report package and font directory
 errors instead of panicking

---
 cmd/offline-typ/main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 6852748..7828dc6 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -204,6 +204,8 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		localTypPaths []string
 		// local resource paths to copy for offline use (e.g. images).
 		localResourcePaths []string
+		// first error encountered during CST walk.
+		walkErr error
 	)
 
 	// walk CST tree.
@@ -258,7 +260,10 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 				specs = append(specs, spec)
 				newPkgPath, err := getNewPkgPath(spec)
 				if err != nil {
-					panic(fmt.Errorf("unable to get new package path for package %q; %+v", spec.String(), errors.WithStack(err)))
+					if walkErr == nil {
+						walkErr = errors.Wrapf(err, "unable to get new package path for package %q", spec.String())
+					}
+					return true // done with inner node
 				}
 				leaf.Text = strconv.Quote(newPkgPath)
 				insertPkgRename(inner, i+1, spec.Name)
@@ -273,6 +278,9 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 		return true
 	}
 	cstwalk.Walk(rootNode, visitImports)
+	if walkErr != nil {
+		return nil, errors.WithStack(walkErr)
+	}
 
 	visitResourceFunc := func(n any) bool {
 		inner, ok := n.(*syntax.InnerNode)
@@ -696,6 +704,9 @@ func exist(root *os.Root, path string) bool {
 // copyDir copies the given directory to the root file system.
 func copyDir(root *os.Root, dir string) error {
 	visit := func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return errors.WithStack(err)
+		}
 		if info.IsDir() {
 			if err := root.MkdirAll(path, 0o755); err != nil {
 				return errors.WithStack(err)
-- 
2.43.0


From 11d9606f8dca9d3184f21aa90b9d57f43658123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 39/45] fix: update-typ: never downgrade, switch namespace or
 panic when no version is installed

---
 cmd/update-typ/main.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index aa07723..c9208aa 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -420,16 +420,16 @@ func parsePackageManifest(pkgRoot *os.Root) (*syntax.PackageManifest, error) {
 // return value indicates that a new version was available.
 func latestSpec(spec *syntax.PackageSpec) (*syntax.PackageSpec, bool) {
 	verSpecs := findVersions(spec)
-	latestSpec := verSpecs[0]
-	for _, verSpec := range verSpecs[1:] {
+	latestSpec := spec
+	for _, verSpec := range verSpecs {
+		if verSpec.Namespace != spec.Namespace {
+			continue
+		}
 		if greaterThan(verSpec.Version, latestSpec.Version) {
 			latestSpec = verSpec
 		}
 	}
-	if latestSpec.Version == spec.Version {
-		return spec, false
-	}
-	return latestSpec, true
+	return latestSpec, latestSpec != spec
 }
 
 // greaterThan reports whether version a is greater than version b.
-- 
2.43.0


From 259ace90d3c1016243f353f0afcecda467e8edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:07 +0000
Subject: [PATCH 40/45] fix: update-typ: consider every installed version of a
 package

---
 cmd/update-typ/main.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index c9208aa..1b3ad0d 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -464,17 +464,18 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 				if path != packageDir {
 					versionRaw := info.Name()
 					version, err := syntax.ParsePackageVersion(versionRaw)
-					if err != nil {
-						return errors.WithStack(err)
+					if err == nil {
+						verSpec := &syntax.PackageSpec{
+							Namespace: namespace,
+							Name:      spec.Name,
+							Version:   version,
+						}
+						verSpecs = append(verSpecs, verSpec)
 					}
-					verSpec := &syntax.PackageSpec{
-						Namespace: namespace,
-						Name:      spec.Name,
-						Version:   version,
-					}
-					verSpecs = append(verSpecs, verSpec)
 					// don't traverse into subdirectories.
-					return filepath.SkipDir
+					if info.IsDir() {
+						return filepath.SkipDir
+					}
 				}
 			}
 			return nil
-- 
2.43.0


From 1b7c7d796c2f8148f29a303b7738e3d9c8d1d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 41/45] fix: update-typ: look up packages in their own
 namespace only

---
 cmd/update-typ/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index 1b3ad0d..c3871d1 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -492,6 +492,9 @@ func findVersions(spec *syntax.PackageSpec) []*syntax.PackageSpec {
 func getPackageDir(spec *syntax.PackageSpec) (string, error) {
 	packagesDirs := getPackagesDirs()
 	for _, packagesDir := range packagesDirs {
+		if filepath.Base(packagesDir) != spec.Namespace {
+			continue
+		}
 		packageDir := filepath.Join(packagesDir, spec.Name, spec.Version.String())
 		if exists(packageDir) {
 			return packageDir, nil
-- 
2.43.0


From 43085480278e3b8be5319483bc1fc40c9510a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 42/45] fix: do not separate a hash from its embedded
 expression on incremental reparse

---
 typst/syntax/reparser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/typst/syntax/reparser.go b/typst/syntax/reparser.go
index 83c2c74..446bc87 100644
--- a/typst/syntax/reparser.go
+++ b/typst/syntax/reparser.go
@@ -131,8 +131,9 @@ func try_reparse(
 			start--
 		}
 
-		// Expand to the right.
-		for end < uint(len(children)) && expand(children[end]) {
+		// Expand to the right. A hash must not be separated from the embedded
+		// code expression which follows it.
+		for end < uint(len(children)) && (expand(children[end]) || children[end-1].kind() == SyntaxKindHash) {
 			end++
 		}
 
-- 
2.43.0


From 2259c8a697c955077af0278f6a9c9756baab62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 43/45] fix: show the path in the text of a file id

---
 typst/syntax/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typst/syntax/file.go b/typst/syntax/file.go
index 878abbb..b9bedd5 100644
--- a/typst/syntax/file.go
+++ b/typst/syntax/file.go
@@ -146,6 +146,6 @@ func (id FileID) String() string {
 	if spec, ok := id.Spec().Get(); ok {
 		fmt.Fprintf(out, "%v", spec)
 	}
-	fmt.Fprintf(out, "%v", vpath)
+	out.WriteString(vpath.Path)
 	return out.String()
 }
-- 
2.43.0


From 739cd2570ac46712bfc2ff0009209a8ffb00ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 44/45] fix: cmd: accept the root directory as project root

---
 cmd/offline-typ/main.go | 2 +-
 cmd/update-typ/main.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 7828dc6..4c5dbfe 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -650,7 +650,7 @@ func stripPrefix(path, prefix string) (string, error) {
 	path = filepath.Clean(path)
 	prefix = filepath.Clean(prefix)
 	sep := fmt.Sprintf("%c", filepath.Separator)
-	prefixParts := strings.Split(prefix, sep)
+	prefixParts := strings.Split(strings.TrimSuffix(prefix, sep), sep) // the root directory ends with a separator.
 	pathParts := strings.Split(path, sep)
 	if len(pathParts) < len(prefixParts) {
 		return "", errors.Errorf("project root (%q) not a prefix of Typst file %q", prefix, path)
diff --git a/cmd/update-typ/main.go b/cmd/update-typ/main.go
index c3871d1..9638193 100644
--- a/cmd/update-typ/main.go
+++ b/cmd/update-typ/main.go
@@ -566,7 +566,7 @@ func stripPrefix(path, prefix string) (string, error) {
 	path = filepath.Clean(path)
 	prefix = filepath.Clean(prefix)
 	sep := fmt.Sprintf("%c", filepath.Separator)
-	prefixParts := strings.Split(prefix, sep)
+	prefixParts := strings.Split(strings.TrimSuffix(prefix, sep), sep) // the root directory ends with a separator.
 	pathParts := strings.Split(path, sep)
 	if len(pathParts) < len(prefixParts) {
 		return "", errors.Errorf("project root (%q) not a prefix of Typst file %q", prefix, path)
-- 
2.43.0


From 96a727724c78545089e92370be8554b96aa659b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:36 +0000
Subject: [PATCH 45/45] fix: offline-typ: copy the bibliography style also
 after other named arguments

---
 cmd/offline-typ/main.go | 68 +++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 36 deletions(-)

diff --git a/cmd/offline-typ/main.go b/cmd/offline-typ/main.go
index 4c5dbfe..d81a520 100644
--- a/cmd/offline-typ/main.go
+++ b/cmd/offline-typ/main.go
@@ -322,13 +322,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if kv, ok := findFirstNamed(args.Children, "style"); ok {
+						cslPath := kv.Value
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -372,13 +370,11 @@ func rewrite(outRoot, projectRoot *os.Root, relTypPath string) ([]*syntax.Packag
 					localResourcePaths = append(localResourcePaths, localResourcePath)
 				}
 				if foundFunc == "bibliography" {
-					if kv, ok := findFirstNamed(args.Children); ok {
-						if kv.Key == "style" {
-							cslPath := kv.Value
-							localResourcePath := getRelLocalPath(relTypDir, cslPath)
-							if exist(projectRoot, localResourcePath) {
-								localResourcePaths = append(localResourcePaths, localResourcePath)
-							}
+					if kv, ok := findFirstNamed(args.Children, "style"); ok {
+						cslPath := kv.Value
+						localResourcePath := getRelLocalPath(relTypDir, cslPath)
+						if exist(projectRoot, localResourcePath) {
+							localResourcePaths = append(localResourcePaths, localResourcePath)
 						}
 					}
 				}
@@ -450,29 +446,29 @@ type KeyValuePair struct {
 	Value string
 }
 
-// findFirstNamed returns the key-value pair of the first named pair node.
-func findFirstNamed(nodes []*syntax.SyntaxNode) (KeyValuePair, bool) {
-	node, ok := findFirst(nodes, syntax.SyntaxKindNamed)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	inner, ok := node.Repr.(*syntax.InnerNode)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	key, ok := findFirstIdent(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	value, ok := findFirstStr(inner.Children)
-	if !ok {
-		return KeyValuePair{}, false
-	}
-	kv := KeyValuePair{
-		Key:   key,
-		Value: value,
+// findFirstNamed returns the key-value pair of the first named pair node with
+// the given key.
+func findFirstNamed(nodes []*syntax.SyntaxNode, name string) (KeyValuePair, bool) {
+	for _, node := range nodes {
+		inner, ok := node.Repr.(*syntax.InnerNode)
+		if !ok || inner.Kind != syntax.SyntaxKindNamed {
+			continue
+		}
+		key, ok := findFirstIdent(inner.Children)
+		if !ok || key != name {
+			continue
+		}
+		value, ok := findFirstStr(inner.Children)
+		if !ok {
+			return KeyValuePair{}, false
+		}
+		kv := KeyValuePair{
+			Key:   key,
+			Value: value,
+		}
+		return kv, true
 	}
-	return kv, true
+	return KeyValuePair{}, false
 }
 
 // findFirstIdent returns the name of the first identifier node.
-- 
2.43.0

