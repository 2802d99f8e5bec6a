From eb12118005fb9d729a939020b6e89269dd1a2d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 01/22] fix: report malformed expressions as errors instead of
 panicking

latex.ParseExpr and mtex.Parse document an error result but let the
parser's and the layout handlers' panics escape to the caller.
---
 mtex/parser.go | 9 ++++++++-
 parser.go      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index fd53aad..b680678 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -42,7 +42,14 @@ func newParser(be font.Backend) *parser {
 	return p
 }
 
-func (p *parser) parse(x string, size, dpi float64) (tex.Node, error) {
+func (p *parser) parse(x string, size, dpi float64) (box tex.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			box = nil
+			err = fmt.Errorf("could not lay out latex expression %q: %v", x, e)
+		}
+	}()
+
 	p.expr = x
 	node, err := latex.ParseExpr(x)
 	if err != nil {
diff --git a/parser.go b/parser.go
index 7cee11f..11ee45e 100644
--- a/parser.go
+++ b/parser.go
@@ -13,7 +13,14 @@ import (
 )
 
 // ParseExpr parses a simple LaTeX expression.
-func ParseExpr(x string) (ast.Node, error) {
+func ParseExpr(x string) (node ast.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			node = nil
+			err = fmt.Errorf("could not parse latex expression: %v", e)
+		}
+	}()
+
 	p := newParser(x)
 	return p.parse()
 }
-- 
2.43.0


From ff67bec0a39143e32372ff0307c1257061462995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 02/22] fix: return an error when a box tree cannot be output

mtex.Render panicked when a backend could not draw a glyph of the laid
out expression, e.g. for `\frac{\ }{b}`.
---
 mtex/render.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mtex/render.go b/mtex/render.go
index d4bc351..ad1378a 100644
--- a/mtex/render.go
+++ b/mtex/render.go
@@ -34,8 +34,10 @@ func Render(dst Renderer, expr string, size, dpi float64, fonts *ttf.Fonts) erro
 		return fmt.Errorf("could not parse math expression: %w", err)
 	}
 
-	var sh tex.Ship
-	sh.Call(0, 0, box.(tex.Tree))
+	err = ship(box.(tex.Tree))
+	if err != nil {
+		return fmt.Errorf("could not ship math expression: %w", err)
+	}
 
 	w := box.Width()
 	h := box.Height()
@@ -48,3 +50,16 @@ func Render(dst Renderer, expr string, size, dpi float64, fonts *ttf.Fonts) erro
 
 	return nil
 }
+
+// ship outputs the box tree to the canvas of its backend.
+func ship(box tex.Tree) (err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("could not output boxes: %v", e)
+		}
+	}()
+
+	var sh tex.Ship
+	sh.Call(0, 0, box)
+	return nil
+}
-- 
2.43.0


From 4b7cc1f54488efc106761aae384d520dbeca0729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 03/22] fix: skip ignorable tokens before a sub/superscript
 operand

`$x_ i$` yielded a Sub node with a nil operand, on which End and Walk
panic, and attached the operand to the enclosing list.
---
 parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 11ee45e..9a7a314 100644
--- a/parser.go
+++ b/parser.go
@@ -270,7 +270,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 		}
 		hat.Node = list
 	default:
-		hat.Node = p.parseNode(p.next())
+		hat.Node = p.parseOperand()
 	}
 
 	return hat
@@ -300,12 +300,24 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 		}
 		sub.Node = list
 	default:
-		sub.Node = p.parseNode(p.next())
+		sub.Node = p.parseOperand()
 	}
 
 	return sub
 }
 
+// parseOperand parses the next node, skipping tokens that produce none
+// (comments, blanks in math mode.)
+func (p *parser) parseOperand() ast.Node {
+	for p.s.Next() {
+		node := p.parseNode(p.s.tok)
+		if node != nil {
+			return node
+		}
+	}
+	panic("missing sub/superscript operand")
+}
+
 func (p *parser) parseSymbol(tok token.Token) ast.Node {
 	return &ast.Symbol{
 		SymPos: tok.Pos,
-- 
2.43.0


From c23e52131f2cac92d511bcf0e3f2d63e12ceff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 04/22] fix: reject unterminated groups

An unclosed math expression, argument or brace group was silently
accepted, with a zero closing position.
---
 parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser.go b/parser.go
index 9a7a314..e9971bf 100644
--- a/parser.go
+++ b/parser.go
@@ -76,6 +76,14 @@ func (p *parser) expect(v rune) {
 	}
 }
 
+// checkClosed makes sure a group ended on its closing delimiter
+// and not because the input was exhausted.
+func (p *parser) checkClosed() {
+	if p.s.tok.Kind == token.EOF {
+		panic("unexpected end of input: missing closing delimiter")
+	}
+}
+
 func (p *parser) parseNode(tok token.Token) ast.Node {
 	switch tok.Kind {
 	case token.Comment:
@@ -165,6 +173,7 @@ loop:
 			math.List = append(math.List, node)
 		}
 	}
+	p.checkClosed()
 
 	return math
 }
@@ -212,6 +221,7 @@ loop:
 			arg.List = append(arg.List, node)
 		}
 	}
+	p.checkClosed()
 	macro.Args = append(macro.Args, &arg)
 }
 
@@ -240,6 +250,7 @@ loop:
 			opt.List = append(opt.List, node)
 		}
 	}
+	p.checkClosed()
 	macro.Args = append(macro.Args, &opt)
 }
 
@@ -268,6 +279,7 @@ func (p *parser) parseSup(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.checkClosed()
 		hat.Node = list
 	default:
 		hat.Node = p.parseOperand()
@@ -298,6 +310,7 @@ func (p *parser) parseSub(tok token.Token) ast.Node {
 				list = append(list, node)
 			}
 		}
+		p.checkClosed()
 		sub.Node = list
 	default:
 		sub.Node = p.parseOperand()
@@ -352,5 +365,6 @@ loop:
 			lst = append(lst, node)
 		}
 	}
+	p.checkClosed()
 	return lst
 }
-- 
2.43.0


From aba470105ba2fa5486b8a58b16b54c63fc554ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 05/22] fix: make End return the position after a node's
 closing delimiter

Node.End is the position of the first character after the node.
---
 ast/ast.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 4205a29..27df9c1 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -67,7 +67,7 @@ type Arg struct {
 }
 
 func (x *Arg) Pos() token.Pos { return x.Lbrace }
-func (x *Arg) End() token.Pos { return x.Rbrace }
+func (x *Arg) End() token.Pos { return x.Rbrace + 1 }
 func (x *Arg) isNode()        {}
 
 // OptArg is an optional argument of a macro
@@ -80,7 +80,7 @@ type OptArg struct {
 }
 
 func (x *OptArg) Pos() token.Pos { return x.Lbrack }
-func (x *OptArg) End() token.Pos { return x.Rbrack }
+func (x *OptArg) End() token.Pos { return x.Rbrack + 1 }
 func (x *OptArg) isNode()        {}
 
 type Ident struct {
@@ -105,7 +105,7 @@ type MathExpr struct {
 
 func (x *MathExpr) isNode()        {}
 func (x *MathExpr) Pos() token.Pos { return x.Left }
-func (x *MathExpr) End() token.Pos { return x.Right }
+func (x *MathExpr) End() token.Pos { return token.Pos(int(x.Right) + len(x.Delim)) }
 
 type Word struct {
 	WordPos token.Pos
-- 
2.43.0


From aaa4108432ffde68c07b44edb27eeaab77ade0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 06/22] fix: stop shrinking after the last size level

The size level was decremented by Shrink but checked against an upper
bound, so nodes got smaller for ever.
---
 tex/box.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index e433113..5416b5b 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -111,7 +111,7 @@ func newBox(w, h, d float64) *Box {
 func (*Box) Kerning(next Node) float64 { return 0 }
 
 func (box *Box) Shrink() {
-	box.size--
+	box.size++
 	if box.size < numSizeLevels {
 		box.width *= shrinkFactor
 		box.height *= shrinkFactor
@@ -120,7 +120,7 @@ func (box *Box) Shrink() {
 }
 
 func (box *Box) Grow() {
-	box.size++
+	box.size--
 	box.width *= growFactor
 	box.height *= growFactor
 	box.depth *= growFactor
@@ -231,7 +231,7 @@ func (c *Char) Kerning(next Node) float64 {
 }
 
 func (box *Char) Shrink() {
-	box.size--
+	box.size++
 	if box.size < numSizeLevels {
 		box.font.Size *= shrinkFactor
 		box.width *= shrinkFactor
@@ -241,7 +241,7 @@ func (box *Char) Shrink() {
 }
 
 func (box *Char) Grow() {
-	box.size++
+	box.size--
 	box.font.Size *= growFactor
 	box.width *= growFactor
 	box.height *= growFactor
@@ -794,14 +794,14 @@ func newGlue(w, st float64, sto int, sh float64, sho int) *Glue {
 func (g *Glue) Kerning(next Node) float64 { return 0 }
 
 func (g *Glue) Shrink() {
-	g.size--
+	g.size++
 	if g.size < numSizeLevels {
 		g.width *= shrinkFactor
 	}
 }
 
 func (g *Glue) Grow() {
-	g.size++
+	g.size--
 	g.width *= growFactor
 }
 
@@ -872,14 +872,14 @@ func (k *Kern) String() string { return fmt.Sprintf("k%.02f", k.width) }
 func (k *Kern) Kerning(next Node) float64 { return 0 }
 
 func (k *Kern) Shrink() {
-	k.size--
+	k.size++
 	if k.size < numSizeLevels {
 		k.width *= shrinkFactor
 	}
 }
 
 func (k *Kern) Grow() {
-	k.size++
+	k.size--
 	k.width *= growFactor
 }
 
-- 
2.43.0


From 5ab61b8d228352cf8442a5253a0758dfdb567e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 07/22] fix: accept single non-ASCII runes in math mode

len counts bytes: only ASCII runes were recognized.
---
 internal/tex2unicode/utf8.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 9ce7822..b01cf63 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -29,11 +29,8 @@ func Index(v string, math bool) rune {
 		return 0x2212
 	}
 
-	if len(v) == 1 {
-		r, _ := utf8.DecodeRune([]byte(v))
-		if r != utf8.RuneError {
-			return r
-		}
+	if r, n := utf8.DecodeRune([]byte(v)); n == len(v) && r != utf8.RuneError {
+		return r
 	}
 
 	r, ok := tex2uni[strings.Replace(v, `\`, "", 1)]
-- 
2.43.0


From 8eeb12865b6d1c8254ca9bbb351949fb6c1c5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 08/22] fix: lay out brace groups nested in a math expression

The visitor did not descend into the lists of a math expression, so the
content of `${ab}$` was silently dropped.
---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index b680678..52e2898 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -110,7 +110,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.state.Font.Type = rcparams("mathtext.default").(string)
 
 		for _, x := range n.List {
-			v.Visit(x)
+			ast.Walk(v, x)
 		}
 		v.math = oldm
 		v.state.Font.Type = oldt
-- 
2.43.0


From 002fbc541dbb50ebe92952fd3122ee75d218655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 09/22] fix: map leftbrace to U+007B

It was mapped to U+007C, the vertical line.
---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index b01cf63..b8ebc12 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -604,7 +604,7 @@ var (
 		`bigoplus`:                 10753,
 		`leftangle`:                10216,
 		`rightangle`:               10217,
-		`leftbrace`:                124,
+		`leftbrace`:                123,
 		`rightbrace`:               125,
 		`jmath`:                    567,
 		`bigodot`:                  10752,
-- 
2.43.0


From a8b14a551836c5364bc5c8ab2cc0844a1a0bd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 10/22] fix: advance past every box of a vertical list

A box without depth (such as a vertical space) was packed in the height
of its list but not advanced over when the list was output.
---
 tex/box.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tex/box.go b/tex/box.go
index 5416b5b..91c0aae 100644
--- a/tex/box.go
+++ b/tex/box.go
@@ -1151,8 +1151,8 @@ func (ship *Ship) vlistOut(box Tree) {
 				ruleWidth = box.Width()
 			}
 			ruleHeight += ruleDepth
-			if ruleHeight > 0 && ruleDepth > 0 {
-				ship.cur.v += ruleHeight
+			ship.cur.v += ruleHeight
+			if ruleHeight > 0 && ruleWidth > 0 {
 				type renderXYWH interface {
 					render(x, y, w, h float64)
 				}
-- 
2.43.0


From 4def98a32f9e6b7e1e37e53dfe138e35b6a606b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 11/22] fix: keep control spaces of math expressions

`\ ` is an explicit space; it was dropped like a blank.
---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index e9971bf..5288385 100644
--- a/parser.go
+++ b/parser.go
@@ -118,8 +118,8 @@ func (p *parser) parseNode(tok token.Token) ast.Node {
 			panic("not implemented: " + tok.String())
 		}
 	case token.Space:
-		switch p.state {
-		case mathState:
+		switch {
+		case p.state == mathState && tok.Text == " ":
 			return nil
 		default:
 			return p.parseSymbol(tok)
-- 
2.43.0


From 0356e9216b6e39ce962fd8ddc511943e09417b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 12/22] fix: locate decimal separators by their own position

The first '.' of the expression was looked at instead.
---
 mtex/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 52e2898..52ff685 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -16,6 +16,7 @@ import (
 	"github.com/go-latex/latex/internal/tex2unicode"
 	"github.com/go-latex/latex/mtex/symbols"
 	"github.com/go-latex/latex/tex"
+	"github.com/go-latex/latex/token"
 )
 
 // Parse parses a LaTeX math expression and returns the TeX-like box model
@@ -98,8 +99,8 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 		v.nodes = append(v.nodes, tex.HListOf(nodes, true))
 	case *ast.Literal:
 		h := handlerFunc(handleSymbol)
-		for _, c := range n.Text {
-			n := &ast.Literal{Text: string(c)}
+		for i, c := range n.Text {
+			n := &ast.Literal{LitPos: n.LitPos + token.Pos(i), Text: string(c)}
 			v.nodes = append(v.nodes, h.Handle(v.p, n, v.state, v.math))
 		}
 
@@ -230,7 +231,6 @@ func handleSymbol(p *parser, node ast.Node, state tex.State, math bool) tex.Node
 	case symbols.PunctuationSymbols.Has(sym):
 		switch sym {
 		case ".":
-			pos := strings.Index(p.expr[pos:], sym)
 			if (pos > 0 && isdigit(p.expr[pos-1])) &&
 				(pos < len(p.expr)-1 && isdigit(p.expr[pos+1])) {
 				// do not space dots as decimal separators.
-- 
2.43.0


From 83bd0d8801f682709afc43a9ddd095f01bd42278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 13/22] fix: scale kerning with the font size

---
 font/ttf/ttf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index ef16811..c06fa48 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -251,7 +251,7 @@ func (be *Backend) Kern(ft1 font.Font, sym1 string, ft2 font.Font, sym2 string,
 		const math = true
 		info1 := be.getInfo(sym1, ft1, dpi, math)
 		info2 := be.getInfo(sym2, ft2, dpi, math)
-		scale := fixed.Int26_6(info1.font.UnitsPerEm())
+		scale := fixed.Int26_6(ft1.Size * 64)
 		var buf sfnt.Buffer
 		k, err := info1.font.Kern(&buf, info1.glyph, info2.glyph, scale, hintingNone)
 		if err != nil {
-- 
2.43.0


From 5d19db07b97b4e108474c4544206b458ada76cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 14/22] fix: lay out control spaces outside of math expressions
 as spaces

They were drawn as a backslash.
---
 mtex/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 52ff685..400b1c5 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -82,7 +82,7 @@ func (v *visitor) Visit(n ast.Node) ast.Visitor {
 	case ast.List:
 	case *ast.Symbol:
 		switch {
-		case v.math:
+		case v.math, n.Text == `\ `:
 			h := v.p.handler(n.Text)
 			if h == nil {
 				panic("no handler for symbol [" + n.Text + "]")
-- 
2.43.0


From f095f3d6554f15849c83e3c96226816091ae9c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 15/22] fix: make the x-height positive for every font

Fonts with a recent OS/2 table have a positive x-height, that was negated.
---
 font/ttf/ttf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/font/ttf/ttf.go b/font/ttf/ttf.go
index c06fa48..8a8c358 100644
--- a/font/ttf/ttf.go
+++ b/font/ttf/ttf.go
@@ -8,6 +8,7 @@ package ttf // import "github.com/go-latex/latex/font/ttf"
 import (
 	"errors"
 	"fmt"
+	"math"
 	"unicode"
 
 	"github.com/go-latex/latex/drawtex"
@@ -188,7 +189,8 @@ func (be *Backend) XHeight(fnt font.Font, dpi float64) float64 {
 	}
 	defer face.Close()
 
-	return float64(-face.Metrics().XHeight) / 64
+	// the sign of the face's x-height depends on the version of the OS/2 table.
+	return math.Abs(float64(face.Metrics().XHeight)) / 64
 }
 
 const (
-- 
2.43.0


From e09549cc8c11c1604234e11dd7f2fef576444501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 16/22] fix: lay out the argument of a function

The argument of `\exp{x}` was silently dropped.
---
 mtex/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mtex/parser.go b/mtex/parser.go
index 400b1c5..399e4ed 100644
--- a/mtex/parser.go
+++ b/mtex/parser.go
@@ -294,12 +294,16 @@ func handleCustomSpace(p *parser, node ast.Node, state tex.State, math bool) tex
 
 func handleFunction(p *parser, node ast.Node, state tex.State, math bool) tex.Node {
 	macro := node.(*ast.Macro)
+	args := state
 	state.Font.Type = "rm"
 	fun := macro.Name.Name[1:] // drop leading `\`
-	nodes := make([]tex.Node, 0, len(fun))
+	nodes := make([]tex.Node, 0, len(fun)+len(macro.Args))
 	for _, c := range fun {
 		nodes = append(nodes, tex.NewChar(string(c), state, math))
 	}
+	for _, arg := range macro.Args {
+		nodes = append(nodes, p.handleNode(arg.(*ast.Arg).List, args, math))
+	}
 	return tex.HListOf(nodes, true)
 }
 
-- 
2.43.0


From 9c3d1436b25db0fa48dce78919d84c868950de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 17/22] fix: refuse expressions nested too deeply

Parsing them exhausted the stack, which terminates the process.
---
 parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser.go b/parser.go
index 5288385..fc870df 100644
--- a/parser.go
+++ b/parser.go
@@ -32,9 +32,14 @@ const (
 	mathState
 )
 
+// maxDepth is the maximum nesting depth of an expression.
+// Deeper expressions could exhaust the stack, which can not be recovered from.
+const maxDepth = 10000
+
 type parser struct {
 	s     *texScanner
 	state state
+	depth int // current nesting depth
 
 	macros map[string]macroParser
 }
@@ -85,6 +90,12 @@ func (p *parser) checkClosed() {
 }
 
 func (p *parser) parseNode(tok token.Token) ast.Node {
+	if p.depth >= maxDepth {
+		panic("expression nested too deeply")
+	}
+	p.depth++
+	defer func() { p.depth-- }()
+
 	switch tok.Kind {
 	case token.Comment:
 		return nil
-- 
2.43.0


From cff7de97f199ae8ade3b6f382a553c5915ee1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 18/22] fix: map lnapprox and gnapprox to the characters they
 name

---
 internal/tex2unicode/utf8.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index b8ebc12..c6b6ac4 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -84,8 +84,8 @@ var (
 		`succnapprox`:              0x2aba,
 		`subsetneqq`:               0x2acb,
 		`supsetneqq`:               0x2acc,
-		`lnapprox`:                 0x2ab9,
-		`gnapprox`:                 0x2aba,
+		`lnapprox`:                 0x2a89,
+		`gnapprox`:                 0x2a8a,
 		`longleftarrow`:            0x27f5,
 		`longrightarrow`:           0x27f6,
 		`longleftrightarrow`:       0x27f7,
-- 
2.43.0


From 46b73e6c7d31311b6673531a26328e847995d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 19/22] fix: do not write scanner diagnostics to standard error

---
 scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index d524ec1..369e0d8 100644
--- a/scanner.go
+++ b/scanner.go
@@ -27,7 +27,9 @@ func newScanner(r io.Reader) *texScanner {
 	sc.sc.Mode = (scanner.ScanIdents | scanner.ScanInts | scanner.ScanFloats)
 	sc.sc.Mode |= scanner.ScanStrings
 	//scanner.ScanRawStrings)
-	//	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
+	// do not write diagnostics to os.Stderr: malformed tokens are either
+	// valid TeX (such as "08") or rejected by the parser.
+	sc.sc.Error = func(s *scanner.Scanner, msg string) {}
 	sc.sc.IsIdentRune = func(ch rune, i int) bool {
 		return unicode.IsLetter(ch) //|| unicode.IsDigit(ch) && i > 0
 	}
-- 
2.43.0


From 413a4dfcd8c98b09457088eae34b332cbf5dd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 20/22] fix: map \| to the double vertical line

---
 internal/tex2unicode/utf8.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index c6b6ac4..0851624 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -121,7 +121,7 @@ var (
 		`succnsim`:                 8937,
 		`gimel`:                    8503,
 		`vert`:                     124,
-		`|`:                        124,
+		`|`:                        8214,
 		`varrho`:                   1009,
 		`P`:                        182,
 		`approxident`:              8779,
-- 
2.43.0


From c7a3b1123ead00dd59e62d4e976ea67ad72120d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 21/22] fix: tex2unicode: do not take the backslash of a name
 for a character in text mode

---
 internal/tex2unicode/utf8.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/tex2unicode/utf8.go b/internal/tex2unicode/utf8.go
index 0851624..3ea77e0 100644
--- a/internal/tex2unicode/utf8.go
+++ b/internal/tex2unicode/utf8.go
@@ -14,11 +14,13 @@ import (
 // Index associates a LaTeX symbol or unicode letter to a unicode rune.
 func Index(v string, math bool) rune {
 	if !math {
-		r, _ := utf8.DecodeRune([]byte(v))
+		r, n := utf8.DecodeRune([]byte(v))
 		if r == utf8.RuneError {
 			panic(fmt.Errorf("tex: invalid rune %q", v))
 		}
-		return r
+		if n == len(v) {
+			return r
+		}
 	}
 	// From UTF #25: U+2212 minus sign is the preferred
 	// representation of the unary and binary minus sign rather than
-- 
2.43.0


From 824ec1e7516bcb19fa5d1af0ae90b2e6b6789709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 22/22] fix: drawimg: report images that can not be drawn as
 errors, not as panics

---
 drawtex/drawimg/drawimg.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/drawtex/drawimg/drawimg.go b/drawtex/drawimg/drawimg.go
index ba57410..a0b876d 100644
--- a/drawtex/drawimg/drawimg.go
+++ b/drawtex/drawimg/drawimg.go
@@ -29,7 +29,14 @@ func NewRenderer(w io.Writer) *Renderer {
 	return &Renderer{w: w}
 }
 
-func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) error {
+func (r *Renderer) Render(width, height, dpi float64, c *drawtex.Canvas) (err error) {
+	// images may be too large for the drawing library.
+	defer func() {
+		if e := recover(); e != nil {
+			err = fmt.Errorf("could not draw image: %v", e)
+		}
+	}()
+
 	var (
 		w   = width * dpi
 		h   = height * dpi
-- 
2.43.0

