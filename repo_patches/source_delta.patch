From 3511043e19ebf2bd2269306598384d948ad7ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 01/32] fix: describe the left margin with its own value

---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From 880dd1dffcc33b0b31d713766ac2d4e5137ee1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 02/32] fix: report style differences of a description in a
 stable order

---
 xdoc/diff.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xdoc/diff.go b/xdoc/diff.go
index 64be1a6..135903e 100644
--- a/xdoc/diff.go
+++ b/xdoc/diff.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/json"
+	"sort"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -30,7 +31,14 @@ func interfaceDiff(path string, org interface{}, mod interface{}) ([]Diff, error
 	diffs := []Diff{}
 	switch org := org.(type) {
 	case map[string]interface{}:
-		for orgKey, orgVal := range org {
+		keys := make([]string, 0, len(org))
+		for orgKey := range org {
+			keys = append(keys, orgKey)
+		}
+		//map iteration is random - keep the order of diffs stable
+		sort.Strings(keys)
+		for _, orgKey := range keys {
+			orgVal := org[orgKey]
 			modMSI, ok := mod.(map[string]interface{})
 			if !ok {
 				return nil, errors.Errorf("%s: org value is map-string-iface. mod is %T", path, mod)
-- 
2.43.0


From 30a201761d1a9b55131e2526723ff3d747b111ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 03/32] fix: hyphenation neither loses a final letter nor cuts
 inside a letter

---
 hyphenation/hyphenation.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..29e0e90 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -63,22 +63,24 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 		}
 	}
 
+	//weights are per rune - offs maps them to positions in s
+	offs := []int{}
+	for o := range s {
+		offs = append(offs, o)
+	}
+
 	sl := []string{}
 	var last int
 	//skip first and last for the dots (.).
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
 		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
-				sl = append(sl, part)
+			//neither split off nor drop a single letter
+			if i+1-last > 1 && len(offs)-(i+1) > 1 {
+				sl = append(sl, s[offs[last]:offs[i+1]])
 				last = i + 1
 			}
 		}
 	}
-	part := s[last:]
-	if len(part) > 1 {
-		sl = append(sl, part)
-	}
-	return sl
+	return append(sl, s[offs[last]:])
 }
-- 
2.43.0


From 076cdf6cb8c431fafae8ab066d2279ba6f11fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 04/32] fix: an explicit line break ends the paragraph of the
 line it is in

---
 text-hyph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..b3d11cc 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -38,10 +38,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From bc60425e7c5b61500b71e4244d25d04bd76cc695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 05/32] fix: blank inline content adds no word to block-aligned
 text

---
 text-hyph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index b3d11cc..86032b1 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -55,6 +55,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		default:
 			continue
 		}
+		if isitem.text == "" {
+			continue
+		}
 
 		p.changeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
-- 
2.43.0


From 1a9e6fbd709ac41d3d181aa5e5b7c1b2c17d2666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 06/32] fix: an overlong word starting a line leaves no blank
 line before it

---
 text-hyph.go | 9 +++++++--
 text.go      | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 86032b1..9ffd76b 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -72,9 +72,14 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 				//try hyphenation
 				s1, s2, ok := tryHyphenate(item.text, curr.width)
 				if !ok {
-					lines = append(lines, curr)
-					curr = textLine{}
+					if len(curr.items) > 0 {
+						lines = append(lines, curr)
+						curr = textLine{}
+					}
 				} else {
+					if len(curr.items) == 0 {
+						s1 = strings.TrimPrefix(s1, " ")
+					}
 					curr.items = append(curr.items, &textItem{
 						text: s1,
 						sty:  item.sty,
diff --git a/text.go b/text.go
index 773dd4d..bb24df9 100644
--- a/text.go
+++ b/text.go
@@ -62,7 +62,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 				text: word,
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
-			if curr.width+itemWidth >= width {
+			if curr.width+itemWidth >= width && len(curr.items) > 0 {
 				lines = append(lines, curr)
 				curr = textLine{}
 			}
-- 
2.43.0


From 70fd3420229a0801c181af5491ce696c607f15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 07/32] fix: offset and padding count when deciding whether a
 box fits on the page

---
 process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index b523714..0ca41f9 100644
--- a/process.go
+++ b/process.go
@@ -191,7 +191,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height >= effHeight {
+	boxHeight := sty.Dimension.OffsetY + sty.Padding.Top + height + sty.Padding.Bottom
+	if !p.preventPageBreak && y0+boxHeight >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
-- 
2.43.0


From 779e2e1421e53277f00e9f46efabdd6598d3607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:15 +0000
Subject: [PATCH 08/32] fix: header rows are not repeated before header rows

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7f9a8eb..1efa12f 100644
--- a/table.go
+++ b/table.go
@@ -383,7 +383,7 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 		if !p.preventPageBreak && y+row.maxCellHeight() > page.printableArea.y1 {
 			p.engine.AddPage()
 			_, y = p.engine.GetXY()
-			if i > 0 && xtab.RepeatHeader > 0 {
+			if i >= xtab.RepeatHeader {
 				for rhr := 0; rhr < xtab.RepeatHeader; rhr++ {
 					if rhr >= 0 && rhr < len(tab.rows) {
 						renderRow(tab.rows[rhr])
-- 
2.43.0


From 4d7dc683a533f81d7cfc2b7c10126f4f5de9c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 09/32] fix: newpage in a header or footer does not recurse
 endlessly

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 0ca41f9..a24a8dd 100644
--- a/process.go
+++ b/process.go
@@ -139,7 +139,9 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
-			p.engine.AddPage()
+			if !p.preventPageBreak {
+				p.engine.AddPage()
+			}
 		}
 	}
 }
-- 
2.43.0


From ad842268741fe2683d70b60b50f3e6b3e4117c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 10/32] fix: lines with an unrecognised alignment are
 left-aligned

---
 text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/text.go b/text.go
index bb24df9..9f647f1 100644
--- a/text.go
+++ b/text.go
@@ -95,7 +95,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 	xLeft, _ := p.engine.GetXY()
 	for _, line := range lines {
 		switch sty.HAlign {
-		case style.HAlignLeft:
+		default: //style.HAlignLeft:
 			p.engine.SetX(xLeft)
 		case style.HAlignCenter:
 			p.engine.SetX(xLeft + (width-line.width)/2.0)
-- 
2.43.0


From 42609545e7c6a12c8231e68f848f4d32d2d81ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:19 +0000
Subject: [PATCH 11/32] fix: every box and image of a cell starts at the cell's
 left edge

---
 process.go | 2 ++
 table.go   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index a24a8dd..d5fd256 100644
--- a/process.go
+++ b/process.go
@@ -211,6 +211,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 		p.writeTextFnc(sty)(box.ISS, width, sty)
 	}
 	p.engine.SetY(y1)
+	lm, _, _, _ := p.engine.Margins()
+	p.engine.SetX(lm)
 }
 
 //
diff --git a/table.go b/table.go
index 1efa12f..fc71348 100644
--- a/table.go
+++ b/table.go
@@ -416,8 +416,8 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.writeTextFnc(cell.Styles)(cell.iss, pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)
 	}
 
-	p.engine.SetX(paddedPa.x0)
 	for _, is := range cell.iss {
+		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
 			height := p.textBoxHeight(is, paddedPa)
-- 
2.43.0


From af5c652f92c820c6e24c074c5b87f0f0773f491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 12/32] fix: text height and line feeds follow the fonts of the
 lines, not the last font used

---
 text-hyph.go |  6 ++----
 text.go      | 34 ++++++++++++++++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 9ffd76b..8f2b431 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -112,10 +112,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 
 func (p *Processor) textHeightHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
-	lines := p.textLinesHyphenated(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(p.textLinesHyphenated(iss, width, sty), sty)
 }
 
 func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) {
@@ -141,6 +138,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 				p.engine.SetX(cx + spaceWidth)
 			}
 		}
+		p.engine.ChangeFont(line.font(sty))
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
diff --git a/text.go b/text.go
index 9f647f1..a7c6a6b 100644
--- a/text.go
+++ b/text.go
@@ -20,6 +20,34 @@ type textLine struct {
 	paragraph     bool
 }
 
+// font returns the highest font used on the line (or the one of sty, if the line is empty)
+func (l textLine) font(sty style.Styles) style.Font {
+	if len(l.items) == 0 {
+		return sty.Font
+	}
+	fnt := l.items[0].sty.Font
+	for _, item := range l.items {
+		if item.sty.PointSize > fnt.PointSize {
+			fnt = item.sty.Font
+		}
+	}
+	return fnt
+}
+
+// linesHeight has line-spacing between the lines, but no space below the last line
+func (p *Processor) linesHeight(lines []textLine, sty style.Styles) float64 {
+	var height float64
+	for i, line := range lines {
+		p.engine.ChangeFont(line.font(sty))
+		if i < len(lines)-1 {
+			height += p.engine.FontHeight() * sty.Dimension.LineSpacing
+		} else {
+			height += p.engine.FontHeight()
+		}
+	}
+	return height
+}
+
 func (p *Processor) words(s string) []string {
 	return strings.Split(s, " ")
 }
@@ -82,10 +110,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 
 func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
-	lines := p.textLines(iss, width, sty)
-	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
-	//subtract line-spacing, to have no space below the last line
-	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
+	return p.linesHeight(p.textLines(iss, width, sty), sty)
 }
 
 func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.Styles) {
@@ -106,6 +131,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.changeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
+		p.engine.ChangeFont(line.font(sty))
 		p.engine.LineFeed(sty.LineSpacing)
 	}
 }
-- 
2.43.0


From 3861715bfcfd795bd7ad809af426da9f125aac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 13/32] fix: a box without any text is one line of its own font
 high

---
 process.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/process.go b/process.go
index d5fd256..6b0d2e8 100644
--- a/process.go
+++ b/process.go
@@ -161,15 +161,18 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	defer p.resetStyles()
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
 	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
-	var height float64
-	if sty.Dimension.Height <= 0 {
-		if len(box.ISS) == 0 {
-			height = p.engine.FontHeight()
-		} else {
-			height = p.textHeightFnc(sty)(box.ISS, width, sty)
-		}
-	} else {
-		height = sty.Dimension.Height
+	return p.boxContentHeight(box, width, sty)
+}
+
+func (p *Processor) boxContentHeight(box *xdoc.Box, width float64, sty style.Styles) float64 {
+	if sty.Dimension.Height > 0 {
+		return sty.Dimension.Height
+	}
+	height := p.textHeightFnc(sty)(box.ISS, width, sty)
+	if height == 0 {
+		//no text at all
+		p.engine.ChangeFont(sty.Font)
+		height = p.engine.FontHeight()
 	}
 	return height
 }
@@ -179,16 +182,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
 
 	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
-	var height float64
-	if sty.Dimension.Height <= 0 {
-		if len(box.ISS) > 0 {
-			height = p.textHeightFnc(sty)(box.ISS, width, sty)
-		} else {
-			height = p.engine.FontHeight()
-		}
-	} else {
-		height = sty.Dimension.Height
-	}
+	height := p.boxContentHeight(box, width, sty)
 
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
-- 
2.43.0


From ef57d32c6141b4746d226b0d87b8fcb8583e7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 14/32] fix: cells are high enough for the boxes in them and
 align them vertically

---
 process.go |  2 +-
 table.go   | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/process.go b/process.go
index 6b0d2e8..98efb48 100644
--- a/process.go
+++ b/process.go
@@ -161,7 +161,7 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	defer p.resetStyles()
 	sty := box.MutatedStyles(p.doc.StyleClasses(), p.currStyles)
 	width := pa.EffectiveWidth(sty.Width) - sty.Padding.Left - sty.Padding.Right
-	return p.boxContentHeight(box, width, sty)
+	return sty.Padding.Top + p.boxContentHeight(box, width, sty) + sty.Padding.Bottom
 }
 
 func (p *Processor) boxContentHeight(box *xdoc.Box, width float64, sty style.Styles) float64 {
diff --git a/table.go b/table.go
index fc71348..5544efd 100644
--- a/table.go
+++ b/table.go
@@ -254,7 +254,17 @@ func (p *Processor) assignCellMinHeight(cell *tableCell) {
 
 	textHeight := p.textHeightFnc(cell.Styles)(cell.iss, availableWidth, cell.Styles)
 
-	cellHeight := textHeight + cell.Padding.Top + cell.Padding.Bottom
+	contentHeight := textHeight
+	for _, is := range cell.iss {
+		if box, ok := is.(*xdoc.Box); ok {
+			boxHeight := p.textBoxHeight(box, PrintableArea{x1: availableWidth})
+			if boxHeight > contentHeight {
+				contentHeight = boxHeight
+			}
+		}
+	}
+
+	cellHeight := contentHeight + cell.Padding.Top + cell.Padding.Bottom
 
 	// if cell spans rows, divide height to spanned cells
 	heightPerCell := cellHeight / float64(1+len(cell.spansRows))
@@ -401,7 +411,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
@@ -423,9 +433,9 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 			height := p.textBoxHeight(is, paddedPa)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + height/2)
+				p.engine.SetY(paddedPa.y0 + (paddedPa.Height()-height)/2)
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + height)
+				p.engine.SetY(paddedPa.y0 + paddedPa.Height() - height)
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0


From 87cb55e7eb4051040b8fe2983cc1823bae884a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 15/32] fix: a box in a table cell does not start a page in the
 middle of the row

---
 table.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/table.go b/table.go
index 5544efd..5d4c959 100644
--- a/table.go
+++ b/table.go
@@ -407,6 +407,10 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 }
 
 func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
+	//boxes in the cell must not break the row
+	defer func(prevent bool) { p.preventPageBreak = prevent }(p.preventPageBreak)
+	p.preventPageBreak = true
+
 	p.drawBox(pa.x0, pa.y0, pa.x1, pa.y1, cell.Styles)
 
 	paddedPa := pa.WithPadding(cell.Padding)
-- 
2.43.0


From 2d7c360b67c3a874e7de940c43b1e27fd380ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 16/32] fix: fonts of texts, boxes and cells do not leak into
 what follows

---
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 8f2b431..6c764f7 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -59,7 +59,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -125,14 +125,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index a7c6a6b..e48d54e 100644
--- a/text.go
+++ b/text.go
@@ -82,7 +82,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -128,7 +128,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + width - line.width)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.engine.ChangeFont(line.font(sty))
-- 
2.43.0


From 57fd154084e1b9c920264ff7c414da123e7c682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 17/32] fix: headers and footers start from the default style
 and keep their fonts to themselves

---
 process.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/process.go b/process.go
index 98efb48..2d6ffd0 100644
--- a/process.go
+++ b/process.go
@@ -52,20 +52,28 @@ func (p *Processor) Process(w io.Writer) error {
 	p.engine.SetPageCountAlias("{np}")
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
+		p.currStyles = DefaultStyle()
+		p.resetStyles()
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Header)
 	})
 	p.engine.OnFooter(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
+		p.currStyles = DefaultStyle()
+		p.resetStyles()
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
+			p.currStyles = styles
 			p.preventPageBreak = false
 		}()
 		p.processInstructions(p.doc.Footer)
-- 
2.43.0


From b43da68f9ebf2b21a0db34729a2e0dc0bd6d151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 18/32] fix: page breaks stay suppressed in a cell after a
 header or footer was drawn inside it

---
 process.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 2d6ffd0..57699b6 100644
--- a/process.go
+++ b/process.go
@@ -55,12 +55,13 @@ func (p *Processor) Process(w io.Writer) error {
 		styles := p.currStyles
 		p.currStyles = DefaultStyle()
 		p.resetStyles()
+		prevent := p.preventPageBreak
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.currStyles = styles
-			p.preventPageBreak = false
+			p.preventPageBreak = prevent
 		}()
 		p.processInstructions(p.doc.Header)
 	})
@@ -69,12 +70,13 @@ func (p *Processor) Process(w io.Writer) error {
 		styles := p.currStyles
 		p.currStyles = DefaultStyle()
 		p.resetStyles()
+		prevent := p.preventPageBreak
 		p.preventPageBreak = true
 		defer func() {
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.currStyles = styles
-			p.preventPageBreak = false
+			p.preventPageBreak = prevent
 		}()
 		p.processInstructions(p.doc.Footer)
 	})
-- 
2.43.0


From e6c3ae5f7b17cba9d613279edbeb702967287f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 19/32] fix: inline paragraphs are set in their own text colour

---
 text-hyph.go | 2 ++
 text.go      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 6c764f7..c2c7bcd 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -126,6 +126,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(item.text)
 			}
 		} else {
@@ -133,6 +134,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index e48d54e..ec7610b 100644
--- a/text.go
+++ b/text.go
@@ -129,6 +129,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
+			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
 		p.engine.ChangeFont(line.font(sty))
-- 
2.43.0


From fd4a8c5e3095b489c5b8d6e42b73693351236260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 20/32] fix: cells spanning rows and columns do not overlap or
 displace other cells

---
 table.go | 108 +++++++++++++++++++++++++++----------------------------
 1 file changed, 53 insertions(+), 55 deletions(-)

diff --git a/table.go b/table.go
index 5d4c959..77c6580 100644
--- a/table.go
+++ b/table.go
@@ -156,9 +156,12 @@ func (tab *table) normalize() {
 	}
 	for _, row := range tab.rows {
 		for len(row.cells) < tab.columnCount {
-			row.cells = append(row.cells, &tableCell{
-				zero: true,
-			})
+			row.cells = append(row.cells, nil)
+		}
+		for ic, cell := range row.cells {
+			if cell == nil {
+				row.cells[ic] = &tableCell{zero: true}
+			}
 		}
 	}
 	for ir, row := range tab.rows {
@@ -169,71 +172,66 @@ func (tab *table) normalize() {
 	}
 }
 
-func (t *table) processColumnSpans() {
-	for _, row := range t.rows {
-		newCells := []*tableCell{}
-		for _, cell := range row.cells {
-			newCells = append(newCells, cell)
-			if cell.colSpan <= 1 {
-				continue
-			}
-			for s := 0; s < cell.colSpan-1; s++ {
-				spannedCell := &tableCell{
-					spannedBy: cell,
-				}
-				spannedCell.rowSpan = cell.rowSpan
-				newCells = append(newCells, spannedCell)
-				cell.spansCols = append(cell.spansCols, spannedCell)
-			}
+// placeCells puts each cell of the row on the first free columns and covers the positions it spans
+func (t *table) placeCells(ir int, cells []*tableCell) {
+	at := func(ir, ic int) *tableCell {
+		if ir < len(t.rows) && ic < len(t.rows[ir].cells) {
+			return t.rows[ir].cells[ic]
 		}
-		row.cells = newCells
+		return nil
+	}
+	put := func(ir, ic int, cell *tableCell) {
+		for ir >= len(t.rows) {
+			t.rows = append(t.rows, &tableRow{})
+		}
+		row := t.rows[ir]
+		for ic >= len(row.cells) {
+			row.cells = append(row.cells, nil)
+		}
+		row.cells[ic] = cell
 	}
-}
 
-func (t *table) processRowSpans() {
-	for ir, row := range t.rows {
-		for ic, cell := range row.cells {
-			if cell.rowSpan <= 1 {
-				continue
-			}
-			if cell.spannedBy != nil || cell.zero {
-				continue
+	ic := 0
+	for _, cell := range cells {
+		for free := 0; free == 0 || free < cell.colSpan; {
+			if at(ir, ic+free) == nil {
+				free++
+			} else {
+				ic += free + 1
+				free = 0
 			}
-			//insert spanned cell in following rows
-			for n := 0; n < cell.rowSpan-1; n++ {
-				spannedRowIdx := ir + 1 + n
-
-				var spannedRow *tableRow
-				if spannedRowIdx >= len(t.rows) {
-					spannedRow = &tableRow{}
-					t.rows = append(t.rows, spannedRow)
-				} else {
-					spannedRow = t.rows[spannedRowIdx]
-				}
-				for ic > len(spannedRow.cells) {
-					spannedRow.cells = append(spannedRow.cells, &tableCell{
-						zero: true,
-					})
+		}
+		put(ir, ic, cell)
+		for r := 0; r == 0 || r < cell.rowSpan; r++ {
+			for c := 0; c == 0 || c < cell.colSpan; c++ {
+				if r == 0 && c == 0 {
+					continue
 				}
-
-				newCell := &tableCell{
+				spannedCell := &tableCell{
 					spannedBy: cell,
 				}
-				cell.spansRows = append(cell.spansRows, newCell)
-
-				newCells := make([]*tableCell, ic)
-				copy(newCells, spannedRow.cells[:ic])
-				newCells = append(newCells, newCell)
-				newCells = append(newCells, spannedRow.cells[ic:]...)
-				spannedRow.cells = newCells
+				put(ir+r, ic+c, spannedCell)
+				if r == 0 {
+					cell.spansCols = append(cell.spansCols, spannedCell)
+				}
+				if c == 0 {
+					cell.spansRows = append(cell.spansRows, spannedCell)
+				}
 			}
 		}
+		ic++
 	}
 }
 
 func (t *table) processSpans() {
-	t.processColumnSpans()
-	t.processRowSpans()
+	rows := make([][]*tableCell, len(t.rows))
+	for ir, row := range t.rows {
+		rows[ir] = row.cells
+		row.cells = nil
+	}
+	for ir, cells := range rows {
+		t.placeCells(ir, cells)
+	}
 	t.normalize()
 }
 
-- 
2.43.0


From ef5a2e238d0eb08fd12737ee4c03fe455b62b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 21/32] fix: invalid content of table cells and grids is
 reported, not dropped

---
 xdoc/grid.go     | 12 ++++++++++--
 xdoc/registry.go |  5 +++++
 xdoc/table.go    |  6 +++++-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index d0b9aa2..52df643 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -61,9 +61,13 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return g.Validate()
 			}
 		case xml.StartElement:
+			if !registry.knows(t) {
+				//skip the tag, but not what is in it
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			switch i := i.(type) {
 			case *GridPart:
@@ -117,9 +121,13 @@ func (p *GridPart) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.knows(t) {
+				//skip the tag, but not what is in it
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			p.Instructions.ISS = append(p.Instructions.ISS, i)
 		}
diff --git a/xdoc/registry.go b/xdoc/registry.go
index da8391d..7260395 100644
--- a/xdoc/registry.go
+++ b/xdoc/registry.go
@@ -65,6 +65,11 @@ func (r *Registry) RegisterInstruction(prototype Instruction) error {
 	return nil
 }
 
+func (r *Registry) knows(start xml.StartElement) bool {
+	_, contains := r.instructions[start.Name.Local]
+	return contains
+}
+
 func (r *Registry) DecodeInstruction(d *xml.Decoder, start xml.StartElement) (Instruction, error) {
 	proto, contains := r.instructions[start.Name.Local]
 	if !contains {
diff --git a/xdoc/table.go b/xdoc/table.go
index a280462..b583f9a 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -124,9 +124,13 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.knows(t) {
+				//skip the tag, but not what is in it
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			cell.Instructions.ISS = append(cell.Instructions.ISS, i)
 		case xml.CharData:
-- 
2.43.0


From 7d7e6c88db9184bc0f7dea4f0206b4cb8a9f1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 22/32] fix: loading hyphenation patterns reports read errors

---
 hyphenation/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..208cee9 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -92,5 +92,8 @@ func parsePatterns(r io.Reader) (*patternLookup, error) {
 		}
 		pl.patterns[string(p.Letters)] = p
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, errors.Wrap(err, "scan patterns")
+	}
 	return pl, nil
 }
-- 
2.43.0


From fff067668fdf066a41f0685e828e223db8b35de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 23/32] fix: border, padding and margin with more than four
 numbers are rejected

---
 style/box.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/style/box.go b/style/box.go
index 22bf403..906078c 100644
--- a/style/box.go
+++ b/style/box.go
@@ -35,25 +35,37 @@ type Box struct {
 }
 
 func (b *Border) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan border value (%s)", v)
 	}
+	if buf.Len() > 0 {
+		return errors.Errorf("scan border value (%s): unexpected %q", v, buf.String())
+	}
 	return nil
 }
 
 func (b *Padding) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan padding value (%s)", v)
 	}
+	if buf.Len() > 0 {
+		return errors.Errorf("scan padding value (%s): unexpected %q", v, buf.String())
+	}
 	return nil
 }
 
 func (b *Margin) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan margin value (%s)", v)
 	}
+	if buf.Len() > 0 {
+		return errors.Errorf("scan margin value (%s): unexpected %q", v, buf.String())
+	}
 	return nil
 }
-- 
2.43.0


From fe8f0e52820c21aed06ca2204652876388ada990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 24/32] fix: text in grid parts is loaded, not dropped

---
 xdoc/grid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index 52df643..979be6a 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -130,6 +130,10 @@ func (p *GridPart) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return err
 			}
 			p.Instructions.ISS = append(p.Instructions.ISS, i)
+		case xml.CharData:
+			p.Instructions.ISS = append(p.Instructions.ISS, &TextBlock{
+				Text: string(t),
+			})
 		}
 	}
 }
-- 
2.43.0


From 21e5918ccbd4a50f787a34f6dbd11ab8e3e59c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 25/32] fix: registering a font that cannot be used is an error

---
 engine/fpdf.go | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index c24e082..d07eb10 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -1,6 +1,7 @@
 package engine
 
 import (
+	"encoding/binary"
 	"io"
 	"io/ioutil"
 
@@ -106,14 +107,53 @@ func (e *FPDF) initFonts(fonts *font.Registry) error {
 		default:
 			sty = ""
 		}
-		e.pdf.AddUTF8FontFromBytes(fd.Name, sty, bs)
-		if e.pdf.Error() != nil {
-			return e.pdf.Error()
+		err = e.addFont(fd.Name, sty, bs)
+		if err != nil {
+			return errors.Wrapf(err, "add font %q", fd.FilePath)
 		}
 		return nil
 	})
 }
 
+func (e *FPDF) addFont(name, sty string, bs []byte) (err error) {
+	if truncatedFont(bs) {
+		return errors.Errorf("font file is truncated")
+	}
+	//the font parser panics on malformed fonts
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("parse font: %v", r)
+		}
+	}()
+	e.pdf.AddUTF8FontFromBytes(name, sty, bs)
+	if e.pdf.Error() != nil {
+		return e.pdf.Error()
+	}
+	//fonts which cannot be parsed are left out without an error
+	if e.pdf.GetFontDesc(name, sty) == (gofpdf.FontDescType{}) {
+		return errors.Errorf("not a valid truetype font")
+	}
+	return nil
+}
+
+// truncatedFont checks if all tables listed in the table directory are within the file
+func truncatedFont(bs []byte) bool {
+	if len(bs) < 12 {
+		return true
+	}
+	for i, n := 0, int(binary.BigEndian.Uint16(bs[4:])); i < n; i++ {
+		record := 12 + 16*i
+		if len(bs) < record+16 {
+			return true
+		}
+		offset, length := binary.BigEndian.Uint32(bs[record+8:]), binary.BigEndian.Uint32(bs[record+12:])
+		if uint64(offset)+uint64(length) > uint64(len(bs)) {
+			return true
+		}
+	}
+	return false
+}
+
 func (e *FPDF) Error() error {
 	return e.pdf.Error()
 }
-- 
2.43.0


From e89c9b9f06027b458557af93468f8b8cdf42fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 26/32] fix: descriptions include rows, cells and parts outside
 of tables and grids

---
 xdoc/describe.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 3d44d56..8268303 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -273,8 +273,16 @@ func (desc *Description) describeInstructions(iss Instructions) []DescribeItem {
 			})
 		case *Table:
 			dis = append(dis, desc.describeTable(is)...)
+		case *TableRow:
+			dis = append(dis, desc.describeTableRow(is)...)
+		case *TableCell:
+			dis = append(dis, desc.describeTableCell(is)...)
 		case *Grid:
 			dis = append(dis, desc.describeGrid(is)...)
+		case *GridRow:
+			dis = append(dis, desc.describeGridRow(is)...)
+		case *GridPart:
+			dis = append(dis, desc.describeGridPart(is)...)
 		}
 	}
 	return dis
-- 
2.43.0


From 44e30e13afde0eb89739d100f7549ed79ca415ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 27/32] fix: decoding style classes prints nothing into the
 output of the commands

---
 style/class.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/style/class.go b/style/class.go
index 8c255fd..d4f59d7 100644
--- a/style/class.go
+++ b/style/class.go
@@ -2,7 +2,6 @@ package style
 
 import (
 	"bytes"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -94,7 +93,6 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 					Name:    selName,
 					mutator: mut,
 				}
-				fmt.Printf("added selector (%s) to class (%s) \n", selName, className)
 			} else {
 				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
 			}
-- 
2.43.0


From 6562aa85d61bdc6afe159bcafb90455a9d72726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:33 +0000
Subject: [PATCH 28/32] fix: the describe and image commands report that their
 output could not be written

---
 cmd/describe/main.go | 6 +++++-
 cmd/image/main.go    | 8 +++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/cmd/describe/main.go b/cmd/describe/main.go
index 599bba6..235b12b 100644
--- a/cmd/describe/main.go
+++ b/cmd/describe/main.go
@@ -22,5 +22,9 @@ func main() {
 		os.Exit(2)
 	}
 	desc := xdoc.Describe(doc)
-	fmt.Printf("%s\n", desc.Dump(xdoc.DescribeXML))
+	_, err = fmt.Printf("%s\n", desc.Dump(xdoc.DescribeXML))
+	if err != nil {
+		fmt.Fprintln(os.Stderr, "ERROR: write description:", err)
+		os.Exit(2)
+	}
 }
diff --git a/cmd/image/main.go b/cmd/image/main.go
index e111f75..492e9a0 100644
--- a/cmd/image/main.go
+++ b/cmd/image/main.go
@@ -28,7 +28,9 @@ func main() {
 		fmt.Println("ERROR: decode config:", err)
 		os.Exit(2)
 	}
-	fmt.Printf("Source: %q\n", src)
-	fmt.Printf("Format: %q\n", format)
-	fmt.Printf("Dim   : w=%d, h=%d\n", cfg.Width, cfg.Height)
+	_, err = fmt.Printf("Source: %q\nFormat: %q\nDim   : w=%d, h=%d\n", src, format, cfg.Width, cfg.Height)
+	if err != nil {
+		fmt.Fprintln(os.Stderr, "ERROR: write description:", err)
+		os.Exit(2)
+	}
 }
-- 
2.43.0


From b0f4da618e3277a067d1070989c762fac207e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:54 +0000
Subject: [PATCH 29/32] fix: style values that are not finite numbers are
 refused

---
 style/box.go    |  6 ++++++
 style/decode.go | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/style/box.go b/style/box.go
index 906078c..7e9b44e 100644
--- a/style/box.go
+++ b/style/box.go
@@ -55,6 +55,9 @@ func (b *Padding) UnmarshalStyle(v string) error {
 	if buf.Len() > 0 {
 		return errors.Errorf("scan padding value (%s): unexpected %q", v, buf.String())
 	}
+	if !isFinite(b.Left, b.Top, b.Right, b.Bottom) {
+		return errors.Errorf("scan padding value (%s): not finite numbers", v)
+	}
 	return nil
 }
 
@@ -67,5 +70,8 @@ func (b *Margin) UnmarshalStyle(v string) error {
 	if buf.Len() > 0 {
 		return errors.Errorf("scan margin value (%s): unexpected %q", v, buf.String())
 	}
+	if !isFinite(b.Left, b.Top, b.Right, b.Bottom) {
+		return errors.Errorf("scan margin value (%s): not finite numbers", v)
+	}
 	return nil
 }
diff --git a/style/decode.go b/style/decode.go
index 8d178c7..04d1338 100644
--- a/style/decode.go
+++ b/style/decode.go
@@ -3,6 +3,7 @@ package style
 import (
 	"io"
 	"io/ioutil"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -136,6 +137,9 @@ func makeSetValueFnc(kind reflect.Kind, styleValue string) (func(v reflect.Value
 		if err != nil {
 			return nil, errors.Wrapf(err, "parse-float (%s)", styleValue)
 		}
+		if !isFinite(f) {
+			return nil, errors.Errorf("parse-float (%s): not a finite number", styleValue)
+		}
 		return func(v reflect.Value) {
 			v.SetFloat(f)
 		}, nil
@@ -160,6 +164,15 @@ func makeSetValueFnc(kind reflect.Kind, styleValue string) (func(v reflect.Value
 	}
 }
 
+func isFinite(fs ...float64) bool {
+	for _, f := range fs {
+		if math.IsNaN(f) || math.IsInf(f, 0) {
+			return false
+		}
+	}
+	return true
+}
+
 func appendedCopy(sl []int, a int) []int {
 	c := make([]int, len(sl)+1)
 	for i, v := range sl {
-- 
2.43.0


From af9f5323403d8069592f84026e122ac9a75a5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 30/32] fix: the page count is shown in registered fonts that
 write no digits otherwise

---
 engine/fpdf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index d07eb10..ad637c6 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -133,6 +133,11 @@ func (e *FPDF) addFont(name, sty string, bs []byte) (err error) {
 	if e.pdf.GetFontDesc(name, sty) == (gofpdf.FontDescType{}) {
 		return errors.Errorf("not a valid truetype font")
 	}
+	//only glyphs of texts written are embedded - the page count is put in later
+	e.pdf.CreateTemplate(func(tpl *gofpdf.Tpl) {
+		tpl.SetFont(name, sty, 12)
+		tpl.Text(0, 0, "0123456789")
+	})
 	return nil
 }
 
-- 
2.43.0


From 487f0034c6688aa283b90c96a9a43890122efaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 31/32] fix: a comment in a grid row dropped the areas before
 it

---
 xdoc/grid.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index 979be6a..c0558fa 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -80,6 +80,7 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 }
 
 func (gr *GridRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var areas string
 	for {
 		token, err := d.Token()
 		if err != nil {
@@ -91,7 +92,9 @@ func (gr *GridRow) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return nil
 			}
 		case xml.CharData:
-			gr.Areas = strings.Split(string(t), " ")
+			//comments divide the text
+			areas += string(t)
+			gr.Areas = strings.Split(areas, " ")
 			if len(gr.Areas) == 0 {
 				return errors.Errorf("invalid grid-row without valid areas")
 			}
-- 
2.43.0


From 63f6896239dfcfbae611c23a69b70b91139f873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 32/32] fix: aligned content of a cell at the top edge of the
 page stays there

---
 table.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/table.go b/table.go
index 77c6580..7331c92 100644
--- a/table.go
+++ b/table.go
@@ -2,6 +2,7 @@ package xpdf
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
@@ -417,9 +418,9 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-			p.engine.SetY(paddedPa.y0 + textMargin/2)
+			p.engine.SetY(math.Max(0, paddedPa.y0+textMargin/2))
 		case style.VAlignBottom:
-			p.engine.SetY(paddedPa.y0 + textMargin)
+			p.engine.SetY(math.Max(0, paddedPa.y0+textMargin))
 		default: //style.VAlignTop:
 			p.engine.SetY(paddedPa.y0)
 		}
@@ -435,9 +436,9 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 			height := p.textBoxHeight(is, paddedPa)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + (paddedPa.Height()-height)/2)
+				p.engine.SetY(math.Max(0, paddedPa.y0+(paddedPa.Height()-height)/2))
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + paddedPa.Height() - height)
+				p.engine.SetY(math.Max(0, paddedPa.y0+paddedPa.Height()-height))
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0

