From 8cc4045f8deceae97be613d13cfb4c649e85621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 01/66] fix: valid ToUnicode maps and text strings for unused
 fonts, many glyphs and characters beyond the BMP

---
 gopdf.go       |  9 +++------
 unicode_map.go | 30 ++++++++++++++++--------------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 44c4435..e1e6370 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -16,6 +16,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 
 	"github.com/phpdave11/gofpdi"
 )
@@ -2377,12 +2378,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, u := range utf16.Encode([]rune(str)) {
+		fmt.Fprintf(&buff, "%04X", u)
 	}
 	return buff.String()
 }
diff --git a/unicode_map.go b/unicode_map.go
index 5094482..ee8740a 100644
--- a/unicode_map.go
+++ b/unicode_map.go
@@ -5,6 +5,9 @@ import (
 	"io"
 )
 
+// maxBfrangeEntries is the number of entries one bfrange section may have
+const maxBfrangeEntries = 100
+
 // UnicodeMap unicode map
 type UnicodeMap struct {
 	PtrToSubsetFontObj *SubsetFontObj
@@ -45,19 +48,11 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
 
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -67,15 +62,22 @@ func (u *UnicodeMap) write(w io.Writer, objID int) error {
 
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	fmt.Fprintf(buff, "<%04X><%04X>\n", lowIndex, hiIndex)
+	buff.WriteString("<0000><FFFF>\n") // codes are always two bytes
 	buff.WriteString("endcodespacerange\n")
-	fmt.Fprintf(buff, "%d beginbfrange\n", glyphIndexToCharacter.size())
 	indexs := glyphIndexToCharacter.allIndexs()
-	for _, k := range indexs {
-		v, _ := glyphIndexToCharacter.runeByIndex(k)
-		fmt.Fprintf(buff, "<%04X><%04X><%04X>\n", k, k, v)
+	for len(indexs) > 0 {
+		n := len(indexs)
+		if n > maxBfrangeEntries {
+			n = maxBfrangeEntries
+		}
+		fmt.Fprintf(buff, "%d beginbfrange\n", n)
+		for _, k := range indexs[:n] {
+			v, _ := glyphIndexToCharacter.runeByIndex(k)
+			fmt.Fprintf(buff, "<%04X><%04X><%s>\n", k, k, encodeUtf8(string(v)))
+		}
+		buff.WriteString("endbfrange\n")
+		indexs = indexs[n:]
 	}
-	buff.WriteString("endbfrange\n")
 	buff.WriteString(suffix)
 	buff.WriteString("\n")
 
-- 
2.43.0


From a2d08f446e679584817b920cfa6902f74d3be57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 02/66] fix: creation dates keep the minutes of the zone offset

---
 gopdf.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index e1e6370..65cca6d 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2385,8 +2385,12 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	if _, offset := t.Zone(); offset%60 != 0 {
+		// a PDF date has no seconds in its zone offset
+		t = t.In(time.FixedZone("", offset-offset%60))
+	}
+	zone := t.Format("-0700")
+	return t.Format("20060102150405") + zone[:3] + "'" + zone[3:] + "'"
 }
 
 // SetTransparency sets transparency.
-- 
2.43.0


From fc6ba1fc18447baaa3f5cb291d995b8648e0dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 03/66] fix: producing the output repeatedly gives the same
 document every time

---
 cache_content_imported_object.go |  4 ++--
 gopdf.go                         | 41 ++++++++++++++++----------------
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index a7dca9a..610ade4 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -15,7 +15,7 @@ type cacheContentImportedTemplate struct {
 }
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
-	c.tY += c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, c.tY, c.tplName)
+	tY := c.tY + c.pageHeight
+	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
 	return nil
 }
diff --git a/gopdf.go b/gopdf.go
index 65cca6d..458e61b 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1009,7 +1009,11 @@ func (gp *GoPdf) SetCharSpacing(charSpacing float64) error {
 
 // WritePdf : write pdf file
 func (gp *GoPdf) WritePdf(pdfPath string) error {
-	return os.WriteFile(pdfPath, gp.GetBytesPdf(), 0644)
+	data, err := gp.GetBytesPdfReturnErr()
+	if err != nil {
+		return err
+	}
+	return os.WriteFile(pdfPath, data, 0644)
 }
 
 // WriteTo implements the io.WriterTo interface and can
@@ -1028,9 +1032,11 @@ func (gp *GoPdf) Write(w io.Writer) error {
 
 func (gp *GoPdf) Read(p []byte) (int, error) {
 	if gp.buf.Len() == 0 && gp.buf.Cap() == 0 {
-		if _, err := gp.compilePdf(&gp.buf); err != nil {
+		data, err := gp.GetBytesPdfReturnErr()
+		if err != nil {
 			return 0, err
 		}
+		gp.buf = *bytes.NewBuffer(data)
 	}
 	return gp.buf.Read(p)
 }
@@ -1043,11 +1049,13 @@ func (gp *GoPdf) Close() error {
 
 func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 	gp.prepare()
-	err = gp.Close()
-	if err != nil {
-		return 0, err
+	pdfObjs := gp.pdfObjs
+	if gp.isUseProtection() {
+		// written last, it is no part of the document under construction
+		pdfObjs = append(pdfObjs[:len(pdfObjs):len(pdfObjs)], gp.pdfProtection.encryptionObj())
+		gp.encryptionObjID = len(pdfObjs)
 	}
-	max := len(gp.pdfObjs)
+	max := len(pdfObjs)
 	writer := newCountingWriter(w)
 	fmt.Fprint(writer, "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n")
 	linelens := make([]int64, max)
@@ -1056,7 +1064,7 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 	for i < max {
 		objID := i + 1
 		linelens[i] = writer.offset
-		pdfObj := gp.pdfObjs[i]
+		pdfObj := pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
 		pdfObj.write(writer, objID)
 		io.WriteString(writer, "endobj\n\n")
@@ -1085,12 +1093,9 @@ func (cw *countingWriter) Write(b []byte) (int, error) {
 
 // GetBytesPdfReturnErr : get bytes of pdf file
 func (gp *GoPdf) GetBytesPdfReturnErr() ([]byte, error) {
-	err := gp.Close()
-	if err != nil {
-		return nil, err
-	}
-	_, err = gp.compilePdf(&gp.buf)
-	return gp.buf.Bytes(), err
+	var buf bytes.Buffer
+	_, err := gp.compilePdf(&buf)
+	return buf.Bytes(), err
 }
 
 // GetBytesPdf : get bytes of pdf file
@@ -2236,11 +2241,6 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
-		encObj := gp.pdfProtection.encryptionObj()
-		gp.addObj(encObj)
-	}
-
 	if gp.outlines.Count() > 0 {
 		catalogObj := gp.pdfObjs[gp.indexOfCatalogObj].(*CatalogObj)
 		catalogObj.SetIndexObjOutlines(gp.indexOfOutlinesObj)
@@ -2249,6 +2249,8 @@ func (gp *GoPdf) prepare() {
 	if gp.indexOfPagesObj != -1 {
 		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -2258,6 +2260,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			case "Content":
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
@@ -2277,8 +2280,6 @@ func (gp *GoPdf) prepare() {
 					}
 					j++
 				}
-			case "Encryption":
-				gp.encryptionObjID = i + 1
 			}
 			i++
 		}
-- 
2.43.0


From 551a8875d28e326e1da45a1b72b778e517d8fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 04/66] fix: report write errors and short writes of the
 output's destination

---
 gopdf.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 458e61b..8b54309 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1066,18 +1066,24 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		linelens[i] = writer.offset
 		pdfObj := pdfObjs[i]
 		fmt.Fprintf(writer, "%d 0 obj\n", objID)
-		pdfObj.write(writer, objID)
+		if err := pdfObj.write(writer, objID); err != nil {
+			return writer.offset, err
+		}
 		io.WriteString(writer, "endobj\n\n")
+		if writer.err != nil {
+			return writer.offset, writer.err
+		}
 		i++
 	}
 	gp.xref(writer, writer.offset, linelens, i)
-	return writer.offset, nil
+	return writer.offset, writer.err
 }
 
 type (
 	countingWriter struct {
 		offset int64
 		writer io.Writer
+		err    error // the first error, it ends the output
 	}
 )
 
@@ -1086,8 +1092,15 @@ func newCountingWriter(w io.Writer) *countingWriter {
 }
 
 func (cw *countingWriter) Write(b []byte) (int, error) {
+	if cw.err != nil {
+		return 0, cw.err
+	}
 	n, err := cw.writer.Write(b)
 	cw.offset += int64(n)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	cw.err = err
 	return n, err
 }
 
-- 
2.43.0


From 65870c61a905a7fe93acbc4546baed8283722d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 05/66] fix: SetPage selects the page itself, blank pages and
 pages of other sizes included

---
 gopdf.go    | 24 +++++++++++++++---------
 page_obj.go |  2 ++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 8b54309..6373be5 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2260,7 +2260,6 @@ func (gp *GoPdf) prepare() {
 	}
 
 	if gp.indexOfPagesObj != -1 {
-		indexCurrPage := -1
 		pagesObj := gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
 		pagesObj.Kids = ""
 		pagesObj.PageCount = 0
@@ -2272,11 +2271,10 @@ func (gp *GoPdf) prepare() {
 			case "Page":
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
-				indexCurrPage = i
-				gp.pdfObjs[i].(*PageObj).Contents = ""
-			case "Content":
-				if indexCurrPage != -1 {
-					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
+				page := gp.pdfObjs[i].(*PageObj)
+				page.Contents = ""
+				if page.indexOfContent != -1 {
+					page.Contents = fmt.Sprintf(" %d 0 R ", page.indexOfContent+1)
 				}
 			case "Font":
 				tmpfont := gp.pdfObjs[i].(*FontObj)
@@ -2384,6 +2382,9 @@ func (gp *GoPdf) getContent() *ContentObj {
 			return gp
 		})
 		gp.indexOfContent = gp.addObj(content)
+		if gp.curr.IndexOfPageObj != -1 {
+			gp.pdfObjs[gp.curr.IndexOfPageObj].(*PageObj).indexOfContent = gp.indexOfContent
+		}
 	} else {
 		content = gp.pdfObjs[gp.indexOfContent].(*ContentObj)
 	}
@@ -2496,11 +2497,16 @@ func (gp *GoPdf) IsCurrFontContainGlyph(r rune) (bool, error) {
 func (gp *GoPdf) SetPage(pageno int) error {
 	var pageIndex int
 	for i := 0; i < len(gp.pdfObjs); i++ {
-		switch gp.pdfObjs[i].(type) {
-		case *ContentObj:
+		switch page := gp.pdfObjs[i].(type) {
+		case *PageObj:
 			pageIndex += 1
 			if pageIndex == pageno {
-				gp.indexOfContent = i
+				gp.indexOfContent = page.indexOfContent
+				gp.curr.IndexOfPageObj = i
+				gp.curr.pageSize = &gp.config.PageSize
+				if !page.pageOption.isEmpty() {
+					gp.curr.pageSize = page.pageOption.PageSize
+				}
 				return nil
 			}
 		}
diff --git a/page_obj.go b/page_obj.go
index a8e6463..9feebf7 100644
--- a/page_obj.go
+++ b/page_obj.go
@@ -13,11 +13,13 @@ type PageObj struct { //impl IObj
 	pageOption      PageOption
 	LinkObjIds      []int
 	getRoot         func() *GoPdf
+	indexOfContent  int // index of the page's content object, -1 until something is drawn
 }
 
 func (p *PageObj) init(funcGetRoot func() *GoPdf) {
 	p.getRoot = funcGetRoot
 	p.LinkObjIds = make([]int, 0)
+	p.indexOfContent = -1
 }
 
 func (p *PageObj) setOption(opt PageOption) {
-- 
2.43.0


From a7d83bd6c977ef372e33503c74cf5efc5d0a772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 06/66] fix: write the trim box of pages of the default size

---
 gopdf.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 6373be5..944b9e9 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -823,6 +823,10 @@ func (gp *GoPdf) AddPageWithOption(opt PageOption) {
 	} else { //use default
 		gp.curr.pageSize = &gp.config.PageSize
 		gp.curr.trimBox = &gp.config.TrimBox
+		if opt.isTrimBoxSet() {
+			gp.curr.trimBox = opt.TrimBox
+		}
+		page.setOption(PageOption{TrimBox: gp.curr.trimBox})
 	}
 
 	page.ResourcesRelate = strconv.Itoa(gp.indexOfProcSet+1) + " 0 R"
-- 
2.43.0


From 4f4684251a94c501504ab341867d9fdf00c8fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 07/66] fix: convert lengths by the document's unit wherever
 one is compared or passed on

---
 gopdf.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 944b9e9..a4e23a1 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -384,9 +384,9 @@ func (gp *GoPdf) GetX() float64 {
 func (gp *GoPdf) SetNewY(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -400,9 +400,9 @@ func (gp *GoPdf) SetNewY(y float64, h float64) {
 func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if y+h > gp.curr.pageSize.H-gp.MarginBottom() { // using new y(*y) instead of gp.curr.Y
+	if y+h > gp.curr.pageSize.H-gp.margins.Bottom { // using new y(*y) instead of gp.curr.Y
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 }
@@ -417,9 +417,9 @@ func (gp *GoPdf) SetNewYIfNoOffset(y float64, h float64) {
 func (gp *GoPdf) SetNewXY(y float64, x, h float64) {
 	gp.UnitsToPointsVar(&y)
 	gp.UnitsToPointsVar(&h)
-	if gp.curr.Y+h > gp.curr.pageSize.H-gp.MarginBottom() {
+	if gp.curr.Y+h > gp.curr.pageSize.H-gp.margins.Bottom {
 		gp.AddPage()
-		y = gp.MarginTop() // reset to top of the page.
+		y = gp.margins.Top // reset to top of the page.
 	}
 	gp.curr.Y = y
 	gp.SetX(x)
@@ -489,7 +489,7 @@ func (gp *GoPdf) SetXY(x, y float64) {
 func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
 
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 
 	imageOptions := ImageOptions{
 		X:    x,
@@ -503,7 +503,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) error {
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -525,7 +525,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 		}
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
-		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.UnitsToPoints(gp.config.Unit)
+		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
@@ -733,7 +733,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 // Image : draw image
 func (gp *GoPdf) Image(picPath string, x float64, y float64, rect *Rect) error {
 	gp.UnitsToPointsVar(&x, &y)
-	rect = rect.UnitsToPoints(gp.config.Unit)
+	rect = rect.unitsToPoints(gp.config)
 	imgh, err := ImageHolderByPath(picPath)
 	if err != nil {
 		return err
@@ -763,7 +763,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 	}
 
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
-	opts.Rect = opts.Rect.UnitsToPoints(gp.config.Unit)
+	opts.Rect = opts.Rect.unitsToPoints(gp.config)
 	r, w := io.Pipe()
 	go func() {
 		bw := bufio.NewWriter(w)
@@ -805,8 +805,8 @@ func (gp *GoPdf) AddPage() {
 
 // AddPageWithOption  : add new page with option
 func (gp *GoPdf) AddPageWithOption(opt PageOption) {
-	opt.TrimBox = opt.TrimBox.UnitsToPoints(gp.config.Unit)
-	opt.PageSize = opt.PageSize.UnitsToPoints(gp.config.Unit)
+	opt.TrimBox = opt.TrimBox.unitsToPoints(gp.config)
+	opt.PageSize = opt.PageSize.unitsToPoints(gp.config)
 
 	page := new(PageObj)
 	page.init(func() *GoPdf {
@@ -1151,7 +1151,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 		opt.extGStateIndexes = append(opt.extGStateIndexes, transparency.extGStateIndex)
 	}
 
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	text, err = gp.curr.FontISubset.AddChars(text)
 	if err != nil {
 		return err
@@ -1166,7 +1166,7 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
 func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
-	rectangle = rectangle.UnitsToPoints(gp.config.Unit)
+	rectangle = rectangle.unitsToPoints(gp.config)
 	defaultopt := CellOption{
 		Align:  Left | Top,
 		Border: 0,
@@ -1329,7 +1329,7 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 		if l%2 != 0 {
 			shiftLines += 1
 		}
-		startHeight = rectangle.H - (lineHeight+1.5)*float64(shiftLines)
+		startHeight = rectangle.H - (lineHeight+gp.PointsToUnits(1.5))*float64(shiftLines)
 	}
 
 	lastLine := len(textSplits) - 1
-- 
2.43.0


From ea86fd16ed70215d04adabd4162d0b3e60ee0e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 08/66] fix: convert crop and mask box options by the
 document's unit and leave the caller's mask options alone

---
 gopdf.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index a4e23a1..bbf28ed 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -123,6 +123,15 @@ type CropOptions struct {
 	Height float64
 }
 
+func (c *CropOptions) unitsToPoints(unitCfg unitConfigurator) *CropOptions {
+	if c == nil {
+		return nil
+	}
+	crop := *c
+	unitsToPointsVar(unitCfg, &crop.X, &crop.Y, &crop.Width, &crop.Height)
+	return &crop
+}
+
 type ImageOptions struct {
 	DegreeAngle    float64
 	VerticalFlip   bool
@@ -504,6 +513,7 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	gp.UnitsToPointsVar(&opts.X, &opts.Y)
 
 	opts.Rect = opts.Rect.unitsToPoints(gp.config)
+	opts.Crop = opts.Crop.unitsToPoints(gp.config)
 
 	imageTransparency, err := gp.getCachedTransparency(opts.Transparency)
 	if err != nil {
@@ -515,6 +525,9 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 	}
 
 	if opts.Mask != nil {
+		mask := *opts.Mask // the caller's mask options stay as they are
+		opts.Mask = &mask
+
 		maskTransparency, err := gp.getCachedTransparency(opts.Mask.ImageOptions.Transparency)
 		if err != nil {
 			return err
@@ -526,6 +539,12 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 
 		gp.UnitsToPointsVar(&opts.Mask.ImageOptions.X, &opts.Mask.ImageOptions.Y)
 		opts.Mask.ImageOptions.Rect = opts.Mask.ImageOptions.Rect.unitsToPoints(gp.config)
+		opts.Mask.ImageOptions.Crop = opts.Mask.ImageOptions.Crop.unitsToPoints(gp.config)
+		if opts.Mask.BBox != nil {
+			bbox := *opts.Mask.BBox
+			gp.UnitsToPointsVar(&bbox[0], &bbox[1], &bbox[2], &bbox[3])
+			opts.Mask.BBox = &bbox
+		}
 
 		extGStateIndex, err := gp.maskHolder(opts.Mask.Holder, *opts.Mask)
 		if err != nil {
-- 
2.43.0


From 1e3b305ccf321c77387802f07c4d1a297154602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 09/66] fix: images reused as mask, masked or plain image and
 at their natural size keep their own appearance

---
 current.go |  5 +++-
 gopdf.go   | 73 +++++++++++++++++++++++++++++++++---------------------
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/current.go b/current.go
index fe1313a..b7637fe 100644
--- a/current.go
+++ b/current.go
@@ -68,5 +68,8 @@ func (c *Current) textColor() ICacheColorText {
 type ImageCache struct {
 	Path  string //ID or Path
 	Index int
-	Rect  *Rect
+	Rect  *Rect // natural size of the image
+
+	isMask       bool
+	splittedMask bool
 }
diff --git a/gopdf.go b/gopdf.go
index bbf28ed..f60e49f 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -558,32 +558,28 @@ func (gp *GoPdf) ImageByHolderWithOptions(img ImageHolder, opts ImageOptions) er
 }
 
 func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
-	var cacheImage *ImageCache
 	var cacheContentImage *cacheContentImage
 
-	for _, imgcache := range gp.curr.ImgCaches {
-		if img.ID() == imgcache.Path {
-			cacheImage = &imgcache
-			break
-		}
-	}
+	cacheImage, found := gp.findImageCache(img.ID(), true, false)
 
-	if cacheImage == nil {
+	if !found {
 		maskImgobj := &ImageObj{IsMask: true}
 		maskImgobj.init(func() *GoPdf {
 			return gp
 		})
 		maskImgobj.setProtection(gp.protection())
 
-		err := maskImgobj.SetImage(img)
+		err := gp.setImage(maskImgobj, img)
 		if err != nil {
 			return 0, err
 		}
 
+		naturalRect, err := maskImgobj.getRect()
+		if err != nil {
+			return 0, err
+		}
 		if opts.Rect == nil {
-			if opts.Rect, err = maskImgobj.getRect(); err != nil {
-				return 0, err
-			}
+			opts.Rect = naturalRect
 		}
 
 		if err := maskImgobj.parse(); err != nil {
@@ -597,16 +593,17 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
 
 			imgcache := ImageCache{
-				Index: index,
-				Path:  img.ID(),
-				Rect:  opts.Rect,
+				Index:  index,
+				Path:   img.ID(),
+				Rect:   naturalRect,
+				isMask: true,
 			}
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
 	} else {
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImage.Index].Rect
+			opts.Rect = cacheImage.Rect
 		}
 
 		cacheContentImage = gp.getContent().GetCacheContentImage(cacheImage.Index, opts.ImageOptions)
@@ -667,17 +664,34 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	return extGState.Index + 1, nil
 }
 
-func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
-	cacheImageIndex := -1
+// findImageCache finds the stored image of the source for the given use: a mask,
+// an image without its own alpha (it is drawn with a mask) or a complete image.
+func (gp *GoPdf) findImageCache(id string, isMask, splittedMask bool) (ImageCache, bool) {
+	for _, imgcache := range gp.curr.ImgCaches {
+		if id == imgcache.Path && isMask == imgcache.isMask && splittedMask == imgcache.splittedMask {
+			return imgcache, true
+		}
+	}
+	return ImageCache{}, false
+}
 
+// setImage gives imgobj the source's data, which was read already when the source
+// was stored for another use.
+func (gp *GoPdf) setImage(imgobj *ImageObj, img ImageHolder) error {
 	for _, imgcache := range gp.curr.ImgCaches {
 		if img.ID() == imgcache.Path {
-			cacheImageIndex = imgcache.Index
-			break
+			other := gp.pdfObjs[imgcache.Index].(*ImageObj)
+			other.rawImgReader.Seek(0, 0)
+			return imgobj.SetImage(other.rawImgReader)
 		}
 	}
+	return imgobj.SetImage(img)
+}
+
+func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
+	imgcache, found := gp.findImageCache(img.ID(), false, opts.Mask != nil)
 
-	if cacheImageIndex == -1 { //new image
+	if !found { //new image
 
 		//create img object
 		imgobj := new(ImageObj)
@@ -690,15 +704,17 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 		})
 		imgobj.setProtection(gp.protection())
 
-		err := imgobj.SetImage(img)
+		err := gp.setImage(imgobj, img)
 		if err != nil {
 			return err
 		}
 
+		naturalRect, err := imgobj.getRect()
+		if err != nil {
+			return err
+		}
 		if opts.Rect == nil {
-			if opts.Rect, err = imgobj.getRect(); err != nil {
-				return err
-			}
+			opts.Rect = naturalRect
 		}
 
 		err = imgobj.parse()
@@ -715,7 +731,8 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 			var imgcache ImageCache
 			imgcache.Index = index
 			imgcache.Path = img.ID()
-			imgcache.Rect = opts.Rect
+			imgcache.Rect = naturalRect
+			imgcache.splittedMask = imgobj.SplittedMask
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
 		}
@@ -741,10 +758,10 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 
 	} else { //same img
 		if opts.Rect == nil {
-			opts.Rect = gp.curr.ImgCaches[cacheImageIndex].Rect
+			opts.Rect = imgcache.Rect
 		}
 
-		gp.getContent().AppendStreamImage(cacheImageIndex, opts)
+		gp.getContent().AppendStreamImage(imgcache.Index, opts)
 	}
 	return nil
 }
-- 
2.43.0


From 3fe972ffdb173c1d69435b8b66a5fb28597bae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 10/66] fix: masks from images without alpha, and image holders
 drawn in several documents

---
 gopdf.go     | 10 ++++++++++
 image_obj.go |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index f60e49f..a8e6aad 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -588,6 +588,16 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 
 		if gp.indexOfProcSet != -1 {
 			index := gp.addObj(maskImgobj)
+			if maskImgobj.isColspaceIndexed() {
+				dRGB, err := maskImgobj.createDeviceRGB()
+				if err != nil {
+					return 0, err
+				}
+				dRGB.getRoot = func() *GoPdf {
+					return gp
+				}
+				maskImgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
+			}
 			cacheContentImage = gp.getContent().GetCacheContentImage(index, opts.ImageOptions)
 			procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 			procset.RelateXobjs = append(procset.RelateXobjs, RelateXobject{IndexOfObj: index})
diff --git a/image_obj.go b/image_obj.go
index c17607b..eca7e32 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -41,7 +41,7 @@ func (i *ImageObj) protection() *PDFProtection {
 func (i *ImageObj) write(w io.Writer, objID int) error {
 	data := i.imginfo.data
 
-	if i.IsMask {
+	if i.IsMask && i.haveSMask() { // without alpha the image itself is the mask
 		data = i.imginfo.smask
 		if err := writeMaskImgProps(w, i.imginfo); err != nil {
 			return err
@@ -135,6 +135,11 @@ func (i *ImageObj) SetImagePath(path string) error {
 // SetImage set image
 func (i *ImageObj) SetImage(r io.Reader) error {
 
+	if holder, ok := r.(*imageBuff); ok { // stays unread, it may be drawn again
+		i.rawImgReader = bytes.NewReader(holder.Bytes())
+		return nil
+	}
+
 	data, err := io.ReadAll(r)
 	if err != nil {
 		return err
-- 
2.43.0


From ec740ca61edb56f940221157ba4bf22172328cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 11/66] fix: the natural size of one-pixel images is never
 empty

---
 gopdf.go           | 20 ++++++++------------
 image_obj.go       | 28 ++++++++--------------------
 image_obj_parse.go |  6 +++---
 3 files changed, 19 insertions(+), 35 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index a8e6aad..c2105fd 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -574,12 +574,10 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 			return 0, err
 		}
 
-		naturalRect, err := maskImgobj.getRect()
-		if err != nil {
-			return 0, err
-		}
 		if opts.Rect == nil {
-			opts.Rect = naturalRect
+			if opts.Rect, err = maskImgobj.getRect(); err != nil {
+				return 0, err
+			}
 		}
 
 		if err := maskImgobj.parse(); err != nil {
@@ -605,7 +603,7 @@ func (gp *GoPdf) maskHolder(img ImageHolder, opts MaskOptions) (int, error) {
 			imgcache := ImageCache{
 				Index:  index,
 				Path:   img.ID(),
-				Rect:   naturalRect,
+				Rect:   maskImgobj.naturalRect(),
 				isMask: true,
 			}
 			gp.curr.ImgCaches[index] = imgcache
@@ -719,12 +717,10 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 			return err
 		}
 
-		naturalRect, err := imgobj.getRect()
-		if err != nil {
-			return err
-		}
 		if opts.Rect == nil {
-			opts.Rect = naturalRect
+			if opts.Rect, err = imgobj.getRect(); err != nil {
+				return err
+			}
 		}
 
 		err = imgobj.parse()
@@ -741,7 +737,7 @@ func (gp *GoPdf) imageByHolder(img ImageHolder, opts ImageOptions) error {
 			var imgcache ImageCache
 			imgcache.Index = index
 			imgcache.Path = img.ID()
-			imgcache.Rect = naturalRect
+			imgcache.Rect = imgobj.naturalRect()
 			imgcache.splittedMask = imgobj.SplittedMask
 			gp.curr.ImgCaches[index] = imgcache
 			gp.curr.CountOfImg++
diff --git a/image_obj.go b/image_obj.go
index eca7e32..a94e5c9 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -168,28 +168,16 @@ func (i *ImageObj) getRect() (*Rect, error) {
 		return nil, err
 	}
 
-	imageRect := m.Bounds()
-	k := 1
-	w := -128 //init
-	h := -128 //init
-	if w < 0 {
-		w = -imageRect.Dx() * 72 / w / k
-	}
-	if h < 0 {
-		h = -imageRect.Dy() * 72 / h / k
-	}
-	if w == 0 {
-		w = h * imageRect.Dx() / imageRect.Dy()
-	}
-	if h == 0 {
-		h = w * imageRect.Dy() / imageRect.Dx()
-	}
+	w, h := ImgReactagleToWH(m.Bounds())
+
+	return &Rect{W: w, H: h}, nil
+}
 
-	var rect = new(Rect)
-	rect.H = float64(h)
-	rect.W = float64(w)
+// naturalRect is getRect of the parsed image
+func (i *ImageObj) naturalRect() *Rect {
+	w, h := ImgReactagleToWH(image.Rect(0, 0, i.imginfo.w, i.imginfo.h))
 
-	return rect, nil
+	return &Rect{W: w, H: h}
 }
 
 func (i *ImageObj) parse() error {
diff --git a/image_obj_parse.go b/image_obj_parse.go
index fd599f2..f067869 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -531,11 +531,11 @@ func ImgReactagleToWH(imageRect image.Rectangle) (float64, float64) {
 	if h < 0 {
 		h = -imageRect.Dy() * 72 / h / k
 	}
-	if w == 0 {
-		w = h * imageRect.Dx() / imageRect.Dy()
+	if w == 0 { // less than a point, but still visible
+		w = 1
 	}
 	if h == 0 {
-		h = w * imageRect.Dy() / imageRect.Dx()
+		h = 1
 	}
 	return float64(w), float64(h)
 }
-- 
2.43.0


From 7032d4e64cdea2f158f0434adf67d91fa55a0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 12/66] fix: PNG palettes with several or partly transparent
 entries, empty chunks and truncated data

---
 image_obj_parse.go | 66 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index f067869..7cc096c 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -22,6 +22,8 @@ const (
 )
 
 func writeMaskImgProps(w io.Writer, imginfo imgInfo) error {
+	imginfo.colspace = DeviceGray
+	imginfo.bitsPerComponent = "8"
 	if err := writeBaseImgProps(w, imginfo, DeviceGray); err != nil {
 		return err
 	}
@@ -299,6 +301,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	var pal []byte
 	var trns []byte
+	var palAlpha []byte // alpha of the first palette entries
 	var data []byte
 	for {
 		un, err := readUInt(f)
@@ -329,15 +332,12 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
-			if ct[0] == 0 {
+			if ct[0] == 0 && len(t) >= 2 {
 				trns = []byte{(t[1])}
-			} else if ct[0] == 2 {
+			} else if ct[0] == 2 && len(t) >= 6 {
 				trns = []byte{t[1], t[3], t[5]}
-			} else {
-				pos := strings.Index(string(t), "\x00")
-				if pos >= 0 {
-					trns = []byte{byte(pos)}
-				}
+			} else if ct[0] == 3 {
+				palAlpha = t
 			}
 
 			_, err = f.Seek(int64(4), 1) // skip
@@ -365,10 +365,6 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		}
-
-		if n <= 0 {
-			break
-		}
 	} // end for
 
 	// info.data = data //ok
@@ -377,7 +373,7 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	// fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) == 0 {
 		return errors.New("Missing palette")
 	}
 
@@ -401,10 +397,17 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			return err
 		}
 		defer zipReader.Close()
-		afterZipData, err := io.ReadAll(zipReader)
+		rowSize := 1 + 4*w
+		if ct[0] == 4 {
+			rowSize = 1 + 2*w
+		}
+		afterZipData, err := io.ReadAll(io.LimitReader(zipReader, int64(rowSize)*int64(h)))
 		if err != nil {
 			return err
 		}
+		if int64(len(afterZipData)) < int64(rowSize)*int64(h) {
+			return errors.New("Not enough image data")
+		}
 
 		var color []byte
 		var alpha []byte
@@ -464,9 +467,41 @@ func parsePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		info.data = data
 	}
 
+	if isSingleTransparentEntry(palAlpha) {
+		info.trns = []byte{byte(bytes.IndexByte(palAlpha, 0))}
+	} else if len(palAlpha) > 0 {
+		info.smask, err = parsePngPaletteAlpha(f, w, h)
+		if err != nil {
+			return err
+		}
+	}
+
 	return nil
 }
 
+// isSingleTransparentEntry checks if exactly one palette entry is transparent and all others opaque
+func isSingleTransparentEntry(palAlpha []byte) bool {
+	return bytes.Count(palAlpha, []byte{0}) == 1 && bytes.Count(palAlpha, []byte{255}) == len(palAlpha)-1
+}
+
+// parsePngPaletteAlpha gets the alpha of every pixel as image data
+func parsePngPaletteAlpha(f *bytes.Reader, w, h int) ([]byte, error) {
+	f.Seek(0, 0)
+	img, err := png.Decode(f)
+	if err != nil {
+		return nil, err
+	}
+	alpha := make([]byte, 0, (1+w)*h)
+	for y := 0; y < h; y++ {
+		alpha = append(alpha, 0) // no filter
+		for x := 0; x < w; x++ {
+			_, _, _, a := img.At(x, y).RGBA()
+			alpha = append(alpha, byte(a>>8))
+		}
+	}
+	return compress(alpha)
+}
+
 func compress(data []byte) ([]byte, error) {
 	var results []byte
 	var buff bytes.Buffer
@@ -503,8 +538,11 @@ func readInt(f *bytes.Reader) (int, error) {
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len < 0 || len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f4a4e4c00cfeabfd42477f718df9d97499d0924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 13/66] fix: reject images whose size their data cannot fill
 before allocating it

---
 image_obj.go       |  3 +++
 image_obj_parse.go | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/image_obj.go b/image_obj.go
index a94e5c9..ce79021 100644
--- a/image_obj.go
+++ b/image_obj.go
@@ -162,6 +162,9 @@ func (i *ImageObj) GetRect() *Rect {
 // GetRect get rect of img
 func (i *ImageObj) getRect() (*Rect, error) {
 
+	if _, _, err := decodeImgConfig(i.rawImgReader); err != nil {
+		return nil, err
+	}
 	i.rawImgReader.Seek(0, 0)
 	m, _, err := image.Decode(i.rawImgReader)
 	if err != nil {
diff --git a/image_obj_parse.go b/image_obj_parse.go
index 7cc096c..afa2041 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -139,8 +139,7 @@ func parseImgByPath(path string) (imgInfo, error) {
 func parseImg(raw *bytes.Reader) (imgInfo, error) {
 	// fmt.Printf("----------\n")
 	var info imgInfo
-	raw.Seek(0, 0)
-	imgConfig, formatname, err := image.DecodeConfig(raw)
+	imgConfig, formatname, err := decodeImgConfig(raw)
 	if err != nil {
 		return info, err
 	}
@@ -189,6 +188,22 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 	return info, nil
 }
 
+// decodeImgConfig decodes the format and the size of the image. A size that not even the best
+// compression of the formats reaches with the given data is an error, nothing is allocated for it.
+func decodeImgConfig(raw *bytes.Reader) (image.Config, string, error) {
+	raw.Seek(0, 0)
+	imgConfig, formatname, err := image.DecodeConfig(raw)
+	if err != nil {
+		return imgConfig, formatname, err
+	}
+	const maxPixelsPerByte = 8 * 1032 // one bit per pixel, deflated
+	if imgConfig.Width <= 0 || imgConfig.Height <= 0 ||
+		int64(imgConfig.Width)*int64(imgConfig.Height) > raw.Size()*maxPixelsPerByte {
+		return imgConfig, formatname, errors.New("Invalid image size")
+	}
+	return imgConfig, formatname, nil
+}
+
 func parseImgJpg(info *imgInfo, imgConfig image.Config) error {
 	switch imgConfig.ColorModel {
 	case color.YCbCrModel:
-- 
2.43.0


From fe0fbb86cca8d74d5e6a162c902d63f9a595da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 14/66] fix: an image file that changed is another image

---
 image_holder.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/image_holder.go b/image_holder.go
index de2b768..0cc1852 100644
--- a/image_holder.go
+++ b/image_holder.go
@@ -48,14 +48,11 @@ func newImageBuff(b []byte) (*imageBuff, error) {
 }
 
 func newImageBuffByPath(path string) (*imageBuff, error) {
-	var i imageBuff
-	i.id = path
 	b, err := os.ReadFile(path)
 	if err != nil {
 		return nil, err
 	}
-	i.Write(b)
-	return &i, nil
+	return newImageBuff(b) // by its content, the file may change
 }
 
 func newImageBuffByReader(r io.Reader) (*imageBuff, error) {
-- 
2.43.0


From c1a82cecb8d2a94dd1ad69bbf9a2ece5925c9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 15/66] fix: merge only text that continues the text before it

---
 cache_content_text.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index e6d01ff..733fa82 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -45,14 +45,24 @@ type cacheContentText struct {
 }
 
 func (c *cacheContentText) isSame(cache cacheContentText) bool {
-	if c.rectangle != nil {
+	if c.rectangle != nil || cache.rectangle != nil {
 		//if rectangle != nil we assume this is not same content
 		return false
 	}
 
+	if c.contentType != ContentTypeText || cache.contentType != ContentTypeText {
+		return false
+	}
+
+	if cache.x != c.x+c.cellWidthPdfUnit {
+		//the new text does not start where the last one ends
+		return false
+	}
+
 	// if both colors are nil we assume them equal
 	if ((c.textColor == nil && cache.textColor == nil) ||
 		(c.textColor != nil && c.textColor.equal(cache.textColor))) &&
+		c.txtColorMode == cache.txtColorMode &&
 		c.grayFill == cache.grayFill &&
 		c.fontCountIndex == cache.fontCountIndex &&
 		c.fontSize == cache.fontSize &&
-- 
2.43.0


From 8a6d4074216343865181b009662bd70849f50be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 16/66] fix: links, anchors and outlines on pages of their own
 size

---
 gopdf.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index c2105fd..c06369f 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -901,7 +901,7 @@ func (gp *GoPdf) AddOutline(title string) {
 
 // AddOutlineWithPosition add an outline with position
 func (gp *GoPdf) AddOutlineWithPosition(title string) *OutlineObj {
-	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.config.PageSize.H-gp.curr.Y+20)
+	return gp.outlines.AddOutlinesWithPosition(gp.curr.IndexOfPageObj+1, title, gp.currPageHeight()-gp.curr.Y+20)
 }
 
 // AddHeader - add a header function, if present this will be automatically called by AddPage()
@@ -1771,7 +1771,7 @@ func (gp *GoPdf) ImportTemplates(tpls map[string]int) {
 func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, url, ""}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, url, ""}
 	gp.addLink(linkOpt)
 }
 
@@ -1779,7 +1779,7 @@ func (gp *GoPdf) AddExternalLink(url string, x, y, w, h float64) {
 func (gp *GoPdf) AddInternalLink(anchor string, x, y, w, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 
-	linkOpt := linkOption{x, gp.config.PageSize.H - y, w, h, "", anchor}
+	linkOpt := linkOption{x, gp.currPageHeight() - y, w, h, "", anchor}
 	gp.addLink(linkOpt)
 }
 
@@ -1793,7 +1793,7 @@ func (gp *GoPdf) addLink(option linkOption) {
 
 // SetAnchor creates a new anchor.
 func (gp *GoPdf) SetAnchor(name string) {
-	y := gp.config.PageSize.H - gp.curr.Y + float64(gp.curr.FontSize)
+	y := gp.currPageHeight() - gp.curr.Y + float64(gp.curr.FontSize)
 	gp.anchors[name] = anchorOption{gp.curr.IndexOfPageObj, y}
 }
 
@@ -2255,6 +2255,14 @@ func importerOrDefault(importer ...*gofpdi.Importer) *gofpdi.Importer {
 	return gofpdi.NewImporter()
 }
 
+// currPageHeight is the height of the current page, or that of the default page before there is one
+func (gp *GoPdf) currPageHeight() float64 {
+	if gp.curr.pageSize == nil {
+		return gp.config.PageSize.H
+	}
+	return gp.curr.pageSize.H
+}
+
 func (gp *GoPdf) resetCurrXY() {
 	gp.curr.X = gp.margins.Left
 	gp.curr.Y = gp.margins.Top
-- 
2.43.0


From ff74267f31b5a1283ffa943a569761c99e54fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 17/66] fix: consistent links and counts in the outline tree

---
 outlines_obj.go | 98 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 88 insertions(+), 10 deletions(-)

diff --git a/outlines_obj.go b/outlines_obj.go
index 13cae66..f48067e 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -14,6 +14,7 @@ type OutlinesObj struct { //impl IObj
 	last    int
 	count   int
 	lastObj *OutlineObj
+	items   []*OutlineObj // all outlines in the order they were added
 }
 
 func (o *OutlinesObj) init(funcGetRoot func() *GoPdf) {
@@ -29,14 +30,13 @@ func (o *OutlinesObj) getType() string {
 func (o *OutlinesObj) write(w io.Writer, objID int) error {
 	content := "<<\n"
 	content += fmt.Sprintf("\t/Type /%s\n", o.getType())
-	content += fmt.Sprintf("\t/Count %d\n", o.count)
+	siblings := o.link()
+	roots := siblings[o.index+1]
+	content += fmt.Sprintf("\t/Count %d\n", len(roots))
 
-	if o.first >= 0 {
-		content += fmt.Sprintf("\t/First %d 0 R\n", o.first)
-	}
-
-	if o.last >= 0 {
-		content += fmt.Sprintf("\t/Last %d 0 R\n", o.last)
+	if len(roots) > 0 {
+		content += fmt.Sprintf("\t/First %d 0 R\n", roots[0].index)
+		content += fmt.Sprintf("\t/Last %d 0 R\n", roots[len(roots)-1].index)
 	}
 
 	content += ">>\n"
@@ -48,12 +48,83 @@ func (o *OutlinesObj) write(w io.Writer, objID int) error {
 	return nil
 }
 
+// link makes the links between the outlines consistent, it returns the outlines below each parent in
+// order: as the caller has arranged them, or as they were added when that leaves an outline out.
+func (o *OutlinesObj) link() map[int][]*OutlineObj {
+	byIndex := make(map[int]*OutlineObj)
+	for _, item := range o.items {
+		byIndex[item.index] = item
+	}
+
+	siblings := make(map[int][]*OutlineObj)
+	for _, item := range o.items {
+		if byIndex[item.parent] == nil {
+			item.parent = o.index + 1
+		}
+		siblings[item.parent] = append(siblings[item.parent], item)
+	}
+
+	for parent, items := range siblings {
+		items = arrangedOutlines(items, byIndex)
+		siblings[parent] = items
+		for i, item := range items {
+			item.prev, item.next = -1, -1
+			if i > 0 {
+				item.prev = items[i-1].index
+			}
+			if i < len(items)-1 {
+				item.next = items[i+1].index
+			}
+		}
+	}
+
+	for _, item := range o.items {
+		children := siblings[item.index]
+		item.first, item.last, item.count = 0, 0, len(children)
+		if len(children) > 0 {
+			item.first = children[0].index
+			item.last = children[len(children)-1].index
+		}
+	}
+
+	return siblings
+}
+
+// arrangedOutlines follows the next links of the outlines of one parent
+func arrangedOutlines(items []*OutlineObj, byIndex map[int]*OutlineObj) []*OutlineObj {
+	isSibling := func(index int) bool {
+		other := byIndex[index]
+		return other != nil && other.parent == items[0].parent
+	}
+	var start *OutlineObj
+	for _, item := range items {
+		if !isSibling(item.prev) {
+			if start != nil {
+				return items
+			}
+			start = item
+		}
+	}
+	var arranged []*OutlineObj
+	for item := start; item != nil && len(arranged) < len(items); {
+		arranged = append(arranged, item)
+		if !isSibling(item.next) {
+			break
+		}
+		item = byIndex[item.next]
+	}
+	if len(arranged) < len(items) {
+		return items
+	}
+	return arranged
+}
+
 func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 	o.index = index
 }
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -63,11 +134,13 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 	}
 	o.lastObj = oo
 	o.count++
+	oo.index = o.last
+	o.items = append(o.items, oo)
 }
 
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
-	oo := &OutlineObj{title: title, dest: dest, parent: o.index, prev: o.last, next: -1, height: y}
+	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -78,6 +151,7 @@ func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64)
 	o.lastObj = oo
 	o.count++
 	oo.index = o.last
+	o.items = append(o.items, oo)
 	return oo
 }
 
@@ -95,6 +169,7 @@ type OutlineObj struct { //impl IObj
 	next   int
 	first  int
 	last   int
+	count  int // number of children
 	height float64
 }
 
@@ -159,6 +234,9 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 	if o.last > 0 {
 		fmt.Fprintf(w, "  /Last %d 0 R\n", o.last)
 	}
+	if o.count > 0 {
+		fmt.Fprintf(w, "  /Count %d\n", -o.count) // closed
+	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
 	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
 	io.WriteString(w, ">>\n")
@@ -180,7 +258,7 @@ func (objs OutlineNodes) Parse() {
 		if i == 0 {
 			obj.Obj.SetPrev(-1)
 		} else {
-			obj.Obj.SetNext(objs[i-1].Obj.GetIndex())
+			obj.Obj.SetPrev(objs[i-1].Obj.GetIndex())
 		}
 		if i == len(objs)-1 {
 			obj.Obj.SetNext(-1)
-- 
2.43.0


From 65470a020362f6c057256fa41a856c01f6610d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 18/66] fix: a link to an anchor that is never set is a valid
 object

---
 annot_obj.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/annot_obj.go b/annot_obj.go
index dd10a7a..f650b57 100644
--- a/annot_obj.go
+++ b/annot_obj.go
@@ -48,8 +48,10 @@ func (o annotObj) writeExternalLink(w io.Writer, l linkOption, objID int) error
 
 func (o annotObj) writeInternalLink(w io.Writer, l linkOption) error {
 	a, ok := o.GetRoot().anchors[l.anchor]
-	if !ok {
-		return nil
+	if !ok { // leads nowhere
+		_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0]>>\n",
+			l.x, l.y, l.x+l.w, l.y-l.h)
+		return err
 	}
 	_, err := fmt.Fprintf(w, "<</Type /Annot /Subtype /Link /Rect [%.2f %.2f %.2f %.2f] /Border [0 0 0] /Dest [%d 0 R /XYZ 0 %.2f null]>>\n",
 		l.x, l.y, l.x+l.w, l.y-l.h, a.page+1, a.y)
-- 
2.43.0


From b990c7b4c4e94d9beccc35fbacb1760fff0f9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 19/66] fix: padding passwords leaves the caller's bytes alone

---
 pdf_protection.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pdf_protection.go b/pdf_protection.go
index 6190938..96d0e6e 100644
--- a/pdf_protection.go
+++ b/pdf_protection.go
@@ -49,10 +49,8 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
-	userPass = append(userPass, protectionPadding...)
-	userPassWithPadding := userPass[0:32]
-	ownerPass = append(ownerPass, protectionPadding...)
-	ownerPassWithPadding := ownerPass[0:32]
+	userPassWithPadding := padPass(userPass)
+	ownerPassWithPadding := padPass(ownerPass)
 
 	//oValue
 	oValue, err := p.createOValue(userPassWithPadding, ownerPassWithPadding)
@@ -71,6 +69,14 @@ func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte,
 	return nil
 }
 
+// padPass pads or cuts a password to 32 bytes, in memory of its own
+func padPass(pass []byte) []byte {
+	padded := make([]byte, 0, len(pass)+len(protectionPadding))
+	padded = append(padded, pass...)
+	padded = append(padded, protectionPadding...)
+	return padded[0:32]
+}
+
 // EncryptionObj get Encryption Object
 func (p *PDFProtection) EncryptionObj() *EncryptionObj {
 	return p.encryptionObj()
@@ -131,7 +137,7 @@ func (p *PDFProtection) Objectkey(objID int) []byte {
 func (p *PDFProtection) objectkey(n int) []byte {
 	tmp := make([]byte, 8, 8)
 	binary.LittleEndian.PutUint32(tmp, uint32(n))
-	tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)
+	tmp2 := append(p.encryptionKey[:len(p.encryptionKey):len(p.encryptionKey)], tmp[0], tmp[1], tmp[2], 0, 0)
 	tmp3 := md5.Sum(tmp2)
 	return tmp3[0:10]
 }
-- 
2.43.0


From e1d6a51bbbdd6bc4bd2a621cb12e263684254d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 20/66] fix: document information is an indirect object, and
 protection covers it, outline titles, font strings and mask groups

---
 cid_font_obj.go               | 17 +++++-
 gopdf.go                      | 97 ++++++++++++++++++++++++++---------
 outlines_obj.go               | 11 +++-
 transparency_xobject_group.go | 11 +++-
 4 files changed, 107 insertions(+), 29 deletions(-)

diff --git a/cid_font_obj.go b/cid_font_obj.go
index da8db9b..fc5fc09 100644
--- a/cid_font_obj.go
+++ b/cid_font_obj.go
@@ -10,11 +10,16 @@ import (
 type CIDFontObj struct {
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	pdfProtection             *PDFProtection
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 }
 
+func (ci *CIDFontObj) setProtection(p *PDFProtection) {
+	ci.pdfProtection = p
+}
+
 // SetIndexObjSubfontDescriptor set  indexObjSubfontDescriptor
 func (ci *CIDFontObj) SetIndexObjSubfontDescriptor(index int) {
 	ci.indexObjSubfontDescriptor = index
@@ -29,8 +34,16 @@ func (ci *CIDFontObj) write(w io.Writer, objID int) error {
 	fmt.Fprintf(w, "/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily()))
 	io.WriteString(w, "/CIDSystemInfo\n")
 	io.WriteString(w, "<<\n")
-	io.WriteString(w, "  /Ordering (Identity)\n")
-	io.WriteString(w, "  /Registry (Adobe)\n")
+	ordering, err := literalString("Identity", ci.pdfProtection, objID)
+	if err != nil {
+		return err
+	}
+	registry, err := literalString("Adobe", ci.pdfProtection, objID)
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(w, "  /Ordering %s\n", ordering)
+	fmt.Fprintf(w, "  /Registry %s\n", registry)
 	io.WriteString(w, "  /Supplement 0\n")
 	io.WriteString(w, ">>\n")
 	fmt.Fprintf(w, "/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1) //TODO fix
diff --git a/gopdf.go b/gopdf.go
index c06369f..89d0854 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"compress/zlib" // for constants
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"image"
@@ -647,6 +648,7 @@ func (gp *GoPdf) createTransparencyXObjectGroup(image *cacheContentImage, opts M
 	}
 
 	groupOpts := TransparencyXObjectGroupOptions{
+		Protection:       gp.protection(),
 		BBox:             *bbox,
 		ExtGStateIndexes: opts.extGStateIndexes,
 		XObjects:         []cacheContentImage{*image},
@@ -1101,6 +1103,11 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		pdfObjs = append(pdfObjs[:len(pdfObjs):len(pdfObjs)], gp.pdfProtection.encryptionObj())
 		gp.encryptionObjID = len(pdfObjs)
 	}
+	infoObjID := 0
+	if gp.isUseInfo {
+		pdfObjs = append(pdfObjs[:len(pdfObjs):len(pdfObjs)], infoObj{gp})
+		infoObjID = len(pdfObjs)
+	}
 	max := len(pdfObjs)
 	writer := newCountingWriter(w)
 	fmt.Fprint(writer, "%PDF-1.7\n%\xe2\xe3\xcf\xd3\n\n")
@@ -1121,7 +1128,7 @@ func (gp *GoPdf) compilePdf(w io.Writer) (n int64, err error) {
 		}
 		i++
 	}
-	gp.xref(writer, writer.offset, linelens, i)
+	gp.xref(writer, writer.offset, linelens, infoObjID)
 	return writer.offset, writer.err
 }
 
@@ -1870,6 +1877,7 @@ func (gp *GoPdf) setSubsetFontObject(subsetFont *SubsetFontObj, family string, o
 	cidfont.init(func() *GoPdf {
 		return gp
 	})
+	cidfont.setProtection(gp.protection())
 	cidfont.SetPtrToSubsetFontObj(subsetFont)
 	cidfont.SetIndexObjSubfontDescriptor(subfontdescindex)
 	cidindex := gp.addObj(cidfont)
@@ -2027,6 +2035,9 @@ func (gp *GoPdf) SetInfo(info PdfInfo) {
 
 // GetInfo get Document Information Dictionary
 func (gp *GoPdf) GetInfo() PdfInfo {
+	if gp.info == nil {
+		return PdfInfo{}
+	}
 	return *gp.info
 }
 
@@ -2351,10 +2362,10 @@ func (gp *GoPdf) prepare() {
 	}
 }
 
-func (gp *GoPdf) xref(w io.Writer, xrefbyteoffset int64, linelens []int64, i int) error {
+func (gp *GoPdf) xref(w io.Writer, xrefbyteoffset int64, linelens []int64, infoObjID int) error {
 
 	io.WriteString(w, "xref\n")
-	fmt.Fprintf(w, "0 %d\n", i+1)
+	fmt.Fprintf(w, "0 %d\n", len(linelens)+1)
 	io.WriteString(w, "0000000000 65535 f \n")
 	j := 0
 	max := len(linelens)
@@ -2372,7 +2383,7 @@ func (gp *GoPdf) xref(w io.Writer, xrefbyteoffset int64, linelens []int64, i int
 		io.WriteString(w, "/ID [()()]\n")
 	}
 	if gp.isUseInfo {
-		gp.writeInfo(w)
+		fmt.Fprintf(w, "/Info %d 0 R\n", infoObjID)
 	}
 	io.WriteString(w, ">>\n")
 	io.WriteString(w, "startxref\n")
@@ -2382,35 +2393,49 @@ func (gp *GoPdf) xref(w io.Writer, xrefbyteoffset int64, linelens []int64, i int
 	return nil
 }
 
-func (gp *GoPdf) writeInfo(w io.Writer) {
-	var zerotime time.Time
-	io.WriteString(w, "/Info <<\n")
-
-	if gp.info.Author != "" {
-		fmt.Fprintf(w, "/Author <FEFF%s>\n", encodeUtf8(gp.info.Author))
-	}
+// infoObj is the document information dictionary
+type infoObj struct {
+	gp *GoPdf
+}
 
-	if gp.info.Title != "" {
-		fmt.Fprintf(w, "/Title <FEFF%s>\n", encodeUtf8(gp.info.Title))
-	}
+func (o infoObj) init(func() *GoPdf) {
+}
 
-	if gp.info.Subject != "" {
-		fmt.Fprintf(w, "/Subject <FEFF%s>\n", encodeUtf8(gp.info.Subject))
-	}
+func (o infoObj) getType() string {
+	return "Info"
+}
 
-	if gp.info.Creator != "" {
-		fmt.Fprintf(w, "/Creator <FEFF%s>\n", encodeUtf8(gp.info.Creator))
-	}
+func (o infoObj) write(w io.Writer, objID int) error {
+	info := o.gp.info
+	io.WriteString(w, "<<\n")
 
-	if gp.info.Producer != "" {
-		fmt.Fprintf(w, "/Producer <FEFF%s>\n", encodeUtf8(gp.info.Producer))
+	for _, entry := range []struct{ key, value string }{
+		{"Author", info.Author},
+		{"Title", info.Title},
+		{"Subject", info.Subject},
+		{"Creator", info.Creator},
+		{"Producer", info.Producer},
+	} {
+		if entry.value == "" {
+			continue
+		}
+		text, err := hexText(entry.value, o.gp.protection(), objID)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(w, "/%s %s\n", entry.key, text)
 	}
 
-	if !zerotime.Equal(gp.info.CreationDate) {
-		fmt.Fprintf(w, "/CreationDate(D:%s)\n", infodate(gp.info.CreationDate))
+	if !info.CreationDate.IsZero() {
+		date, err := literalString("D:"+infodate(info.CreationDate), o.gp.protection(), objID)
+		if err != nil {
+			return err
+		}
+		fmt.Fprintf(w, "/CreationDate%s\n", date)
 	}
 
-	io.WriteString(w, " >>\n")
+	_, err := io.WriteString(w, ">>\n")
+	return err
 }
 
 // ปรับ xref ให้เป็น 10 หลัก
@@ -2453,6 +2478,28 @@ func encodeUtf8(str string) string {
 	return buff.String()
 }
 
+// hexText is the text as a string object
+func hexText(str string, protection *PDFProtection, objID int) (string, error) {
+	if protection == nil {
+		return "<FEFF" + encodeUtf8(str) + ">", nil
+	}
+	data, err := hex.DecodeString("FEFF" + encodeUtf8(str))
+	if err != nil {
+		return "", err
+	}
+	data, err = rc4Cip(protection.objectkey(objID), data)
+	return fmt.Sprintf("<%X>", data), err
+}
+
+// literalString is a string object of plain characters
+func literalString(str string, protection *PDFProtection, objID int) (string, error) {
+	if protection == nil {
+		return "(" + str + ")", nil
+	}
+	data, err := rc4Cip(protection.objectkey(objID), []byte(str))
+	return fmt.Sprintf("<%X>", data), err
+}
+
 func infodate(t time.Time) string {
 	if _, offset := t.Zone(); offset%60 != 0 {
 		// a PDF date has no seconds in its zone offset
diff --git a/outlines_obj.go b/outlines_obj.go
index f48067e..cc51352 100644
--- a/outlines_obj.go
+++ b/outlines_obj.go
@@ -125,6 +125,7 @@ func (o *OutlinesObj) SetIndexObjOutlines(index int) {
 
 func (o *OutlinesObj) AddOutline(dest int, title string) {
 	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1}
+	oo.init(o.getRoot)
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -141,6 +142,7 @@ func (o *OutlinesObj) AddOutline(dest int, title string) {
 // AddOutlinesWithPosition add outlines with position
 func (o *OutlinesObj) AddOutlinesWithPosition(dest int, title string, y float64) *OutlineObj {
 	oo := &OutlineObj{title: title, dest: dest, parent: o.index + 1, prev: o.last, next: -1, height: y}
+	oo.init(o.getRoot)
 	o.last = o.getRoot().addObj(oo) + 1
 	if o.first <= 0 {
 		o.first = o.last
@@ -171,9 +173,12 @@ type OutlineObj struct { //impl IObj
 	last   int
 	count  int // number of children
 	height float64
+
+	getRoot func() *GoPdf
 }
 
 func (o *OutlineObj) init(funcGetRoot func() *GoPdf) {
+	o.getRoot = funcGetRoot
 }
 
 func (o *OutlineObj) SetFirst(first int) {
@@ -238,7 +243,11 @@ func (o *OutlineObj) write(w io.Writer, objID int) error {
 		fmt.Fprintf(w, "  /Count %d\n", -o.count) // closed
 	}
 	fmt.Fprintf(w, "  /Dest [ %d 0 R /XYZ 90 %f 0 ]\n", o.dest, o.height)
-	fmt.Fprintf(w, "  /Title <FEFF%s>\n", encodeUtf8(o.title))
+	title, err := hexText(o.title, o.getRoot().protection(), objID)
+	if err != nil {
+		return err
+	}
+	fmt.Fprintf(w, "  /Title %s\n", title)
 	io.WriteString(w, ">>\n")
 	return nil
 }
diff --git a/transparency_xobject_group.go b/transparency_xobject_group.go
index e58b1cc..f231401 100644
--- a/transparency_xobject_group.go
+++ b/transparency_xobject_group.go
@@ -72,6 +72,15 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 	content += fmt.Sprintf("\t/BBox [%.3F %.3F %.3F %.3F]\n", s.BBox[0], s.BBox[1], s.BBox[2], s.BBox[3])
 	content += "\t/Group<</CS /DeviceGray /S /Transparency>>\n"
 
+	data := streamBuff.Bytes()
+	if s.protection() != nil {
+		tmp, err := rc4Cip(s.protection().objectkey(objId), data)
+		if err != nil {
+			return err
+		}
+		data = append(tmp, '\n')
+	}
+
 	content += fmt.Sprintf("\t/Length %d\n", len(streamBuff.Bytes()))
 	content += ">>\n"
 	content += "stream\n"
@@ -80,7 +89,7 @@ func (s TransparencyXObjectGroup) write(w io.Writer, objId int) error {
 		return err
 	}
 
-	if _, err := w.Write(streamBuff.Bytes()); err != nil {
+	if _, err := w.Write(data); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 90e5aff18772bac5e2fdf4bf9b9d08d0ac632a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 21/66] fix: opaque transparencies keep their blend mode, and a
 transparency without blend mode is a normal one

---
 gopdf.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 89d0854..2b00067 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2546,10 +2546,16 @@ func (gp *GoPdf) getCachedTransparency(transparency *Transparency) (*Transparenc
 }
 
 func (gp *GoPdf) saveTransparency(transparency *Transparency) (*Transparency, error) {
+	own := *transparency // the caller's value stays as it is, and later changes to it have no effect
+	transparency = &own
+	if transparency.BlendModeType == "" {
+		transparency.BlendModeType = NormalBlendMode
+	}
+
 	cached, ok := gp.curr.transparencyMap.Find(*transparency)
 	if ok {
 		return &cached, nil
-	} else if transparency.Alpha != DefaultAplhaValue {
+	} else if transparency.Alpha != DefaultAplhaValue || transparency.BlendModeType != NormalBlendMode {
 		bm := transparency.BlendModeType
 		opts := ExtGStateOptions{
 			BlendMode:     &bm,
-- 
2.43.0


From 479155d87b9d8ef0c04f3638939e12b665684d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 22/66] fix: SetCustomLineType leaves the caller's dash array
 alone

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index 2b00067..0059b06 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -216,6 +216,7 @@ func (gp *GoPdf) SetLineType(linetype string) {
 //	pdf.SetCustomLineType([]float64{0.8, 0.8}, 0)
 //	pdf.Line(50, 200, 550, 200)
 func (gp *GoPdf) SetCustomLineType(dashArray []float64, dashPhase float64) {
+	dashArray = append([]float64{}, dashArray...) // the caller's stays as it is
 	for i := range dashArray {
 		gp.UnitsToPointsVar(&dashArray[i])
 	}
-- 
2.43.0


From 8c03b77c4cbdbce43df1e1431ee1bb540dd760bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 23/66] fix: placeholders in every unit, filled with the font
 they were placed with, any number of times

---
 gopdf.go       | 19 ++++++++++++-------
 placeholder.go |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 0059b06..5fba864 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1481,7 +1481,8 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 		return err
 	}
 
-	gp.PointsToUnitsVar(&placeHolderWidth)
+	gp.UnitsToPointsVar(&placeHolderWidth)
+	x := gp.curr.X
 	err = gp.getContent().appendStreamPlaceHolderText(placeHolderWidth)
 	if err != nil {
 		return err
@@ -1501,6 +1502,7 @@ func (gp *GoPdf) PlaceHolderText(placeHolderName string, placeHolderWidth float6
 			placeHolderWidth: placeHolderWidth,
 			fontSize:         gp.curr.FontSize,
 			charSpacing:      gp.curr.CharSpacing,
+			x:                x,
 		},
 	)
 
@@ -1526,22 +1528,25 @@ func (gp *GoPdf) FillInPlaceHoldText(placeHolderName string, text string, align
 		if !ok {
 			return errors.New("listCache.caches is not *cacheContentText")
 		}
-		info.fontISubset.AddChars(text)
-		contentText.text = text
+		fontText, err := info.fontISubset.AddChars(text)
+		if err != nil {
+			return err
+		}
+		contentText.text = fontText
 
 		//Calculate position
-		_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, info.fontSize, info.charSpacing, nil)
+		width, _, err := contentText.createContent()
 		if err != nil {
 			return err
 		}
-		width := pointsToUnits(gp.config, textWidthPdfUnit)
 
+		contentText.x = info.x
 		if align == Right {
 			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff
+			contentText.x = info.x + diff
 		} else if align == Center {
 			diff := info.placeHolderWidth - width
-			contentText.x = contentText.x + diff/2
+			contentText.x = info.x + diff/2
 		}
 	}
 
diff --git a/placeholder.go b/placeholder.go
index fb49508..f648430 100644
--- a/placeholder.go
+++ b/placeholder.go
@@ -12,4 +12,5 @@ type placeHolderTextInfo struct {
 	placeHolderWidth float64
 	fontSize         float64
 	charSpacing      float64
+	x                float64
 }
-- 
2.43.0


From 26ebec436259d736f483f4e88db0d53696c5d19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 24/66] fix: a rejected colour space adds nothing to the
 document

---
 gopdf.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 5fba864..5503492 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2674,8 +2674,6 @@ func (gp *GoPdf) AddColorSpaceCMYK(name string, c, m, y, k uint8) error {
 }
 
 func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
-	index := gp.addObj(colorSpace)
-
 	if gp.indexOfProcSet != -1 {
 		procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
 
@@ -2685,6 +2683,7 @@ func (gp *GoPdf) addColorSpace(colorSpace *ColorSpaceObj) error {
 			}
 		}
 
+		index := gp.addObj(colorSpace)
 		procset.RelateColorSpaces = append(procset.RelateColorSpaces, RelateColorSpace{Name: colorSpace.Name, IndexOfObj: index, CountOfColorSpace: gp.curr.CountOfColorSpace})
 		colorSpace.CountOfSpaceColor = gp.curr.CountOfColorSpace
 		gp.curr.CountOfColorSpace++
-- 
2.43.0


From 20edbee4cef8432ba7d8e4924f49adc610840587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 25/66] fix: SetCompressLevel above the maximum uses the
 maximum, as it says

---
 gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 5503492..16f16a8 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -188,7 +188,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From 4f7d4bd34b6e70649cd2d7e0dbcf258bf5b343ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 26/66] fix: underlines are below the text in every vertical
 alignment

---
 cache_content_text.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 733fa82..7784d4e 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -388,7 +388,14 @@ func (c *cacheContentText) underline(w io.Writer) error {
 	underlinePositionPx := c.fontSubset.GetUnderlinePositionPx(c.fontSize) * coefUnderlinePosition
 	underlineThicknessPx := c.fontSubset.GetUnderlineThicknessPx(c.fontSize) * coefUnderlineThickness
 
-	yUnderlinePosition := c.pageHeight() - c.y + underlinePositionPx - baseline
+	// c.y is the top of a top aligned cell, move along with the text otherwise
+	textY, err := c.calY()
+	if err != nil {
+		return err
+	}
+	shift := textY - (c.pageHeight() - c.y - c.calTypoAscender())
+
+	yUnderlinePosition := c.pageHeight() - c.y + shift + underlinePositionPx - baseline
 	if _, err := fmt.Fprintf(w, "%0.2f %0.2f %0.2f %0.2f re f\n", c.x, yUnderlinePosition, c.cellWidthPdfUnit, underlineThicknessPx); err != nil {
 		return err
 	}
-- 
2.43.0


From f3070768862a87d01db1233c1d5bcafead13a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 27/66] fix: splitting text keeps kerned lines within the
 width, and ends when a character is wider than the line or the separator does
 not fit

---
 gopdf.go | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 16f16a8..be60755 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1239,7 +1239,6 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 	var line []rune
 	x := gp.GetX()
 	var totalLineHeight float64
-	length := len([]rune(text))
 
 	// get lineHeight
 	text, err := gp.curr.FontISubset.AddChars(text)
@@ -1252,15 +1251,20 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 	}
 	gp.PointsToUnitsVar(&lineHeight)
 
+	length := len([]rune(text))
 	for i, v := range []rune(text) {
 		if totalLineHeight+lineHeight > rectangle.H {
 			break
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, err := gp.MeasureTextWidth(string(line) + string(v))
+		if err != nil {
+			return err
+		}
 
-		if lineWidth+runeWidth > rectangle.W {
-			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
+		if lineWidth > rectangle.W && len(line) > 0 {
+			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+				return err
+			}
 			gp.Br(lineHeight)
 			gp.SetX(x)
 			totalLineHeight = totalLineHeight + lineHeight
@@ -1270,7 +1274,9 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 		line = append(line, v)
 
 		if i == length-1 {
-			gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line))
+			if err := gp.Cell(&Rect{W: rectangle.W, H: lineHeight}, string(line)); err != nil {
+				return err
+			}
 			gp.Br(lineHeight)
 			gp.SetX(x)
 		}
@@ -1282,7 +1288,6 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, error) {
 	var line []rune
 	var totalLineHeight float64
-	length := len([]rune(text))
 
 	// get lineHeight
 	text, err := gp.curr.FontISubset.AddChars(text)
@@ -1296,14 +1301,17 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 	}
 	gp.PointsToUnitsVar(&lineHeight)
 
+	length := len([]rune(text))
 	for i, v := range []rune(text) {
 		if totalLineHeight+lineHeight > rectangle.H {
 			return false, totalLineHeight, nil
 		}
-		lineWidth, _ := gp.MeasureTextWidth(string(line))
-		runeWidth, _ := gp.MeasureTextWidth(string(v))
+		lineWidth, err := gp.MeasureTextWidth(string(line) + string(v))
+		if err != nil {
+			return false, totalLineHeight, err
+		}
 
-		if lineWidth+runeWidth > rectangle.W {
+		if lineWidth > rectangle.W && len(line) > 0 {
 			totalLineHeight += lineHeight
 			line = nil
 		}
@@ -1385,7 +1393,9 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 	for i, text := range textSplits {
 		lineOpt := opt
 		lineOpt.Align = lineAlign(opt.Align, i == lastLine)
-		gp.CellWithOption(&Rect{W: rectangle.W, H: startHeight}, string(text), lineOpt)
+		if err := gp.CellWithOption(&Rect{W: rectangle.W, H: startHeight}, string(text), lineOpt); err != nil {
+			return err
+		}
 		gp.Br(lineHeight)
 		gp.SetX(x)
 	}
@@ -1426,18 +1436,18 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 		return nil, err
 	}
 	// possible (not conflicting) position of the separator within the currently processed line
-	separatorIdx := 0
+	separatorIdx := -1
 	for i := 0; i < utf8TextsLen; i++ {
-		lineWidth, err := gp.MeasureTextWidth(string(lineText))
-		if err != nil {
-			return nil, err
+		if len(lineText) == 0 {
+			separatorIdx = -1
 		}
-		runeWidth, err := gp.MeasureTextWidth(string(utf8Texts[i]))
+		// width of the line with the current rune, kerning included
+		lineWidth, err := gp.MeasureTextWidth(string(lineText) + string(utf8Texts[i]))
 		if err != nil {
 			return nil, err
 		}
 		// mid-word break required since the max width of the given rect is exceeded
-		if lineWidth+runeWidth > width && utf8Texts[i] != '\n' {
+		if lineWidth > width && len(lineText) > 0 && utf8Texts[i] != '\n' {
 			// forceBreak will be set to true in case an indicator sensitive break was not possible which will cause
 			// strict break to not exceed the desired width
 			forceBreak := false
@@ -1462,7 +1472,7 @@ func (gp *GoPdf) SplitTextWithOption(text string, width float64, opt *BreakOptio
 			lineTexts = append(lineTexts, string(lineText))
 		}
 		// store overall index when separator would still fit in the currently processed text-line
-		if opt.HasSeparator() && lineWidth+runeWidth+separatorWidth <= width {
+		if opt.HasSeparator() && len(lineText) > 0 && lineWidth+separatorWidth <= width {
 			separatorIdx = i
 		}
 		lineText = append(lineText, utf8Texts[i])
-- 
2.43.0


From e7caa683ec9f0b2965dd8bb9200e35a333047ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 28/66] fix: names of fonts and colours are escaped, any
 character may be in them

---
 color_space_obj.go |  4 ++--
 strhelper.go       | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/color_space_obj.go b/color_space_obj.go
index f447fbf..82b2596 100644
--- a/color_space_obj.go
+++ b/color_space_obj.go
@@ -39,12 +39,12 @@ func (cs *ColorSpaceObj) SetColorRBG(r, g, b uint8) {
 	cs.colorString0 = "0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f", float64(r)/255.0, float64(g)/255.0, float64(b)/255.0)
 	cs.space = "/DeviceRGB"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
 
 func (cs *ColorSpaceObj) SetColorCMYK(c, m, y, k uint8) {
 	cs.colorString0 = "0.0 0.0 0.0 0.0"
 	cs.colorString1 = fmt.Sprintf("%.3f %.3f %.3f %.3f", float64(c)/100.0, float64(m)/100.0, float64(y)/100.0, float64(k)/100.0)
 	cs.space = "/DeviceCMYK"
-	cs.spaceName = fmt.Sprintf("/%s", cs.Name)
+	cs.spaceName = "/" + escapeName(cs.Name)
 }
diff --git a/strhelper.go b/strhelper.go
index b91af9d..2ad61ca 100644
--- a/strhelper.go
+++ b/strhelper.go
@@ -1,6 +1,7 @@
 package gopdf
 
 import (
+	"fmt"
 	"math/big"
 	"strings"
 )
@@ -28,7 +29,23 @@ func StrHelperGetStringWidthPrecise(str string, fontSize float64, ifont IFont) f
 func CreateEmbeddedFontSubsetName(name string) string {
 	name = strings.Replace(name, " ", "+", -1)
 	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return escapeName(name)
+}
+
+// escapeName writes a text as a PDF name, without the leading slash
+func escapeName(name string) string {
+	var buff strings.Builder
+	for i := 0; i < len(name); i++ {
+		b := name[i]
+		switch {
+		case b == 0: // a name cannot hold it
+		case b < '!' || b > '~' || strings.IndexByte("#()<>[]{}/%", b) >= 0:
+			fmt.Fprintf(&buff, "#%02X", b)
+		default:
+			buff.WriteByte(b)
+		}
+	}
+	return buff.String()
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From 8a125a4b1285f186d6c051c2e3b98f87800b447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 29/66] fix: MultiCell draws no line below its rectangle

---
 gopdf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index be60755..b1c2a53 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1269,6 +1269,11 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 			gp.SetX(x)
 			totalLineHeight = totalLineHeight + lineHeight
 			line = nil
+
+			// no room is left for the line that starts here
+			if totalLineHeight+lineHeight > rectangle.H {
+				break
+			}
 		}
 
 		line = append(line, v)
-- 
2.43.0


From e79a04058f13ae4c0042039126133bd4ba4885b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 30/66] fix: imported objects end once

---
 imported_obj.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/imported_obj.go b/imported_obj.go
index b42189b..726a33a 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"io"
+	"strings"
 )
 
 // ImportedObj : imported object
@@ -18,8 +19,12 @@ func (c *ImportedObj) getType() string {
 }
 
 func (c *ImportedObj) write(w io.Writer, objID int) error {
-	if c != nil {
-		io.WriteString(w, c.Data)
+	if c == nil {
+		return nil
 	}
-	return nil
+	// the importer ends each object itself, as does the document
+	data := strings.TrimRight(c.Data, "\r\n\t ")
+	data = strings.TrimSuffix(data, "endobj")
+	_, err := io.WriteString(w, data+"\n")
+	return err
 }
-- 
2.43.0


From e88d58d5205833f5e6e1dd47f705651e21941cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 31/66] fix: imported templates are listed in one order on
 every output

---
 procset_obj.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/procset_obj.go b/procset_obj.go
index 77da7ac..fe22751 100644
--- a/procset_obj.go
+++ b/procset_obj.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"fmt"
 	"io"
+	"sort"
 )
 
 // ProcSetObj is a PDF procSet object.
@@ -47,8 +48,13 @@ func (pr *ProcSetObj) write(w io.Writer, objID int) error {
 		xobjects += fmt.Sprintf("\t\t/I%d %d 0 R\n", XObject.IndexOfObj+1, XObject.IndexOfObj+1)
 	}
 	// Write imported template name and their ids
-	for tplName, objID := range pr.ImportedTemplateIds {
-		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, objID)
+	tplNames := make([]string, 0, len(pr.ImportedTemplateIds))
+	for tplName := range pr.ImportedTemplateIds {
+		tplNames = append(tplNames, tplName)
+	}
+	sort.Strings(tplNames)
+	for _, tplName := range tplNames {
+		xobjects += fmt.Sprintf("\t\t%s %d 0 R\n", tplName, pr.ImportedTemplateIds[tplName])
 	}
 	xobjects += "\t>>\n"
 
-- 
2.43.0


From fd83d36b3f3a96d642ba45ae076872bd4dc0e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 32/66] fix: Start counts pages anew

---
 gopdf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopdf.go b/gopdf.go
index b1c2a53..12d17b7 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -2262,6 +2262,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	gp.indexOfPagesObj = -1
 	gp.indexOfFirstPageObj = -1
 	gp.indexOfContent = -1
+	gp.numOfPagesObj = 0
 
 	//No underline
 	//gp.IsUnderline = false
-- 
2.43.0


From d1ca9e0f3703e123cf4888a5dbee53d9bac9ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 33/66] fix: a masked image rotates as one without a mask does,
 flipped or cropped

---
 cache_content_image.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cache_content_image.go b/cache_content_image.go
index 9e4e3f6..981d87a 100644
--- a/cache_content_image.go
+++ b/cache_content_image.go
@@ -57,8 +57,16 @@ func (c *cacheContentImage) computeMaskImageRotateTrMt() string {
 		return ""
 	}
 
-	x := c.x + c.rect.W/2
-	y := c.y + c.rect.H/2
+	w := c.rect.W
+	h := c.rect.H
+
+	if c.crop != nil {
+		w = c.crop.Width
+		h = c.crop.Height
+	}
+
+	x := c.x + w/2
+	y := c.y + h/2
 
 	rotateMat := computeRotateTransformationMatrix(x, y, angle, c.pageHeight)
 
@@ -83,6 +91,12 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		contentStream += fmt.Sprintf("/GS%d gs\n", extGStateIndex)
 	}
 
+	// the mask stays in page coordinates: the rotation comes after the graphics state
+	// and before the flip and the crop, as for images without a mask.
+	if c.withMask {
+		contentStream += c.computeMaskImageRotateTrMt()
+	}
+
 	if c.horizontalFlip || c.verticalFlip {
 		fh := "1"
 		if c.horizontalFlip {
@@ -134,12 +148,7 @@ func (c *cacheContentImage) write(writer io.Writer, protection *PDFProtection) e
 		}
 	}
 
-	var maskImageRotateMat string
-	if c.withMask {
-		maskImageRotateMat = c.computeMaskImageRotateTrMt()
-	}
-
-	contentStream += fmt.Sprintf("q\n %s %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", maskImageRotateMat, width, height, x, y, c.index+1)
+	contentStream += fmt.Sprintf("q\n %0.2f 0 0\n %0.2f %0.2f %0.2f cm /I%d Do \nQ\n", width, height, x, y, c.index+1)
 
 	contentStream += "Q\n"
 
-- 
2.43.0


From 05704eda9db4bb1c66b3c99b662882585fb0cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 34/66] fix: ImageFrom takes pictures of any colour model, e.g.
 a decoded JPEG

---
 gopdf.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 12d17b7..64e45a6 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -8,6 +8,8 @@ import (
 	"errors"
 	"fmt"
 	"image"
+	"image/color"
+	"image/draw"
 	"image/jpeg"
 	"image/png"
 	"io"
@@ -801,6 +803,23 @@ func (gp *GoPdf) ImageFrom(img image.Image, x float64, y float64, rect *Rect) er
 	})
 }
 
+// with8BitDepth returns img, or a copy of it where png.Encode would write 16 bits
+// per channel (which this library cannot embed), e.g. for a decoded JPEG.
+func with8BitDepth(img image.Image) image.Image {
+	if _, ok := img.(image.PalettedImage); ok {
+		return img
+	}
+
+	switch img.ColorModel() {
+	case color.GrayModel, color.RGBAModel, color.NRGBAModel, color.AlphaModel:
+		return img
+	}
+
+	dst := image.NewNRGBA(img.Bounds())
+	draw.Draw(dst, dst.Bounds(), img, img.Bounds().Min, draw.Src)
+	return dst
+}
+
 func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) error {
 	if img == nil {
 		return errors.New("Invalid image")
@@ -814,7 +833,7 @@ func (gp *GoPdf) ImageFromWithOption(img image.Image, opts ImageFromOption) erro
 		var err error
 		switch opts.Format {
 		case "png":
-			err = png.Encode(bw, img)
+			err = png.Encode(bw, with8BitDepth(img))
 		case "jpeg":
 			err = jpeg.Encode(bw, img, nil)
 		}
-- 
2.43.0


From 8ddb26226233ba6dc16f4957d1a10ee8c779cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 35/66] fix: font data given as bytes is copied, as it is read
 again when the font is embedded

---
 subset_font_obj.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index cb37664..76c7a6b 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -126,7 +126,8 @@ func (s *SubsetFontObj) SetTTFByReader(rd io.Reader) error {
 func (s *SubsetFontObj) SetTTFData(data []byte) error {
 	useKerning := s.ttfFontOption.UseKerning
 	s.ttfp.SetUseKerning(useKerning)
-	err := s.ttfp.ParseFontData(data)
+	// the parser keeps the data until the font is embedded
+	err := s.ttfp.ParseFontData(append([]byte(nil), data...))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cc828fa94a81e8e07b080b2659d0e892ecba96f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 36/66] fix: imported objects are encrypted in protected
 documents

---
 gopdf.go        |   6 +-
 imported_obj.go | 142 +++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 145 insertions(+), 3 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 64e45a6..126c012 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1800,7 +1800,11 @@ func (gp *GoPdf) GetNumberOfPages() int {
 func (gp *GoPdf) ImportObjects(objs map[int]string, startObjID int) {
 	for i := startObjID; i < len(objs)+startObjID; i++ {
 		if objs[i] != "" {
-			gp.addObj(&ImportedObj{Data: objs[i]})
+			obj := &ImportedObj{Data: objs[i]}
+			obj.init(func() *GoPdf {
+				return gp
+			})
+			gp.addObj(obj)
 		}
 	}
 }
diff --git a/imported_obj.go b/imported_obj.go
index 726a33a..bbb9b72 100644
--- a/imported_obj.go
+++ b/imported_obj.go
@@ -1,23 +1,33 @@
 package gopdf
 
 import (
+	"fmt"
 	"io"
+	"strconv"
 	"strings"
 )
 
 // ImportedObj : imported object
 type ImportedObj struct { //impl IObj
-	Data string
+	Data    string
+	getRoot func() *GoPdf
 }
 
 func (c *ImportedObj) init(funcGetRoot func() *GoPdf) {
-
+	c.getRoot = funcGetRoot
 }
 
 func (c *ImportedObj) getType() string {
 	return "Imported"
 }
 
+func (c *ImportedObj) protection() *PDFProtection {
+	if c.getRoot == nil {
+		return nil
+	}
+	return c.getRoot().protection()
+}
+
 func (c *ImportedObj) write(w io.Writer, objID int) error {
 	if c == nil {
 		return nil
@@ -25,6 +35,134 @@ func (c *ImportedObj) write(w io.Writer, objID int) error {
 	// the importer ends each object itself, as does the document
 	data := strings.TrimRight(c.Data, "\r\n\t ")
 	data = strings.TrimSuffix(data, "endobj")
+	if protection := c.protection(); protection != nil {
+		var err error
+		data, err = encryptObject(data, protection.objectkey(objID))
+		if err != nil {
+			return err
+		}
+	}
 	_, err := io.WriteString(w, data+"\n")
 	return err
 }
+
+// encryptObject encrypts the strings and the stream of an object in PDF syntax.
+func encryptObject(data string, key []byte) (string, error) {
+	var out strings.Builder
+	for i := 0; i < len(data); {
+		var str []byte
+		rest := data[i:]
+		switch {
+		case strings.HasPrefix(rest, "<<"):
+			out.WriteString("<<")
+			i += 2
+			continue
+		case rest[0] == '(':
+			var n int
+			str, n = parseLiteralString(rest)
+			i += n
+		case rest[0] == '<':
+			n := strings.IndexByte(rest, '>')
+			if n < 0 {
+				return "", fmt.Errorf("imported object has an unfinished string")
+			}
+			str = parseHexString(rest[1:n])
+			i += n + 1
+		case strings.HasPrefix(rest, "stream\n") && strings.HasSuffix(strings.TrimRight(data[:i], "\r\n\t "), ">>"):
+			body := strings.TrimSuffix(strings.TrimRight(rest, "\r\n\t "), "endstream")
+			body = strings.TrimSuffix(strings.TrimPrefix(body, "stream\n"), "\n")
+			cip, err := rc4Cip(key, []byte(body))
+			if err != nil {
+				return "", err
+			}
+			out.WriteString("stream\n" + string(cip) + "\nendstream\n")
+			return out.String(), nil
+		default:
+			out.WriteByte(rest[0])
+			i++
+			continue
+		}
+
+		cip, err := rc4Cip(key, str)
+		if err != nil {
+			return "", err
+		}
+		fmt.Fprintf(&out, "<%X>", cip)
+	}
+	return out.String(), nil
+}
+
+// parseLiteralString gives the bytes of the literal string s starts with, and how long
+// that string is in s.
+func parseLiteralString(s string) ([]byte, int) {
+	var str []byte
+	depth := 1
+	i := 1
+	for ; i < len(s); i++ {
+		ch := s[i]
+		switch ch {
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return str, i + 1
+			}
+		case '\r': // an end of line is a line feed, however it is written
+			if i+1 < len(s) && s[i+1] == '\n' {
+				i++
+			}
+			ch = '\n'
+		case '\\':
+			i++
+			if i >= len(s) {
+				return str, i
+			}
+			switch ch = s[i]; ch {
+			case 'n':
+				ch = '\n'
+			case 'r':
+				ch = '\r'
+			case 't':
+				ch = '\t'
+			case 'b':
+				ch = '\b'
+			case 'f':
+				ch = '\f'
+			case '\r', '\n': // the string continues on the next line
+				if ch == '\r' && i+1 < len(s) && s[i+1] == '\n' {
+					i++
+				}
+				continue
+			case '0', '1', '2', '3', '4', '5', '6', '7':
+				n := i
+				for n < len(s) && n < i+3 && s[n] >= '0' && s[n] <= '7' {
+					n++
+				}
+				code, _ := strconv.ParseUint(s[i:n], 8, 16)
+				ch = byte(code)
+				i = n - 1
+			}
+		}
+		str = append(str, ch)
+	}
+	return str, i
+}
+
+// parseHexString gives the bytes of the hexadecimal digits in s.
+func parseHexString(s string) []byte {
+	var digits []byte
+	for i := 0; i < len(s); i++ {
+		if d, err := strconv.ParseUint(s[i:i+1], 16, 8); err == nil {
+			digits = append(digits, byte(d))
+		}
+	}
+	if len(digits)%2 == 1 {
+		digits = append(digits, 0)
+	}
+	str := make([]byte, len(digits)/2)
+	for i := range str {
+		str[i] = digits[2*i]<<4 | digits[2*i+1]
+	}
+	return str
+}
-- 
2.43.0


From 18d22a6c2c1575c5d2865f7fa932cdaa6afef382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 37/66] fix: streams imported from are kept, as gofpdi tells
 them apart by address

---
 gopdf.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 126c012..7fe88e8 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -105,6 +105,9 @@ type GoPdf struct {
 	// gofpdi free pdf document importer
 	fpdi *gofpdi.Importer
 
+	//streams given to fpdi
+	importedStreams []*io.ReadSeeker
+
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
 }
@@ -1666,7 +1669,7 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 // gofpdi code
 func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box string) int {
 	// Set source file for fpdi
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(sourceStream)
 
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
@@ -1695,10 +1698,17 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	return tpl
 }
 
+// setSourceStream makes sourceStream the source of the next imports. gofpdi tells streams apart
+// by their addresses, so every stream is kept: the address of a collected one could come again.
+func (gp *GoPdf) setSourceStream(sourceStream *io.ReadSeeker) {
+	gp.importedStreams = append(gp.importedStreams, sourceStream)
+	gp.fpdi.SetSourceStream(sourceStream)
+}
+
 // GetStreamPageSizes gets the sizes of the pages using a stream
 // Returns a map of available pages and its box sizes starting with the first page at index 1 containing a map of boxes containing a map of size values
 func (gp *GoPdf) GetStreamPageSizes(sourceStream *io.ReadSeeker) map[int]map[string]map[string]float64 {
-	gp.fpdi.SetSourceStream(sourceStream)
+	gp.setSourceStream(sourceStream)
 	return gp.fpdi.GetPageSizes()
 }
 
@@ -1727,13 +1737,13 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 	case []byte:
 		// Set source stream for fpdi
 		rs := io.ReadSeeker(bytes.NewReader(v))
-		gp.fpdi.SetSourceStream(&rs)
+		gp.setSourceStream(&rs)
 	case io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(&v)
+		gp.setSourceStream(&v)
 	case *io.ReadSeeker:
 		// Set source stream for fpdi
-		gp.fpdi.SetSourceStream(v)
+		gp.setSourceStream(v)
 	default:
 		return errors.New("source type not supported")
 	}
@@ -2300,6 +2310,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
+	gp.importedStreams = nil
 
 }
 
-- 
2.43.0


From 5f41b706823e2383c9655df8a6d69e386933ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 38/66] fix: templates imported from alternating sources have
 names of their own

---
 gopdf.go | 69 +++++++++++++++++---------------------------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index 7fe88e8..5cab8af 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -108,6 +108,9 @@ type GoPdf struct {
 	//streams given to fpdi
 	importedStreams []*io.ReadSeeker
 
+	//names of the imported templates by template id
+	importedTplNames map[int]string
+
 	//placeholder text
 	placeHolderTexts map[string]([]placeHolderTextInfo)
 }
@@ -1637,31 +1640,8 @@ func (gp *GoPdf) ImportPage(sourceFile string, pageno int, box string) int {
 	// Set source file for fpdi
 	gp.fpdi.SetSourceFile(sourceFile)
 
-	// gofpdi needs to know where to start the object id at.
-	// By default, it starts at 1, but gopdf adds a few objects initially.
-	startObjID := gp.GetNextObjectID()
-
-	// Set gofpdi next object ID to  whatever the value of startObjID is
-	gp.fpdi.SetNextObjectID(startObjID)
-
-	// Import page
-	tpl := gp.fpdi.ImportPage(pageno, box)
-
-	// Import objects into current pdf document
-	tplObjIDs := gp.fpdi.PutFormXobjects()
-
-	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
-
-	// Get a map[int]string of the imported objects.
-	// The map keys will be the ID of each object.
-	imported := gp.fpdi.GetImportedObjects()
-
-	// Import gofpdi objects into gopdf, starting at whatever the value of startObjID is
-	gp.ImportObjects(imported, startObjID)
-
-	// Return template ID
-	return tpl
+	// Import page and return template ID
+	return gp.importSourcePage(pageno, box)
 }
 
 // ImportPageStream imports page using a stream.
@@ -1671,6 +1651,12 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	// Set source file for fpdi
 	gp.setSourceStream(sourceStream)
 
+	// Import page and return template ID
+	return gp.importSourcePage(pageno, box)
+}
+
+// importSourcePage imports a page of the current source and returns its template id.
+func (gp *GoPdf) importSourcePage(pageno int, box string) int {
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
 	startObjID := gp.GetNextObjectID()
@@ -1684,8 +1670,11 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 	// Import objects into current pdf document
 	tplObjIDs := gp.fpdi.PutFormXobjects()
 
-	// Set template names and ids in gopdf
-	gp.ImportTemplates(tplObjIDs)
+	// Set template name and id in gopdf. Templates are named anew by their ids: gofpdi gives
+	// templates of different sources the same name when the imports of the sources alternate.
+	tplName, _, _, _, _ := gp.fpdi.UseTemplate(tpl, 0, 0, 1, 1)
+	gp.importedTplNames[tpl] = fmt.Sprintf("/GOPDFTPL%d", tpl)
+	gp.ImportTemplates(map[string]int{gp.importedTplNames[tpl]: tplObjIDs[tplName]})
 
 	// Get a map[int]string of the imported objects.
 	// The map keys will be the ID of each object.
@@ -1724,6 +1713,9 @@ func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64,
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
 	// Get template values to draw
 	tplName, scaleX, scaleY, tX, tY := gp.fpdi.UseTemplate(tplid, x, y, w, h)
+	if name, ok := gp.importedTplNames[tplid]; ok {
+		tplName = name
+	}
 	gp.getContent().AppendStreamImportedTemplate(tplName, scaleX, scaleY, tX, tY)
 }
 
@@ -1766,28 +1758,8 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Add a new page to the document
 		gp.AddPage()
 
-		// gofpdi needs to know where to start the object id at.
-		// By default, it starts at 1, but gopdf adds a few objects initially.
-		startObjID := gp.GetNextObjectID()
-
-		// Set gofpdi next object ID to  whatever the value of startObjID is
-		gp.fpdi.SetNextObjectID(startObjID)
-
 		// Import page
-		tpl := gp.fpdi.ImportPage(pageno, box)
-
-		// Import objects into current pdf document
-		tplObjIDs := gp.fpdi.PutFormXobjects()
-
-		// Set template names and ids in gopdf
-		gp.ImportTemplates(tplObjIDs)
-
-		// Get a map[int]string of the imported objects.
-		// The map keys will be the ID of each object.
-		imported := gp.fpdi.GetImportedObjects()
-
-		// Import gofpdi objects into gopdf, starting at whatever the value of startObjID is
-		gp.ImportObjects(imported, startObjID)
+		tpl := gp.importSourcePage(pageno, box)
 
 		// Draws the imported template on the current page
 		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
@@ -2311,6 +2283,7 @@ func (gp *GoPdf) init(importer ...*gofpdi.Importer) {
 	// init gofpdi free pdf document importer
 	gp.fpdi = importerOrDefault(importer...)
 	gp.importedStreams = nil
+	gp.importedTplNames = make(map[int]string)
 
 }
 
-- 
2.43.0


From 15549e8477bd4706155e67a90318c79a9a0964b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 39/66] fix: a template's missing width or height is taken from
 the template itself

---
 gopdf.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index 5cab8af..a0d2383 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1711,6 +1711,24 @@ func (gp *GoPdf) GetPageSizes(sourceFile string) map[int]map[string]map[string]f
 // UseImportedTemplate draws an imported PDF page.
 func (gp *GoPdf) UseImportedTemplate(tplid int, x float64, y float64, w float64, h float64) {
 	gp.UnitsToPointsVar(&x, &y, &w, &h)
+	gp.useImportedTemplate(tplid, x, y, w, h)
+}
+
+// useImportedTemplate draws an imported PDF page, with its place and size in points.
+func (gp *GoPdf) useImportedTemplate(tplid int, x float64, y float64, w float64, h float64) {
+	if w == 0 || h == 0 {
+		// The missing sizes are those of this template: gofpdi would take the first one's.
+		_, scaleX, scaleY, _, _ := gp.fpdi.UseTemplate(tplid, 0, 0, 1, 1)
+		tplW, tplH := 1/scaleX, 1/scaleY
+		switch {
+		case w != 0:
+			h = w * tplH / tplW
+		case h != 0:
+			w = h * tplW / tplH
+		default:
+			w, h = tplW, tplH
+		}
+	}
 	// Get template values to draw
 	tplName, scaleX, scaleY, tX, tY := gp.fpdi.UseTemplate(tplid, x, y, w, h)
 	if name, ok := gp.importedTplNames[tplid]; ok {
-- 
2.43.0


From 7ee4d12a6cd79e0c1af957b0e34730ab907052f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 40/66] fix: ImportPagesFromSource draws pages in their own
 size whatever the document's unit and their rotation

---
 gopdf.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gopdf.go b/gopdf.go
index a0d2383..affc9d8 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1767,9 +1767,8 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 	for i := 0; i < pages; i++ {
 		pageno := i + 1
 
-		// Get the size of the page
-		size, ok := sizes[pageno][box]
-		if !ok {
+		// The page needs to have the box
+		if _, ok := sizes[pageno][box]; !ok {
 			return errors.New("can not get page size")
 		}
 
@@ -1779,8 +1778,8 @@ func (gp *GoPdf) ImportPagesFromSource(source interface{}, box string) error {
 		// Import page
 		tpl := gp.importSourcePage(pageno, box)
 
-		// Draws the imported template on the current page
-		gp.UseImportedTemplate(tpl, 0, 0, size["w"], size["h"])
+		// Draws the imported template on the current page, in its own size
+		gp.useImportedTemplate(tpl, 0, 0, 0, 0)
 	}
 
 	return nil
-- 
2.43.0


From 25325da73f2bfd9f32b50fa1f84dfbdcb88d0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 41/66] fix: imported pages start without the dash pattern of
 the page

---
 cache_content_imported_object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index 610ade4..3d6147a 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -16,6 +16,6 @@ type cacheContentImportedTemplate struct {
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
 	tY := c.tY + c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
+	fmt.Fprintf(w, "q 0 J 1 w 0 j [] 0 d 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
 	return nil
 }
-- 
2.43.0


From 58f886a02c7fe080ce58856f6b7594809a0b07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 42/66] fix: imported pages start without the character spacing
 and leading of the page

---
 cache_content_imported_object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_content_imported_object.go b/cache_content_imported_object.go
index 3d6147a..0ff75ab 100644
--- a/cache_content_imported_object.go
+++ b/cache_content_imported_object.go
@@ -16,6 +16,6 @@ type cacheContentImportedTemplate struct {
 
 func (c *cacheContentImportedTemplate) write(w io.Writer, protection *PDFProtection) error {
 	tY := c.tY + c.pageHeight
-	fmt.Fprintf(w, "q 0 J 1 w 0 j [] 0 d 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
+	fmt.Fprintf(w, "q 0 J 1 w 0 j [] 0 d 0 Tc 0 TL 0 G 0 g q %.4F 0 0 %.4F %.4F %.4F cm %s Do Q Q\n", c.scaleX, c.scaleY, c.tX, tY, c.tplName)
 	return nil
 }
-- 
2.43.0


From 268ee3f34c8a4e327b3146bc6730e5367a2b5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 43/66] fix: pages imported by a box they do not have are
 imported by their default one

---
 gopdf.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gopdf.go b/gopdf.go
index affc9d8..4857670 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1657,6 +1657,8 @@ func (gp *GoPdf) ImportPageStream(sourceStream *io.ReadSeeker, pageno int, box s
 
 // importSourcePage imports a page of the current source and returns its template id.
 func (gp *GoPdf) importSourcePage(pageno int, box string) int {
+	box = gp.importSourceBox(pageno, box)
+
 	// gofpdi needs to know where to start the object id at.
 	// By default, it starts at 1, but gopdf adds a few objects initially.
 	startObjID := gp.GetNextObjectID()
@@ -1687,6 +1689,22 @@ func (gp *GoPdf) importSourcePage(pageno int, box string) int {
 	return tpl
 }
 
+// importSourceBox returns box, or the box that stands for it where the source has none:
+// a page is cropped to its media box, and the other boxes are those it is cropped to.
+func (gp *GoPdf) importSourceBox(pageno int, box string) string {
+	if box == "/MediaBox" {
+		return box
+	}
+	sizes := gp.fpdi.GetPageSizes()
+	for _, b := range []string{box, "/CropBox"} {
+		// gofpdi looks for the box in the first page, too
+		if sizes[pageno][b]["w"] != 0 && sizes[1][b]["w"] != 0 {
+			return b
+		}
+	}
+	return "/MediaBox"
+}
+
 // setSourceStream makes sourceStream the source of the next imports. gofpdi tells streams apart
 // by their addresses, so every stream is kept: the address of a collected one could come again.
 func (gp *GoPdf) setSourceStream(sourceStream *io.ReadSeeker) {
-- 
2.43.0


From 3ed14738855a45d853d0be0dfa50eeda85b605d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 44/66] fix: the colors of CMYK jpegs are inverted only with
 the Adobe marker

---
 image_obj_parse.go | 25 ++++++++++++++++++++++++-
 img_info.go        |  1 +
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/image_obj_parse.go b/image_obj_parse.go
index afa2041..0bce9ff 100644
--- a/image_obj_parse.go
+++ b/image_obj_parse.go
@@ -96,7 +96,7 @@ func writeBaseImgProps(w io.Writer, imginfo imgInfo, colorSpace string) error {
 		content += fmt.Sprintf("\t/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1)
 	} else {
 		content += fmt.Sprintf("\t/ColorSpace /%s\n", colorSpace)
-		if imginfo.colspace == "DeviceCMYK" {
+		if imginfo.colspace == "DeviceCMYK" && imginfo.inverted {
 			content += "\t/Decode [1 0 1 0 1 0 1 0]\n"
 		}
 	}
@@ -156,6 +156,7 @@ func parseImg(raw *bytes.Reader) (imgInfo, error) {
 		if err != nil {
 			return info, err
 		}
+		info.inverted = isAdobeJpg(info.data)
 
 	} else if formatname == "png" {
 		err = parsePng(raw, &info, imgConfig)
@@ -224,6 +225,28 @@ func parseImgJpg(info *imgInfo, imgConfig image.Config) error {
 	return nil
 }
 
+// isAdobeJpg reports if the header of the jpeg has the Adobe marker (APP14): the colors of
+// the CMYK images with it are inverted.
+func isAdobeJpg(data []byte) bool {
+	i := 2
+	for i+4 <= len(data) && data[i] == 0xFF {
+		marker := data[i+1]
+		if marker == 0xFF { // fill byte
+			i++
+			continue
+		}
+		if marker == 0xDA { // start of scan
+			return false
+		}
+		size := int(data[i+2])<<8 | int(data[i+3])
+		if marker == 0xEE && size >= 7 && bytes.HasPrefix(data[i+4:], []byte("Adobe")) {
+			return true
+		}
+		i += 2 + size
+	}
+	return false
+}
+
 var pngMagicNumber = []byte{0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a}
 var pngIHDR = []byte{0x49, 0x48, 0x44, 0x52}
 
diff --git a/img_info.go b/img_info.go
index e174aed..6fce6d1 100644
--- a/img_info.go
+++ b/img_info.go
@@ -5,6 +5,7 @@ type imgInfo struct {
 	//src              string
 	formatName       string
 	colspace         string
+	inverted         bool // the colors of the (CMYK) samples are inverted
 	bitsPerComponent string
 	filter           string
 	decodeParms      string
-- 
2.43.0


From 65294e0f087cde26a3ccb84c340a6da184e9aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 45/66] fix: components nested in composite glyphs are embedded

---
 pdf_dictionary_obj.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 5f771e1..33b61ae 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -293,11 +293,9 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 		glyphArray = append(glyphArray, 0)
 	}
 
-	i := 0
-	count := len(glyphs)
-	for i < count {
+	// components that are composites themselves are appended and visited too
+	for i := 0; i < len(glyphArray); i++ {
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
-		i++
 	}
 	return glyphArray
 }
-- 
2.43.0


From d283d23c117521121fb3c067f0501c1cc8560c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:49 +0000
Subject: [PATCH 46/66] fix: font tables the source does not have are left out
 of embedded fonts

---
 pdf_dictionary_obj.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 33b61ae..36fe2d9 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -185,15 +185,12 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 	var buff Buff
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
 	tables := make(map[string]core.TableDirectoryEntry)
-	tables["cvt "] = ttfp.GetTables()["cvt "] //มีช่องว่างด้วยนะ
-	tables["fpgm"] = ttfp.GetTables()["fpgm"]
-	tables["glyf"] = ttfp.GetTables()["glyf"]
-	tables["head"] = ttfp.GetTables()["head"]
-	tables["hhea"] = ttfp.GetTables()["hhea"]
-	tables["hmtx"] = ttfp.GetTables()["hmtx"]
-	tables["loca"] = ttfp.GetTables()["loca"]
-	tables["maxp"] = ttfp.GetTables()["maxp"]
-	tables["prep"] = ttfp.GetTables()["prep"]
+	for _, tag := range []string{"cvt " /*มีช่องว่างด้วยนะ*/, "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		// cvt, fpgm and prep are optional
+		if table, ok := ttfp.GetTables()[tag]; ok && (tag == "glyf" || table.Length > 0) {
+			tables[tag] = table
+		}
+	}
 	tableCount := len(tables)
 	selector := EntrySelectors[tableCount]
 
-- 
2.43.0


From e8f694de3625ffee28b6cb0c246c33738616d626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 47/66] fix: characters mapped to glyph 0 are characters the
 font lacks

---
 subset_font_obj.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/subset_font_obj.go b/subset_font_obj.go
index 76c7a6b..c895de5 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -245,6 +245,9 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	for _, gTb := range gTbs {
 		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
+			if gIndex == 0 {
+				return 0, ErrGlyphNotFound
+			}
 			return gIndex, nil
 		}
 	}
@@ -263,22 +266,29 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 		seg++
 	}
 	//fmt.Printf("\ncccc--->%#v\n", me.ttfp.Chars())
-	if value < s.ttfp.StartCount[seg] {
+	if seg >= segCount || value < s.ttfp.StartCount[seg] {
 		return 0, ErrGlyphNotFound
 	}
 
 	if s.ttfp.IdRangeOffset[seg] == 0 {
-
-		return (value + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
+		gIndex := (value + s.ttfp.IdDelta[seg]) & 0xFFFF
+		if gIndex == 0 {
+			return 0, ErrGlyphNotFound
+		}
+		return gIndex, nil
 	}
 	//fmt.Printf("IdRangeOffset=%d\n", me.ttfp.IdRangeOffset[seg])
 	idx := s.ttfp.IdRangeOffset[seg]/2 + (value - s.ttfp.StartCount[seg]) - (segCount - seg)
 
-	if s.ttfp.GlyphIdArray[int(idx)] == uint(0) {
-		return 0, nil
+	if idx >= uint(len(s.ttfp.GlyphIdArray)) || s.ttfp.GlyphIdArray[idx] == 0 {
+		return 0, ErrGlyphNotFound
 	}
 
-	return (s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil
+	gIndex := (s.ttfp.GlyphIdArray[idx] + s.ttfp.IdDelta[seg]) & 0xFFFF
+	if gIndex == 0 {
+		return 0, ErrGlyphNotFound
+	}
+	return gIndex, nil
 }
 
 // CharCodeToGlyphIndex gets glyph index from char code.
-- 
2.43.0


From e4558e9a9976bd2c840d3b21f2f74c851df8d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 48/66] fix: kerning of all subtables is used, and only the
 horizontal one

---
 fontmaker/core/ttfparser_kern.go | 48 ++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/fontmaker/core/ttfparser_kern.go b/fontmaker/core/ttfparser_kern.go
index 235a177..e275beb 100644
--- a/fontmaker/core/ttfparser_kern.go
+++ b/fontmaker/core/ttfparser_kern.go
@@ -17,6 +17,7 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 	}
 
 	t.kern = new(KernTable) //init
+	t.kern.Kerning = make(KernMap)
 
 	version, err := t.ReadUShort(fd)
 	if err != nil {
@@ -44,7 +45,11 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 
 func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
-	err := t.Skip(fd, 2+2) //skip version and length
+	err := t.Skip(fd, 2) //skip version
+	if err != nil {
+		return err
+	}
+	length, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
 	}
@@ -53,17 +58,25 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 		return err
 	}
 
-	format := coverage & 0xf0
-	t.kern.Kerning = make(KernMap) //init
-	if format == 0 {
-		return t.parsekernSubTableFormat0(fd)
-	} else {
+	if coverage>>8 != 0 {
 		//not support other format yet
-		return fmt.Errorf("not support kerning format %d", format)
+		if length < 6 {
+			return fmt.Errorf("invalid length of kerning format %d", coverage>>8)
+		}
+		return t.Skip(fd, int(length)-6)
 	}
+	return t.parsekernSubTableFormat0(fd, coverage)
 }
 
-func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
+// bits of the coverage of a subtable
+const (
+	kernHorizontal  = 1
+	kernMinimum     = 2
+	kernCrossStream = 4
+	kernOverride    = 8
+)
+
+func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader, coverage uint) error {
 	nPairs, err := t.ReadUShort(fd)
 	if err != nil {
 		return err
@@ -73,6 +86,8 @@ func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
 		return err
 	}
 
+	use := coverage&(kernHorizontal|kernMinimum|kernCrossStream) == kernHorizontal
+
 	i := uint(0)
 	for i < nPairs {
 		left, err := t.ReadUShort(fd)
@@ -90,12 +105,17 @@ func (t *TTFParser) parsekernSubTableFormat0(fd *bytes.Reader) error {
 			return err
 		}
 
-		if _, ok := t.kern.Kerning[left]; !ok {
-			kval := make(KernValue)
-			kval[right] = value
-			t.kern.Kerning[left] = kval
-		} else {
-			(t.kern.Kerning[left])[right] = value
+		if use {
+			kval, ok := t.kern.Kerning[left]
+			if !ok {
+				kval = make(KernValue)
+				t.kern.Kerning[left] = kval
+			}
+			if coverage&kernOverride != 0 {
+				kval[right] = value
+			} else { // the values of the subtables add up
+				kval[right] += value
+			}
 		}
 		//_ = fmt.Sprintf("nPairs %d left %d right %d value %d\n", nPairs, left, right, value) //debug
 		i++
-- 
2.43.0


From 2f7b064fddc4460b2f70f27c247b409f45fbd67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 49/66] fix: broken fonts are refused, or drawn without their
 broken glyphs, instead of panicking

---
 fontmaker/core/ttfparser.go | 42 +++++++++++++++++++++++++++++++++++++
 pdf_dictionary_obj.go       | 35 ++++++++++---------------------
 subset_font_obj.go          | 14 +++++++------
 3 files changed, 61 insertions(+), 30 deletions(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 7f7a432..267cbcd 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -16,6 +16,9 @@ import (
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
 var ERROR_UNEXPECTED_SUBTABLE_FORMAT = errors.New("Unexpected subtable format")
 var ERROR_INCORRECT_MAGIC_NUMBER = errors.New("Incorrect magic number")
+var ERROR_TABLE_OUT_OF_FILE = errors.New("Table out of file")
+var ERROR_INVALID_UNITS_PER_EM = errors.New("Invalid units per em")
+var ERROR_INVALID_NUMBER_OF_METRICS = errors.New("Invalid number of metrics")
 var ERROR_POSTSCRIPT_NAME_NOT_FOUND = errors.New("PostScript name not found")
 
 // TTFParser true type font parser
@@ -272,6 +275,11 @@ func (t *TTFParser) ParseFontData(fontData []byte) error {
 		i++
 	}
 
+	err = t.checkTables(len(fontData))
+	if err != nil {
+		return err
+	}
+
 	err = t.ParseHead(fd)
 	if err != nil {
 		return err
@@ -327,6 +335,34 @@ func (t *TTFParser) FontData() []byte {
 	return t.cachedFontData
 }
 
+// checkTables checks that the tables that get embedded lie inside the font.
+func (t *TTFParser) checkTables(size int) error {
+	for _, tag := range []string{"cvt ", "fpgm", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "prep"} {
+		table, ok := t.tables[tag]
+		if !ok && tag == "glyf" {
+			return ErrTableNotFound
+		}
+		if table.Offset+table.Length > uint(size) {
+			return ERROR_TABLE_OUT_OF_FILE
+		}
+	}
+	return nil
+}
+
+// GlyphRange gets where the glyph is in the font data: from start up to, not including, end.
+// They are equal if it has no outline, or none inside the font data.
+func (t *TTFParser) GlyphRange(glyph int) (start int, end int) {
+	if glyph < 0 || glyph+1 >= len(t.LocaTable) {
+		return 0, 0
+	}
+	offset := t.tables["glyf"].Offset
+	from, to := offset+t.LocaTable[glyph], offset+t.LocaTable[glyph+1]
+	if from >= to || to > uint(len(t.cachedFontData)) {
+		return 0, 0
+	}
+	return int(from), int(to)
+}
+
 // ParseLoca parse loca table https://www.microsoft.com/typography/otspec/loca.htm
 func (t *TTFParser) ParseLoca(fd *bytes.Reader) error {
 
@@ -855,6 +891,9 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.unitsPerEm == 0 {
+		return ERROR_INVALID_UNITS_PER_EM
+	}
 
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
@@ -926,6 +965,9 @@ func (t *TTFParser) ParseHhea(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numberOfHMetrics == 0 {
+		return ERROR_INVALID_NUMBER_OF_METRICS
+	}
 
 	return nil
 }
diff --git a/pdf_dictionary_obj.go b/pdf_dictionary_obj.go
index 36fe2d9..fe31266 100644
--- a/pdf_dictionary_obj.go
+++ b/pdf_dictionary_obj.go
@@ -158,27 +158,14 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 }
 
 func (p *PdfDictionaryObj) getGlyphSize(glyph int) int {
-
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	glyf := ttfp.GetTables()["glyf"]
-	start := int(glyf.Offset + ttfp.LocaTable[glyph])
-	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
-	return next - start
+	start, end := p.PtrToSubsetFontObj.GetTTFParser().GlyphRange(glyph)
+	return end - start
 }
 
 func (p *PdfDictionaryObj) getGlyphData(glyph int) []byte {
 	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	glyf := ttfp.GetTables()["glyf"]
-	start := int(glyf.Offset + ttfp.LocaTable[glyph])
-	next := int(glyf.Offset + ttfp.LocaTable[glyph+1])
-	count := next - start
-	var data []byte
-	i := 0
-	for i < count {
-		data = append(data, ttfp.FontData()[start+i])
-		i++
-	}
-	return data
+	start, end := ttfp.GlyphRange(glyph)
+	return ttfp.FontData()[start:end]
 }
 
 func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
@@ -255,7 +242,9 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
-			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
+			data := make([]byte, entry.PaddedLength())
+			copy(data, ttfp.FontData()[entry.Offset:entry.Offset+entry.Length])
+			WriteBytes(&buff, data, 0, len(data))
 		}
 		endPosition := buff.Position()
 		tablePosition = endPosition
@@ -300,14 +289,12 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 // AddCompositeGlyphs add composite glyph
 // composite glyph is a Unicode entity that can be defined as a sequence of one or more other characters.
 func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
-	start := p.GetOffset(int(glyph))
-	if start == p.GetOffset(int(glyph)+1) {
+	fontData := p.getGlyphData(glyph)
+	if len(fontData) < 10 {
 		return
 	}
 
-	offset := start
-	ttfp := p.PtrToSubsetFontObj.GetTTFParser()
-	fontData := ttfp.FontData()
+	offset := 0
 	numContours, step := ReadShortFromByte(fontData, offset)
 	offset += step
 	if numContours >= 0 {
@@ -315,7 +302,7 @@ func (p *PdfDictionaryObj) AddCompositeGlyphs(glyphArray *[]int, glyph int) {
 	}
 
 	offset += 8
-	for {
+	for offset+4 <= len(fontData) {
 		flags, step1 := ReadUShortFromByte(fontData, offset)
 		offset += step1
 		cGlyph, step2 := ReadUShortFromByte(fontData, offset)
diff --git a/subset_font_obj.go b/subset_font_obj.go
index c895de5..46b7852 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -294,17 +294,19 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat4(r rune) (uint, error) {
 // CharCodeToGlyphIndex gets glyph index from char code.
 func (s *SubsetFontObj) CharCodeToGlyphIndex(r rune) (uint, error) {
 	value := uint64(r)
+	var gIndex uint
+	var err error
 	if value <= 0xFFFF {
-		gIndex, err := s.charCodeToGlyphIndexFormat4(r)
-		if err != nil {
-			return 0, err
-		}
-		return gIndex, nil
+		gIndex, err = s.charCodeToGlyphIndexFormat4(r)
+	} else {
+		gIndex, err = s.charCodeToGlyphIndexFormat12(r)
 	}
-	gIndex, err := s.charCodeToGlyphIndexFormat12(r)
 	if err != nil {
 		return 0, err
 	}
+	if gIndex >= s.ttfp.NumGlyphs() {
+		return 0, ErrGlyphNotFound
+	}
 	return gIndex, nil
 }
 
-- 
2.43.0


From c0bc1430b2898c3a67378484f0da32fedbeeaa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 50/66] fix: cmap segments that overlap cost no more than the
 characters they cover

---
 fontmaker/core/ttfparser.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 267cbcd..9ff249b 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -763,13 +763,23 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 	t.GlyphIdArray = glyphIDArray
 
 	t.chars = make(map[int]uint)
+	next := uint(0) // the characters before it belong to earlier segments
 	for i := 0; i < int(segCount); i++ {
 		c1 := startCount[i]
 		c2 := endCount[i]
 		d := idDelta[i]
 		ro := idRangeOffset[i]
+		if c2 < next {
+			continue
+		}
+		skipped := uint(0)
+		if c1 < next {
+			skipped = next - c1
+			c1 = next
+		}
+		next = c2 + 1
 		if ro > 0 {
-			_, err = fd.Seek(int64(offset+uint(2*i)+ro), 0)
+			_, err = fd.Seek(int64(offset+uint(2*i)+ro+2*skipped), 0)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 7efa0680b8c8d3c21a0f0994a381acd6c26f623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 51/66] fix: table rows with more cells than columns are
 refused, not a panic

---
 table.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/table.go b/table.go
index 3ec0027..f724fb1 100644
--- a/table.go
+++ b/table.go
@@ -1,5 +1,10 @@
 package gopdf
 
+import "errors"
+
+// ErrTooManyCells a row of a table has more cells than the table has columns
+var ErrTooManyCells = errors.New("row has more cells than the table has columns")
+
 // Represents an RGB color with red, green, and blue components
 type RGBColor struct {
 	R uint8 // Red component (0-255)
@@ -160,6 +165,12 @@ func (t *tableLayout) SetCellStyle(style CellStyle) {
 
 // DrawTable the entire table on the PDF
 func (t *tableLayout) DrawTable() error {
+	for _, row := range t.rows {
+		if len(row) > len(t.columns) {
+			return ErrTooManyCells
+		}
+	}
+
 	x := t.startX
 	y := t.startY
 
-- 
2.43.0


From 37973a46e30fc7f079329c1a34ef5263495e25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 52/66] fix: table border encloses rows beyond maxRows

---
 table.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index f724fb1..b3e08d8 100644
--- a/table.go
+++ b/table.go
@@ -251,7 +251,14 @@ func (t *tableLayout) drawTableAndHeaderBorder() error {
 	x1 := t.startX
 	y1 := t.startY
 	x2 := t.startX
-	y2 := t.startY + float64(t.maxRows+1)*t.rowHeight
+	rows := t.maxRows
+	if len(t.rows) > rows {
+		rows = len(t.rows)
+	}
+	if rows < 0 {
+		rows = 0
+	}
+	y2 := t.startY + float64(rows+1)*t.rowHeight
 
 	for _, col := range t.columns {
 		x2 += col.width
-- 
2.43.0


From 412905eef530daa5240c85e88c9e25c0afe0978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 53/66] fix: unknown font of a table cell is reported

---
 table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index b3e08d8..6e26293 100644
--- a/table.go
+++ b/table.go
@@ -319,7 +319,9 @@ func (t *tableLayout) drawCell(
 	// Set the text color and font
 	t.pdf.SetTextColor(style.TextColor.R, style.TextColor.G, style.TextColor.B)
 	if style.Font != "" {
-		t.pdf.SetFont(style.Font, "", style.FontSize)
+		if err := t.pdf.SetFont(style.Font, "", style.FontSize); err != nil {
+			return err
+		}
 	}
 
 	// Draw the cell content
-- 
2.43.0


From 3c011eee742c240d0c89cff68b41f543bdaf24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 54/66] fix: arabic letters do not join a following hamza

---
 arabic_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index 91148eb..5eb5f73 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -87,7 +87,7 @@ func getCharShape(previousChar, currentChar, nextChar rune) rune {
 		previousArabic = true
 	}
 
-	if _, ok := arabicAlphabet[nextChar]; ok {
+	if harf, ok := arabicAlphabet[nextChar]; ok && harf != HAMZA { // hamza does not join
 		nextArabic = true
 	}
 
-- 
2.43.0


From 00e88e843ee0b31511957fae04010a22fded48bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:04 +0000
Subject: [PATCH 55/66] fix: jeh does not join the letter after it

---
 arabic_alphabet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 5fb34d7..a79f87a 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -459,6 +459,7 @@ var rightJoiningOnlyLetters = map[Harf]bool{
 	DAL:              true,
 	THAL:             true,
 	REH:              true,
+	JEH:              true,
 	ZAIN:             true,
 	WAW:              true,
 	ALEF_MAKSURA:     true}
-- 
2.43.0


From e90d40387b4d398d8038857d6bb87238ea5e7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 56/66] fix: teh marbuta joins the letter before it in the
 middle of a word too

---
 arabic_alphabet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index a79f87a..9716001 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -142,7 +142,7 @@ var (
 		Unicode:   '\u0629',
 		Isolated:  '\ufe93',
 		Beginning: '\u0629',
-		Middle:    '\u0629',
+		Middle:    '\ufe94',
 		Final:     '\ufe94'}
 
 	THEH = Harf{ // ث
-- 
2.43.0


From e5ac7c27acd97d444f4e03340a48979f0427602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 57/66] fix: lam followed by alef with madda or hamza below
 becomes their ligature

---
 arabic_alphabet.go | 16 ++++++++++++++++
 arabic_helper.go   |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/arabic_alphabet.go b/arabic_alphabet.go
index 9716001..8405c13 100644
--- a/arabic_alphabet.go
+++ b/arabic_alphabet.go
@@ -384,6 +384,20 @@ var (
 		Beginning: '\ufef7',
 		Middle:    '\ufef8',
 		Final:     '\ufef8'}
+
+	LAM_ALEF_MADDA_ABOVE = Harf{ // ﻵ
+		Unicode:   '\ufef5',
+		Isolated:  '\ufef5',
+		Beginning: '\ufef5',
+		Middle:    '\ufef6',
+		Final:     '\ufef6'}
+
+	LAM_ALEF_HAMZA_BELOW = Harf{ // ﻹ
+		Unicode:   '\ufef9',
+		Isolated:  '\ufef9',
+		Beginning: '\ufef9',
+		Middle:    '\ufefa',
+		Final:     '\ufefa'}
 )
 
 var arabicAlphabet = map[rune]Harf{}
@@ -434,6 +448,8 @@ var arabicAlphabetCollection = []Harf{
 	TATWEEL,
 	LAM_ALEF,
 	LAM_ALEF_HAMZA_ABOVE,
+	LAM_ALEF_MADDA_ABOVE,
+	LAM_ALEF_HAMZA_BELOW,
 }
 
 func init() {
diff --git a/arabic_helper.go b/arabic_helper.go
index 5eb5f73..64dd5c6 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -190,6 +190,12 @@ func ToArabic(text string) string {
 			case ALEF_HAMZA_ABOVE.Unicode:
 				ligatureHarf = LAM_ALEF_HAMZA_ABOVE.Unicode
 				foundLigature = true
+			case ALEF_MADDA_ABOVE.Unicode:
+				ligatureHarf = LAM_ALEF_MADDA_ABOVE.Unicode
+				foundLigature = true
+			case ALEF_HAMZA_BELOW.Unicode:
+				ligatureHarf = LAM_ALEF_HAMZA_BELOW.Unicode
+				foundLigature = true
 			}
 			if foundLigature {
 				currentHarf = ligatureHarf
-- 
2.43.0


From 56c6a869cb846741c7810e24791a2d6cf89cbcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:12 +0000
Subject: [PATCH 58/66] fix: diacritics before the first letter are not lost

---
 arabic_helper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arabic_helper.go b/arabic_helper.go
index 64dd5c6..bb5b5d9 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -27,11 +27,14 @@ func reverseWithTashkeel(runes []rune) string {
 
 	var groups []hrofGroup
 	var currentGroup *hrofGroup
+	var leading []rune // tashkeel before the first base
 
 	for _, r := range runes {
 		if IsTashkeel(r) {
 			if currentGroup != nil {
 				currentGroup.tashkeel = append(currentGroup.tashkeel, r)
+			} else {
+				leading = append(leading, r)
 			}
 		} else {
 			groups = append(groups, hrofGroup{base: r})
@@ -46,6 +49,7 @@ func reverseWithTashkeel(runes []rune) string {
 		result = append(result, groups[i].tashkeel...)
 		result = append(result, groups[i].base)
 	}
+	result = append(result, leading...)
 	return string(result)
 
 }
-- 
2.43.0


From 5426b632d41fae2d2e29399d50630f7ff140e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 59/66] fix: words that contain Allah keep their letters joined

---
 arabic_helper.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/arabic_helper.go b/arabic_helper.go
index bb5b5d9..48e0f5b 100644
--- a/arabic_helper.go
+++ b/arabic_helper.go
@@ -1,16 +1,30 @@
 package gopdf
 
-import "strings"
-
 // ALLAH_LIGATURE is the Unicode character for the Allah ligature (U+FDF2 ﷲ)
 const ALLAH_LIGATURE rune = 0xFDF2
 
-// convertAllahToLigature replaces the word "الله" (Allah) with the Allah ligature U+FDF2 (ﷲ)
+// convertAllahToLigature replaces the word "الله" (Allah) with the Allah ligature U+FDF2 (ﷲ),
+// unless it joins the letter before or after it.
 func convertAllahToLigature(text string) string {
 	// الله without tashkeel: Alef + Lam + Lam + Heh
-	allah := string([]rune{ALEF.Unicode, LAM.Unicode, LAM.Unicode, HEH.Unicode})
-	// Replace with the Allah ligature character
-	return strings.ReplaceAll(text, allah, string(ALLAH_LIGATURE))
+	allah := []rune{ALEF.Unicode, LAM.Unicode, LAM.Unicode, HEH.Unicode}
+	runes := []rune(text)
+	result := make([]rune, 0, len(runes))
+	for i := 0; i < len(runes); i++ {
+		end := i + len(allah)
+		if end <= len(runes) && string(runes[i:end]) == string(allah) {
+			alef := getCharShape(findPreviousNonTashkeelHarf(runes, i), ALEF.Unicode, LAM.Unicode)
+			heh := getCharShape(LAM.Unicode, HEH.Unicode, findNextNonTashkeelHarf(runes, end-1))
+			if alef != ALEF.Middle && heh == HEH.Final {
+				// Replace with the Allah ligature character
+				result = append(result, ALLAH_LIGATURE)
+				i = end - 1
+				continue
+			}
+		}
+		result = append(result, runes[i])
+	}
+	return string(result)
 }
 
 // reverseWithTashkeel reverses Arabic text while keeping tashkeel attached to base characters
-- 
2.43.0


From 1ce1d8a3915589d5776af7a3077c060f907bdb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:00 +0000
Subject: [PATCH 60/66] fix: IsFitMultiCellWithNewline counts the height of
 blank lines

---
 gopdf.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/gopdf.go b/gopdf.go
index 4857670..43c0cff 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1366,7 +1366,19 @@ func (gp *GoPdf) IsFitMultiCellWithNewline(rectangle *Rect, text string) (bool,
 	r := *rectangle
 	strs := strings.Split(text, "\n")
 
-	for _, s := range strs {
+	for i, s := range strs {
+		if s == "" && i < len(strs)-1 { // a blank line
+			_, lineHeight, _, err := createContent(gp.curr.FontISubset, s, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+			if err != nil {
+				return false, 0, err
+			}
+			gp.PointsToUnitsVar(&lineHeight)
+			if lineHeight > r.H {
+				return false, 0, nil
+			}
+			r.H -= lineHeight
+			continue
+		}
 		ok, height, err := gp.IsFitMultiCell(&r, s)
 		if err != nil || !ok {
 			return false, 0, err
-- 
2.43.0


From 0211eaae0c5463c5328ee22b8f89db211841bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:34 +0000
Subject: [PATCH 61/66] fix: text keeps the kerning override of the time it was
 drawn

---
 cache_content_text.go | 24 +++++++++++++++++-------
 content_obj.go        |  3 +++
 gopdf.go              | 14 +++++++-------
 subset_font_obj.go    |  2 +-
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/cache_content_text.go b/cache_content_text.go
index 7784d4e..69b5671 100644
--- a/cache_content_text.go
+++ b/cache_content_text.go
@@ -33,6 +33,7 @@ type cacheContentText struct {
 	setXCount      int //จำนวนครั้งที่ใช้ setX
 	x, y           float64
 	fontSubset     *SubsetFontObj
+	kernOverride   *FuncKernOverride
 	pageheight     float64
 	contentType    int
 	cellOpt        CellOption
@@ -54,6 +55,10 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		return false
 	}
 
+	if c.kernOverride != cache.kernOverride {
+		return false
+	}
+
 	if cache.x != c.x+c.cellWidthPdfUnit {
 		//the new text does not start where the last one ends
 		return false
@@ -266,7 +271,7 @@ func (c *cacheContentText) write(w io.Writer, protection *PDFProtection) error {
 
 		pairvalPdfUnit := 0
 		if i > 0 && c.fontSubset.ttfFontOption.UseKerning { //kerning
-			pairval := kern(c.fontSubset, leftRune, r, leftRuneIndex, glyphindex)
+			pairval := kern(c.fontSubset, c.kernOverride, leftRune, r, leftRuneIndex, glyphindex)
 			pairvalPdfUnit = convertTTFUnit2PDFUnit(int(pairval), unitsPerEm)
 			if pairvalPdfUnit != 0 {
 				fmt.Fprintf(w, ">%d<", (-1)*pairvalPdfUnit)
@@ -405,7 +410,7 @@ func (c *cacheContentText) underline(w io.Writer) error {
 
 func (c *cacheContentText) createContent() (float64, float64, error) {
 
-	cellWidthPdfUnit, cellHeightPdfUnit, textWidthPdfUnit, err := createContent(c.fontSubset, c.text, c.fontSize, c.charSpacing, c.rectangle)
+	cellWidthPdfUnit, cellHeightPdfUnit, textWidthPdfUnit, err := createContent(c.fontSubset, c.kernOverride, c.text, c.fontSize, c.charSpacing, c.rectangle)
 	if err != nil {
 		return 0, 0, err
 	}
@@ -415,7 +420,7 @@ func (c *cacheContentText) createContent() (float64, float64, error) {
 	return cellWidthPdfUnit, cellHeightPdfUnit, nil
 }
 
-func createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing float64, rectangle *Rect) (float64, float64, float64, error) {
+func createContent(f *SubsetFontObj, override *FuncKernOverride, text string, fontSize float64, charSpacing float64, rectangle *Rect) (float64, float64, float64, error) {
 
 	unitsPerEm := int(f.ttfp.UnitsPerEm())
 	var leftRune rune
@@ -433,7 +438,7 @@ func createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing
 
 		pairvalPdfUnit := 0
 		if i > 0 && f.ttfFontOption.UseKerning { //kerning
-			pairval := kern(f, leftRune, r, leftRuneIndex, glyphindex)
+			pairval := kern(f, override, leftRune, r, leftRuneIndex, glyphindex)
 			pairvalPdfUnit = convertTTFUnit2PDFUnit(int(pairval), unitsPerEm)
 		}
 
@@ -466,7 +471,7 @@ func createContent(f *SubsetFontObj, text string, fontSize float64, charSpacing
 	return cellWidthPdfUnit, cellHeightPdfUnit, textWidthPdfUnit, nil
 }
 
-func kern(f *SubsetFontObj, leftRune rune, rightRune rune, leftIndex uint, rightIndex uint) int16 {
+func kern(f *SubsetFontObj, override *FuncKernOverride, leftRune rune, rightRune rune, leftIndex uint, rightIndex uint) int16 {
 
 	pairVal := int16(0)
 	if haveKerning, kval := f.KernValueByLeft(leftIndex); haveKerning {
@@ -475,8 +480,8 @@ func kern(f *SubsetFontObj, leftRune rune, rightRune rune, leftIndex uint, right
 		}
 	}
 
-	if f.funcKernOverride != nil {
-		pairVal = f.funcKernOverride(
+	if override != nil && *override != nil {
+		pairVal = (*override)(
 			leftRune,
 			rightRune,
 			leftIndex,
@@ -508,8 +513,13 @@ func (c *CacheContent) Setup(rectangle *Rect,
 	cellOpt CellOption,
 	lineWidth float64,
 ) {
+	var kernOverride *FuncKernOverride
+	if fontSubset != nil {
+		kernOverride = fontSubset.funcKernOverride
+	}
 	c.cacheContentText = cacheContentText{
 		fontSubset:     fontSubset,
+		kernOverride:   kernOverride,
 		rectangle:      rectangle,
 		textColor:      textColor,
 		grayFill:       grayFill,
diff --git a/content_obj.go b/content_obj.go
index 6dad489..65eb5eb 100644
--- a/content_obj.go
+++ b/content_obj.go
@@ -117,6 +117,7 @@ func (c *ContentObj) appendStreamPlaceHolderText(placeHolderWidth float64) error
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
+		kernOverride:   fontSubset.funcKernOverride,
 		rectangle:      nil,
 		textColor:      textColor,
 		grayFill:       grayFill,
@@ -165,6 +166,7 @@ func (c *ContentObj) AppendStreamText(text string) error {
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
+		kernOverride:   fontSubset.funcKernOverride,
 		rectangle:      nil,
 		textColor:      textColor,
 		grayFill:       grayFill,
@@ -207,6 +209,7 @@ func (c *ContentObj) AppendStreamSubsetFont(rectangle *Rect, text string, cellOp
 
 	cache := cacheContentText{
 		fontSubset:     fontSubset,
+		kernOverride:   fontSubset.funcKernOverride,
 		rectangle:      rectangle,
 		textColor:      textColor,
 		grayFill:       grayFill,
diff --git a/gopdf.go b/gopdf.go
index 43c0cff..1aaed4a 100644
--- a/gopdf.go
+++ b/gopdf.go
@@ -1270,7 +1270,7 @@ func (gp *GoPdf) MultiCell(rectangle *Rect, text string) error {
 	if err != nil {
 		return err
 	}
-	_, lineHeight, _, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+	_, lineHeight, _, err := createContent(gp.curr.FontISubset, gp.curr.FontISubset.funcKernOverride, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
 	if err != nil {
 		return err
 	}
@@ -1324,7 +1324,7 @@ func (gp *GoPdf) IsFitMultiCell(rectangle *Rect, text string) (bool, float64, er
 	if err != nil {
 		return false, totalLineHeight, err
 	}
-	_, lineHeight, _, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+	_, lineHeight, _, err := createContent(gp.curr.FontISubset, gp.curr.FontISubset.funcKernOverride, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
 
 	if err != nil {
 		return false, totalLineHeight, err
@@ -1368,7 +1368,7 @@ func (gp *GoPdf) IsFitMultiCellWithNewline(rectangle *Rect, text string) (bool,
 
 	for i, s := range strs {
 		if s == "" && i < len(strs)-1 { // a blank line
-			_, lineHeight, _, err := createContent(gp.curr.FontISubset, s, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+			_, lineHeight, _, err := createContent(gp.curr.FontISubset, gp.curr.FontISubset.funcKernOverride, s, gp.curr.FontSize, gp.curr.CharSpacing, nil)
 			if err != nil {
 				return false, 0, err
 			}
@@ -1411,7 +1411,7 @@ func (gp *GoPdf) MultiCellWithOption(rectangle *Rect, text string, opt CellOptio
 	if err != nil {
 		return err
 	}
-	_, lineHeight, _, err := createContent(gp.curr.FontISubset, itext, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+	_, lineHeight, _, err := createContent(gp.curr.FontISubset, gp.curr.FontISubset.funcKernOverride, itext, gp.curr.FontSize, gp.curr.CharSpacing, nil)
 	if err != nil {
 		return err
 	}
@@ -1998,7 +1998,7 @@ func (gp *GoPdf) KernOverride(family string, fn FuncKernOverride) error {
 			sub, ok := obj.(*SubsetFontObj)
 			if ok {
 				if sub.GetFamily() == family {
-					sub.funcKernOverride = fn
+					sub.funcKernOverride = &fn
 					return nil
 				}
 			}
@@ -2058,7 +2058,7 @@ func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 		return 0, err
 	}
 
-	_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+	_, _, textWidthPdfUnit, err := createContent(gp.curr.FontISubset, gp.curr.FontISubset.funcKernOverride, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
 	if err != nil {
 		return 0, err
 	}
@@ -2073,7 +2073,7 @@ func (gp *GoPdf) MeasureCellHeightByText(text string) (float64, error) {
 		return 0, err
 	}
 
-	_, cellHeightPdfUnit, _, err := createContent(gp.curr.FontISubset, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
+	_, cellHeightPdfUnit, _, err := createContent(gp.curr.FontISubset, gp.curr.FontISubset.funcKernOverride, text, gp.curr.FontSize, gp.curr.CharSpacing, nil)
 	if err != nil {
 		return 0, err
 	}
diff --git a/subset_font_obj.go b/subset_font_obj.go
index 46b7852..39ded52 100644
--- a/subset_font_obj.go
+++ b/subset_font_obj.go
@@ -23,7 +23,7 @@ type SubsetFontObj struct {
 	indexObjCIDFont       int
 	indexObjUnicodeMap    int
 	ttfFontOption         TtfOption
-	funcKernOverride      FuncKernOverride
+	funcKernOverride      *FuncKernOverride
 	funcGetRoot           func() *GoPdf
 	addCharsBuff          []rune
 }
-- 
2.43.0


From be9fd9c608271204c35b6011b79252441bc5c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:20 +0000
Subject: [PATCH 62/66] fix: a font parser used again reports the widths and
 character groups of the new font only

---
 fontmaker/core/ttfparser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 9ff249b..429973e 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -812,6 +812,7 @@ func (t *TTFParser) ParseCmap(fd *bytes.Reader) error {
 
 	}
 
+	t.groupingTables = nil //clear
 	_, err = t.ParseCmapFormat12(fd)
 	if err != nil {
 		return err
@@ -832,6 +833,7 @@ func (t *TTFParser) ParseHmtx(fd *bytes.Reader) error {
 		return err
 	}
 
+	t.widths = nil //clear
 	i := uint(0)
 	for i < t.numberOfHMetrics {
 		advanceWidth, err := t.ReadUShort(fd)
-- 
2.43.0


From 12b4823786d6c57c35f07e5574692fc36af09eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:56 +0000
Subject: [PATCH 63/66] fix: zeros of a font's PostScript name are kept

---
 fontmaker/core/ttfparser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/fontmaker/core/ttfparser.go b/fontmaker/core/ttfparser.go
index 429973e..a2ca7b3 100644
--- a/fontmaker/core/ttfparser.go
+++ b/fontmaker/core/ttfparser.go
@@ -9,8 +9,6 @@ import (
 	"io"
 	"os"
 	"regexp"
-	"strconv"
-	"strings"
 )
 
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
@@ -598,7 +596,6 @@ func (t *TTFParser) ParseName(fd *bytes.Reader) error {
 			}
 			//s := fmt.Sprintf("%s", string(tmpStmp)) //strings(stmp)
 			s := string(tmpStmp)
-			s = strings.Replace(s, strconv.Itoa(0), "", -1)
 			s, err = t.PregReplace("|[ \\[\\](){}<>/%]|", "", s)
 			if err != nil {
 				return err
-- 
2.43.0


From 29f681bb34f624e6465572cf0ebe5a507df34cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:58 +0000
Subject: [PATCH 64/66] fix: font definitions give the first code of
 differences that start at code 1

---
 fontmaker/core/fontmaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontmaker/core/fontmaker.go b/fontmaker/core/fontmaker.go
index d4b8d42..3add36c 100644
--- a/fontmaker/core/fontmaker.go
+++ b/fontmaker/core/fontmaker.go
@@ -311,7 +311,7 @@ func (f *FontMaker) MakeFontEncoding(mappath string, fontmaps []FontMap) (string
 		return "", err
 	}
 	s := ""
-	last := 0
+	last := -2
 	for c := 0; c <= 255; c++ {
 		if fontmaps[c].Name != ref[c].Name {
 			if c != last+1 {
-- 
2.43.0


From 265c9fbf8152f9e841ff9f07abd578b9e5ec989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:01 +0000
Subject: [PATCH 65/66] fix: malformed lines of encoding maps are errors

---
 fontmaker/core/fontmaker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fontmaker/core/fontmaker.go b/fontmaker/core/fontmaker.go
index 3add36c..b4e66a2 100644
--- a/fontmaker/core/fontmaker.go
+++ b/fontmaker/core/fontmaker.go
@@ -470,7 +470,13 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
+		if line == "" {
+			continue
+		}
 		e := strings.Split(line, " ")
+		if len(e) < 3 || len(e[0]) < 2 || len(e[1]) < 3 {
+			return nil, fmt.Errorf("bad line in map: %q", line)
+		}
 		strC := (e[0])[1:]
 		strUv := (e[1])[2:]
 		c, err := strconv.ParseInt(strC, 16, 0)
@@ -481,6 +487,9 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || c >= int64(max) {
+			return nil, fmt.Errorf("bad code in map: %q", line)
+		}
 		name := e[2]
 		fontmaps[c].Name = name
 		fontmaps[c].Uv = int(uv)
-- 
2.43.0


From bda9303c981aa00363793a3b5624f0e3c87bf3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:04 +0000
Subject: [PATCH 66/66] fix: font definitions compile against the library,
 whatever the font file is called

---
 fontmaker/core/fontmaker.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fontmaker/core/fontmaker.go b/fontmaker/core/fontmaker.go
index b4e66a2..60d250d 100644
--- a/fontmaker/core/fontmaker.go
+++ b/fontmaker/core/fontmaker.go
@@ -10,6 +10,8 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // ErrFontLicenseDoesNotAllowEmbedding Font license does not allow embedding
@@ -91,8 +93,18 @@ func (f *FontMaker) MakeFont(fontpath string, mappath string, encode string, out
 }
 
 func (f *FontMaker) GoStructName(name string) string {
-	goname := strings.ToUpper(name[0:1]) + name[1:]
-	return goname
+	goname := ""
+	for _, r := range name {
+		if r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
+			r = '_' // a name of Go cannot hold it
+		}
+		goname += string(r)
+	}
+	if goname == "" || !unicode.IsLetter([]rune(goname)[0]) {
+		return "Font" + goname
+	}
+	_, size := utf8.DecodeRuneInString(goname)
+	return strings.ToUpper(goname[:size]) + goname[size:]
 }
 
 func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, exportfile string, encode string, fontmaps []FontMap, info TtfInfo) (string, error) {
@@ -173,10 +185,10 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	str += "func (me * " + gofontname + ")GetDesc() []gopdf.FontDescItem{\n"
 	str += "\treturn me.desc\n"
 	str += "}\n"
-	str += "func (me * " + gofontname + ")GetUnderlinePosition() int{\n"
+	str += "func (me * " + gofontname + ")GetUp() int{\n"
 	str += "\treturn me.up\n"
 	str += "}\n"
-	str += "func (me * " + gofontname + ")GetUnderlineThickness()  int{\n"
+	str += "func (me * " + gofontname + ")GetUt() int{\n"
 	str += "\treturn me.ut\n"
 	str += "}\n"
 	str += "func (me * " + gofontname + ")GetCw() gopdf.FontCw{\n"
@@ -337,7 +349,7 @@ func (f *FontMaker) MakeWidthArray(widths map[int]int) (string, error) {
 		} else if c >= 32 && c <= 126 {
 			str += "gopdf.ToByte(\"" + chr + "\")"
 		} else {
-			str += fmt.Sprintf("gopdf.Chr(%d)", c)
+			str += fmt.Sprintf("byte(%d)", c)
 		}
 		str += fmt.Sprintf("]=%d\n", widths[c])
 	}
-- 
2.43.0

